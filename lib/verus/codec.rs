//@known encode_into_buffer try_decode zstd
// the BCS codec and zstd (assumed): decoding inverts encoding, decompression inverts compression
pub mod vx_ax {
    use vstd::prelude::*;
    pub uninterp spec fn enc<V>(v: V) -> Seq<u8>;
    pub uninterp spec fn dec<V>(b: Seq<u8>) -> Option<V>;
    pub broadcast axiom fn ax_codec<V>(v: V) ensures dec::<V>(#[trigger] enc(v)) == Some(v);
    /// `b` is a zstd stream this reader accepts; zout: what it expands to
    pub uninterp spec fn zok(b: Seq<u8>) -> bool;
    pub uninterp spec fn zout(b: Seq<u8>) -> Seq<u8>;
}
pub use vx_ax::{enc, dec, zok, zout};
pub struct BcsError { pub e: u64 }
impl BcsError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
#[verifier::external_body]
pub fn encode_into_buffer<V>(w: &mut Vec<u8>, v: &V) -> (r: Result<(), BcsError>)
    ensures r is Ok ==> final(w)@ == old(w)@ + enc(*v),
{ unimplemented!() }
#[verifier::external_body]
pub fn try_decode<V>(b: &[u8]) -> (r: Result<V, BcsError>)
    ensures dec::<V>(b@) matches Some(v) ==> r == Ok::<V, BcsError>(v), dec::<V>(b@) is None ==> r is Err,
{ unimplemented!() }
/// `Encoder::new(out, 0)`, `write_all(data)`, `finish()`
#[verifier::external_body]
pub fn vx_zstd_compress(out: &mut Vec<u8>, data: &Vec<u8>) -> (r: io::Result<()>)
    ensures r is Ok ==> old(out)@.is_prefix_of(final(out)@) && zok(final(out)@.skip(old(out)@.len() as int)) && zout(final(out)@.skip(old(out)@.len() as int)) == data@,
{ unimplemented!() }
pub struct VxZDec { pub src: Ghost<Seq<u8>> }
pub struct VxZTake { pub src: Ghost<Seq<u8>>, pub lim: u64 }
impl VxZDec {
    #[verifier::external_body]
    pub fn vx_new(b: &[u8]) -> (r: io::Result<VxZDec>) ensures zok(b@) ==> r is Ok, r matches Ok(d) ==> d.src@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn window_log_max(&mut self, n: u32) -> (r: io::Result<()>) ensures final(self).src@ == old(self).src@, n >= 24 ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: u64) -> (r: VxZTake) ensures r.src@ == self.src@, r.lim == n { unimplemented!() }
}
impl VxZTake {
    #[verifier::external_body]
    pub fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures
            zok(old(self).src@) ==> r is Ok,
            r is Ok ==> old(b)@.is_prefix_of(final(b)@) && final(b)@.len() <= old(b)@.len() + old(self).lim,
            // fewer bytes than the limit: the stream ended there
            r is Ok && final(b)@.len() < old(b)@.len() + old(self).lim ==> zok(old(self).src@) && final(b)@ == old(b)@ + zout(old(self).src@),
            r is Ok && zok(old(self).src@) ==> final(b)@ == old(b)@ + (if zout(old(self).src@).len() <= old(self).lim { zout(old(self).src@) } else { zout(old(self).src@).take(old(self).lim as int) }),
    { unimplemented!() }
}
