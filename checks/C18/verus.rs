// C18: encodings
use vstd::prelude::*;
verus! {
#[derive(Debug)] pub struct Report { pub e: u64 }
pub type EResult<T> = core::result::Result<T, Report>;
//@include lib/verus/codecfns.rs
//@include lib/verus/serdeshim.rs
// ------------------------------------------------------------------ epoch and round in one number
pub struct Header { pub inner: HeaderInner }
pub struct HeaderInner { pub round: u32, pub epoch: u32 }
impl Header {
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn nonce" ret=r
//@tail r0
    let r0 = r0;
    proof {
        let (e, d) = (self.inner.epoch, self.inner.round);
        assert(((e as u64) << 32u64 | d as u64) == e as u64 * 0x1_0000_0000 + d as u64) by (bit_vector);
    }
//@spec
    ensures r == self.inner.epoch * 0x1_0000_0000 + self.inner.round,
//@end
}
//@fn file=crates/types/src/helpers.rs path="fn deconstruct_nonce" ret=r
//@head
    proof {
        assert((nonce >> 32u64) == nonce / 0x1_0000_0000) by (bit_vector);
        assert((nonce as u32) == nonce % 0x1_0000_0000) by (bit_vector);
        assert(((nonce >> 32u64) as u32) as u64 == nonce >> 32u64) by (bit_vector);
    }
//@spec
    ensures r.0 as u64 == nonce / 0x1_0000_0000, r.1 as u64 == nonce % 0x1_0000_0000,
//@end
/// epoch and round come back, and the number orders headers by epoch, then round
pub fn nonce_inverse(h: &Header) -> (r: (u32, u32))
    ensures r == (h.inner.epoch, h.inner.round)
{
    let n = h.nonce();
    proof {
        let (e, d) = (h.inner.epoch as int, h.inner.round as int);
        assert((e * 0x1_0000_0000 + d) / 0x1_0000_0000 == e && (e * 0x1_0000_0000 + d) % 0x1_0000_0000 == d) by (nonlinear_arith) requires 0 <= d < 0x1_0000_0000;
    }
    deconstruct_nonce(n)
}
proof fn nonce_order(a: Header, b: Header, x: u64, y: u64)
    requires x == a.inner.epoch * 0x1_0000_0000 + a.inner.round, y == b.inner.epoch * 0x1_0000_0000 + b.inner.round,
    ensures x < y <==> (a.inner.epoch < b.inner.epoch || a.inner.epoch == b.inner.epoch && a.inner.round < b.inner.round), x == y ==> a.inner == b.inner,
{}
// ------------------------------------------------------------------ bitmap of signers
pub mod roaring {
    use vstd::prelude::*;
    #[verifier::external_body] #[verifier::ext_equal] pub struct RoaringBitmap { _p: () }
    #[verifier::external_body] #[derive(Debug)] pub struct IoErr { _p: () }
    /// the portable on-disk form, and what reading it gives
    pub uninterp spec fn rb_bytes(m: RoaringBitmap) -> Seq<u8>;
    pub uninterp spec fn rb_parse(b: Seq<u8>) -> Option<RoaringBitmap>;
    pub broadcast axiom fn ax_rb(m: RoaringBitmap) ensures rb_parse(#[trigger] rb_bytes(m)) == Some(m);
    impl RoaringBitmap {
        #[verifier::external_body]
        pub fn serialize_into(&self, w: &mut Vec<u8>) -> (r: Result<(), IoErr>) ensures r is Ok, final(w)@ == old(w)@ + rb_bytes(*self) { unimplemented!() }
        #[verifier::external_body]
        pub fn deserialize_from(b: &[u8]) -> (r: Result<RoaringBitmap, IoErr>) ensures (match r { Ok(v) => Some(v), Err(_) => None }) == rb_parse(b@) { unimplemented!() }
    }
}
use roaring::{rb_bytes, rb_parse};
pub open spec fn rb_data(human: bool, m: roaring::RoaringBitmap) -> Data { if human { Data::Str(b58(rb_bytes(m))) } else { Data::Bytes(rb_bytes(m)) } }
pub struct RBVisitor;
impl Visitor for RBVisitor {
    type Value = roaring::RoaringBitmap;
    open spec fn reads(self, d: Data) -> Option<roaring::RoaringBitmap> {
        match d { Data::Bytes(b) => rb_parse(b), Data::Str(s) => match b58dec(s) { Some(b) => rb_parse(b), None => None }, Data::Other => None }
    }
//@fn file=crates/types/src/serde.rs path="impl DeserializeAs for RoaringBitmapSerde :: fn deserialize_as :: impl Visitor for RBVisitor :: fn visit_bytes" trait
//@sub? /format!\([^()]*\)/ => vx_msg()
//@desugar res.map_err
//@end
//@fn file=crates/types/src/serde.rs path="impl DeserializeAs for RoaringBitmapSerde :: fn deserialize_as :: impl Visitor for RBVisitor :: fn visit_str" trait
//@desugar res.map_err
//@end
}
pub struct RoaringBitmapSerde;
impl RoaringBitmapSerde {
//@fn file=crates/types/src/serde.rs path="impl SerializeAs for RoaringBitmapSerde :: fn serialize_as" ret=r
//@sub? /format!\([^()]*\)/ => vx_msg()
//@desugar res.map_err
//@spec
    ensures serializer.wrote(rb_data(serializer.human(), *source), r),
//@end
//@fn file=crates/types/src/serde.rs path="impl DeserializeAs for RoaringBitmapSerde :: fn deserialize_as" ret=r nested=drop
//@sub? /<'de>/ =>
//@spec
    ensures
        ok(r) == (if (deserializer.human() && deserializer.data() is Str) || (!deserializer.human() && deserializer.data() is Bytes) { RBVisitor.reads(deserializer.data()) } else { None }),
        // reads back what was written, in both formats
        forall|m: roaring::RoaringBitmap| deserializer.data() == #[trigger] rb_data(deserializer.human(), m) ==> ok(r) == Some(m),
//@head
    broadcast use {ax_b58, roaring::ax_rb};
//@end
}
fn main() {}
}
