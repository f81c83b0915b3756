// the CRC-32 crate: a hasher over the bytes fed so far; crc32() is an arbitrary function of them
pub mod crc32fast {
    use vstd::prelude::*;
    pub uninterp spec fn crc32(b: Seq<u8>) -> u32;
    #[verifier::external_body]
    pub struct Hasher { h: u32 }
    impl Hasher {
        pub uninterp spec fn fed(self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new() -> (r: Hasher) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { unimplemented!() }
        #[verifier::external_body]
        pub fn finalize(self) -> (r: u32) ensures r == crc32(self.fed()) { unimplemented!() }
    }
}
pub use crc32fast::crc32;
pub open spec fn stamped(b: Seq<u8>) -> bool { b.len() >= 5 && b.skip(b.len() - 4) =~= le32(crc32(b.take(b.len() - 4))) }
//@fn file=crates/storage/src/archive/crc.rs path="fn check_crc" ret=r
//@sub? /pub\(crate\)/ => pub
//@spec
    ensures r == stamped(buffer@),
//@end
//@fn file=crates/storage/src/archive/crc.rs path="fn add_crc32"
//@sub? /pub\(crate\)/ => pub
//@sub? /debug_assert! \( len >= 5,[^;]*;/ =>
//@spec
    ensures
        final(buffer)@.len() == old(buffer)@.len(),
        old(buffer)@.len() >= 5 ==> stamped(final(buffer)@) && final(buffer)@.take(old(buffer)@.len() - 4) =~= old(buffer)@.take(old(buffer)@.len() - 4),
        old(buffer)@.len() < 5 ==> final(buffer)@ == old(buffer)@,
//@end
