//@known vx_le vx_be vx_u16_le vx_u32_le vx_u64_le vx_u16_be vx_u32_be vx_u64_be to_le_bytes
// std's integer <-> byte-array conversions (assumed; std exposes them with a const-generic length Verus cannot name)
pub mod vx_bytes {
use vstd::prelude::*;
use vstd::bytes::*;
pub open spec fn le16(x: u16) -> Seq<u8> { spec_u16_to_le_bytes(x) }
pub open spec fn le32(x: u32) -> Seq<u8> { spec_u32_to_le_bytes(x) }
pub open spec fn le64(x: u64) -> Seq<u8> { spec_u64_to_le_bytes(x) }
pub open spec fn un16(s: Seq<u8>) -> u16 { spec_u16_from_le_bytes(s) }
pub open spec fn un32(s: Seq<u8>) -> u32 { spec_u32_from_le_bytes(s) }
pub open spec fn un64(s: Seq<u8>) -> u64 { spec_u64_from_le_bytes(s) }
pub trait VxLe { type B; fn vx_le(self) -> (r: Self::B); fn vx_be(self) -> (r: Self::B); }
impl VxLe for u16 { type B = [u8; 2];
    #[verifier::external_body] fn vx_le(self) -> (r: [u8; 2]) ensures r@ == le16(self) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_be(self) -> (r: [u8; 2]) ensures r@ == le16(self).reverse() { self.to_be_bytes() } }
impl VxLe for u32 { type B = [u8; 4];
    #[verifier::external_body] fn vx_le(self) -> (r: [u8; 4]) ensures r@ == le32(self) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_be(self) -> (r: [u8; 4]) ensures r@ == le32(self).reverse() { self.to_be_bytes() } }
impl VxLe for u64 { type B = [u8; 8];
    #[verifier::external_body] fn vx_le(self) -> (r: [u8; 8]) ensures r@ == le64(self) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_be(self) -> (r: [u8; 8]) ensures r@ == le64(self).reverse() { self.to_be_bytes() } }
#[verifier::external_body] pub fn vx_u16_le(x: [u8; 2]) -> (r: u16) ensures r == un16(x@) { u16::from_le_bytes(x) }
#[verifier::external_body] pub fn vx_u32_le(x: [u8; 4]) -> (r: u32) ensures r == un32(x@) { u32::from_le_bytes(x) }
#[verifier::external_body] pub fn vx_u64_le(x: [u8; 8]) -> (r: u64) ensures r == un64(x@) { u64::from_le_bytes(x) }
#[verifier::external_body] pub fn vx_u16_be(x: [u8; 2]) -> (r: u16) ensures r == un16(x@.reverse()) { u16::from_be_bytes(x) }
#[verifier::external_body] pub fn vx_u32_be(x: [u8; 4]) -> (r: u32) ensures r == un32(x@.reverse()) { u32::from_be_bytes(x) }
#[verifier::external_body] pub fn vx_u64_be(x: [u8; 8]) -> (r: u64) ensures r == un64(x@.reverse()) { u64::from_be_bytes(x) }
// proved, not assumed: the conversions are inverse bijections
pub broadcast proof fn b_le16(x: u16) ensures (#[trigger] le16(x)).len() == 2, un16(le16(x)) == x { lemma_auto_spec_u16_to_from_le_bytes(); assert(spec_u16_to_le_bytes(x).len() == 2); assert(spec_u16_from_le_bytes(spec_u16_to_le_bytes(x)) == x); }
pub broadcast proof fn b_le32(x: u32) ensures (#[trigger] le32(x)).len() == 4, un32(le32(x)) == x { lemma_auto_spec_u32_to_from_le_bytes(); assert(spec_u32_to_le_bytes(x).len() == 4); assert(spec_u32_from_le_bytes(spec_u32_to_le_bytes(x)) == x); }
pub broadcast proof fn b_le64(x: u64) ensures (#[trigger] le64(x)).len() == 8, un64(le64(x)) == x { lemma_auto_spec_u64_to_from_le_bytes(); assert(spec_u64_to_le_bytes(x).len() == 8); assert(spec_u64_from_le_bytes(spec_u64_to_le_bytes(x)) == x); }
pub broadcast proof fn b_un16(s: Seq<u8>) requires s.len() == 2 ensures le16(#[trigger] un16(s)) =~= s { lemma_auto_spec_u16_to_from_le_bytes(); }
pub broadcast proof fn b_un32(s: Seq<u8>) requires s.len() == 4 ensures le32(#[trigger] un32(s)) =~= s { lemma_auto_spec_u32_to_from_le_bytes(); }
pub broadcast proof fn b_un64(s: Seq<u8>) requires s.len() == 8 ensures le64(#[trigger] un64(s)) =~= s { lemma_auto_spec_u64_to_from_le_bytes(); }
pub broadcast group group_bytes { b_le16, b_le32, b_le64, b_un16, b_un32, b_un64 }
}
pub use vx_bytes::*;
/// arrays as slices
pub assume_specification<T, const N: usize> [<[T; N]>::as_mut_slice] (a: &mut [T; N]) -> (r: &mut [T])
    ensures r@ == old(a)@, final(a)@ == final(r)@,
;
