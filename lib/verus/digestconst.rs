// the key width is 32 bytes wherever an index is made (B256 keys); generic parameters KSIZE and S are instantiated
pub const KSIZE: usize = 32;
//@item file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: const BUCKET_ELEMENT_SIZE"
//@sub? /Self::/ =>
//@end
//@item file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: const INITIAL_BUCKETS"
//@end
//@item file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: const BUCKET_ELEMENTS"
//@end
//@item file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: const BUCKET_SIZE"
//@sub? /Self::/ =>
//@end
//@item file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: const CACHED_BUCKETS"
//@end
#[verifier::external_body]
pub fn vx_half() -> (r: u16) { (u16::MAX as f32 * 0.5) as u16 }
pub fn vx_tag_eq(t: &[u8; 8]) -> (r: bool)
    ensures r == (t@ =~= ptag())
{
    let p = [116u8, 101u8, 108u8, 99u8, 111u8, 105u8, 110u8, 120u8];
    proof { assert(p@ =~= ptag()); }
    let mut i = 0;
    while i < 8
        invariant 0 <= i <= 8, p@ =~= ptag(), forall|j: int| 0 <= j < i ==> t@[j] == p@[j],
        decreases 8 - i,
    { if t[i] != p[i] { proof { assert(t@[i as int] != ptag()[i as int]); } return false; } i += 1; }
    true
}
