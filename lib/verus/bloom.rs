// the filter's size depends on the build (64 KiB with test-utils, 2 MiB otherwise): proved for any size
pub uninterp spec fn bsz() -> int;
pub uninterp spec fn item_bytes() -> int;
//@item file=crates/storage/src/archive/digest_index/bloom.rs path="const BLOOM_BITS_PER_ITEM"
//@end
//@item file=crates/storage/src/archive/digest_index/bloom.rs path="const BLOOM_SIZE_BYTES"
//@sub /(?:pub )?const (BLOOM_SIZE_BYTES: usize) = ([^;]*);/ => #[verifier::external_body] exec const \1 ensures BLOOM_SIZE_BYTES == bsz(), 0 < bsz() <= 0x100_0000 { \2 }
//@end
//@item file=crates/storage/src/archive/digest_index/bloom.rs path="const BLOOM_SIZE_BITS"
//@sub /(?:pub )?const (BLOOM_SIZE_BITS: usize) = ([^;]*);/ => exec const \1 ensures BLOOM_SIZE_BITS == bsz() * 8, 0 < bsz() <= 0x100_0000 { \2 }
//@end
//@item file=crates/storage/src/archive/digest_index/bloom.rs path="const MASK"
//@sub /(?:pub )?const (MASK: usize) = ([^;]*);/ => exec const \1 ensures MASK == bsz() * 8 - 1, 0 < bsz() <= 0x100_0000 { \2 }
//@end
// the source's compile-time assertion `BLOOM_BITS_PER_ITEM * ITEM_BYTES <= 32` is what the bound restates
//@item file=crates/storage/src/archive/digest_index/bloom.rs path="const ITEM_BYTES"
//@sub /(?:pub )?const (ITEM_BYTES: usize) = ([^;]*);/ => #[verifier::external_body] exec const \1 ensures ITEM_BYTES == item_bytes(), 0 <= item_bytes() * 8 <= 32 { \2 }
//@end
//@item file=crates/storage/src/archive/digest_index/bloom.rs path="struct Bloom"
//@end
/// n bytes of the hash from p on, big-endian, in a machine word
pub open spec fn word(h: Seq<u8>, p: int, n: nat) -> usize decreases n {
    if n == 0 { 0usize } else { (word(h, p, (n - 1) as nat) << 8usize) | (h[p + n - 1] as usize) }
}
/// the j-th bit a hash uses
pub open spec fn slot(h: Seq<u8>, j: int) -> usize { word(h, item_bytes() * j, item_bytes() as nat) & ((bsz() * 8 - 1) as usize) }
pub open spec fn isset(b: Seq<u8>, i: int) -> bool { b[bsz() - 1 - i / 8] & (1u8 << ((i % 8) as usize)) != 0 }
pub proof fn lemma_masked(a: usize, m: usize) ensures a & m <= m { assert(a & m <= m) by (bit_vector); }
pub proof fn lemma_bit(b: u8, s: usize, t: usize)
    requires s < 8, t < 8,
    ensures (b | (1u8 << s)) & (1u8 << t) != 0 <==> (b & (1u8 << t) != 0 || s == t),
{
    assert(s < 8 && t < 8 ==> ((b | (1u8 << s)) & (1u8 << t) != 0 <==> (b & (1u8 << t) != 0 || s == t))) by (bit_vector);
}
impl Bloom {
    pub open spec fn wf(self) -> bool { self.bits@.len() == bsz() && bsz() > 0 }
    /// what `contains` answers
    pub open spec fn hask(self, k: Seq<u8>) -> bool { forall|j: int| 0 <= j < BLOOM_BITS_PER_ITEM ==> isset(self.bits@, #[trigger] slot(k, j) as int) }
    pub open spec fn has(self, h: B256) -> bool { self.hask(h.0@) }
//@fn file=crates/storage/src/archive/digest_index/bloom.rs path="impl Bloom :: fn new" ret=r
//@sub? /vec!\[0_u8; BLOOM_SIZE_BYTES\]/ => vx_zeroed(BLOOM_SIZE_BYTES)
//@spec
    ensures r.wf(), r.bits@ =~= Seq::new(bsz() as nat, |i: int| 0u8),
//@end
//@fn file=crates/storage/src/archive/digest_index/bloom.rs path="impl Bloom :: fn data" ret=r
//@sub? /pub const fn/ => pub fn
//@spec
    ensures r@ == self.bits@,
//@end
//@fn file=crates/storage/src/archive/digest_index/bloom.rs path="impl Bloom :: fn contains" ret=r
//@sub? /\bhash\[/ => hash.0[
//@spec
    requires self.wf(),
    ensures r == self.has(hash),
//@head
    let vx_w = ITEM_BYTES; let vx_m = MASK;
//@loop 0 iter=it
    invariant self.wf(), ptr == item_bytes() * it.index(), it.seq().len() == BLOOM_BITS_PER_ITEM, 0 <= item_bytes() * 8 <= 32, BLOOM_BITS_PER_ITEM == 8,
        forall|j: int| 0 <= j < it.index() ==> isset(self.bits@, #[trigger] slot(hash.0@, j) as int),
//@loop 1 iter=it2
    invariant self.wf(), it2.seq().len() == item_bytes(), 0 <= item_bytes() * 8 <= 32, 0 <= vx_j < 8, ptr == item_bytes() * vx_j + it2.index(),
        index == word(hash.0@, item_bytes() * vx_j, it2.index() as nat), item_bytes() * vx_j + item_bytes() <= 32,
//@loophead 0
    let ghost vx_j = it.index();
    proof { assert(item_bytes() * vx_j + item_bytes() <= 32) by (nonlinear_arith) requires 0 <= vx_j < 8, 0 <= item_bytes() * 8 <= 32; assert(item_bytes() * (vx_j + 1) == item_bytes() * vx_j + item_bytes()) by (nonlinear_arith); }
//@before /if \(self\.bits/
    proof { lemma_masked(word(hash.0@, item_bytes() * vx_j, item_bytes() as nat), (bsz() * 8 - 1) as usize); assert(index == slot(hash.0@, vx_j)); }
//@end
//@fn file=crates/storage/src/archive/digest_index/bloom.rs path="impl Bloom :: fn accrue"
//@sub? /\bhash\[/ => hash.0[
//@sub? /self\.bits\[([^\]]*)\] \|= ([^;]*);/ => let vx_i = \1; let vx_v = self.bits[vx_i] | (\2); self.bits.set(vx_i, vx_v);
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).has(hash),
        // no bit is ever cleared
        forall|i: int| 0 <= i < bsz() * 8 && isset(old(self).bits@, i) ==> #[trigger] isset(final(self).bits@, i),
        forall|k: Seq<u8>| old(self).hask(k) ==> #[trigger] final(self).hask(k),
//@head
    let vx_w = ITEM_BYTES; let vx_m = MASK;
//@loop 0 iter=it
    invariant self.wf(), ptr == item_bytes() * it.index(), it.seq().len() == BLOOM_BITS_PER_ITEM, 0 <= item_bytes() * 8 <= 32, BLOOM_BITS_PER_ITEM == 8,
        forall|j: int| 0 <= j < it.index() ==> isset(self.bits@, #[trigger] slot(hash.0@, j) as int),
        forall|i: int| 0 <= i < bsz() * 8 && isset(old(self).bits@, i) ==> #[trigger] isset(self.bits@, i),
//@loop 1 iter=it2
    invariant self.wf(), it2.seq().len() == item_bytes(), 0 <= item_bytes() * 8 <= 32, 0 <= vx_j < 8, ptr == item_bytes() * vx_j + it2.index(),
        index == word(hash.0@, item_bytes() * vx_j, it2.index() as nat), item_bytes() * vx_j + item_bytes() <= 32,
//@loophead 0
    let ghost vx_j = it.index(); let ghost vx_b = self.bits@;
    proof { assert(item_bytes() * vx_j + item_bytes() <= 32) by (nonlinear_arith) requires 0 <= vx_j < 8, 0 <= item_bytes() * 8 <= 32; assert(item_bytes() * (vx_j + 1) == item_bytes() * vx_j + item_bytes()) by (nonlinear_arith); }
//@before /let vx_i =/
    proof { lemma_masked(word(hash.0@, item_bytes() * vx_j, item_bytes() as nat), (bsz() * 8 - 1) as usize); assert(index == slot(hash.0@, vx_j)); }
//@loopend 0
    proof {
        let m = (bsz() * 8 - 1) as usize;
        assert forall|i: int| 0 <= i < bsz() * 8 implies #[trigger] isset(self.bits@, i) == (isset(vx_b, i) || i == index) by {
            if i / 8 == index / 8 { lemma_bit(vx_b[bsz() - 1 - i / 8], (index % 8) as usize, (i % 8) as usize); }
        }
        assert forall|j: int| 0 <= j < vx_j + 1 implies isset(self.bits@, #[trigger] slot(hash.0@, j) as int) by {
            lemma_masked(word(hash.0@, item_bytes() * j, item_bytes() as nat), m);
        }
    }
//@afterloop 0
    proof {
        assert forall|k: Seq<u8>| old(self).hask(k) implies #[trigger] self.hask(k) by {
            assert forall|j: int| 0 <= j < BLOOM_BITS_PER_ITEM implies isset(self.bits@, #[trigger] slot(k, j) as int) by {
                lemma_masked(word(k, item_bytes() * j, item_bytes() as nat), (bsz() * 8 - 1) as usize);
                assert(isset(old(self).bits@, slot(k, j) as int));
            }
        }
    }
//@end
    // `impl TryFrom<Vec<u8>> for Bloom`
//@fn file=crates/storage/src/archive/digest_index/bloom.rs path="impl TryFrom for Bloom :: fn try_from" ret=r rename=vx_try_from
//@sub? /Self::Error/ => BloomError
//@spec
    ensures r is Ok <==> value@.len() == bsz(), r matches Ok(b) ==> b.bits@ == value@,
//@end
}
