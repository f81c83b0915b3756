// ---- buckets: next position (8), count (4), elements of key (32) and position (8), crc (4)
pub type Ent = (Seq<u8>, u64);
pub open spec fn bs() -> int { 1296 }
pub open spec fn cnt(b: Seq<u8>) -> int { un32(b.subrange(8, 12)) as int }
pub open spec fn nxt(b: Seq<u8>) -> int { un64(b.subrange(0, 8)) as int }
pub open spec fn elem(b: Seq<u8>, i: int) -> Ent { (b.subrange(12 + 40 * i, 44 + 40 * i), un64(b.subrange(44 + 40 * i, 52 + 40 * i))) }
pub open spec fn elems(b: Seq<u8>) -> Seq<Ent> { Seq::new(cnt(b) as nat, |i: int| elem(b, i)) }
pub open spec fn odx_rec(odx: Seq<u8>, p: int) -> Seq<u8> { odx.subrange(p, p + bs()) }
/// an undamaged overflow record, linked strictly backwards
pub open spec fn rec_ok(odx: Seq<u8>, p: int) -> bool {
    0 <= p && p + bs() <= odx.len() && stamped(odx_rec(odx, p)) && (nxt(odx_rec(odx, p)) == 0 || nxt(odx_rec(odx, p)) < p)
}
/// what the overflow chain at p holds (newest first), and whether all of it could be read
pub open spec fn chained(odx: Seq<u8>, p: int) -> (Seq<Ent>, bool) decreases p {
    if p <= 0 { (Seq::empty(), true) }
    else if !rec_ok(odx, p) { (Seq::empty(), false) }
    else {
        let b = odx_rec(odx, p);
        let t = chained(odx, nxt(b));
        (elems(b) + t.0, t.1 && cnt(b) <= 32)
    }
}
/// every undamaged record of the chain has a count that fits (checksums exclude the rest)
pub open spec fn sane(odx: Seq<u8>, p: int) -> bool decreases p {
    p <= 0 || !rec_ok(odx, p) || (cnt(odx_rec(odx, p)) <= 32 && sane(odx, nxt(odx_rec(odx, p))))
}
pub open spec fn chain(odx: Seq<u8>, b: Seq<u8>) -> (Seq<Ent>, bool) {
    (elems(b) + chained(odx, nxt(b)).0, chained(odx, nxt(b)).1 && cnt(b) <= 32)
}
/// the first position listed for a key
pub open spec fn find(s: Seq<Ent>, k: Seq<u8>) -> Option<u64> decreases s.len() {
    if s.len() == 0 { None } else if s[0].0 == k { Some(s[0].1) } else { find(s.skip(1), k) }
}
pub proof fn lemma_ok_sane(odx: Seq<u8>, p: int)
    requires chained(odx, p).1,
    ensures sane(odx, p),
    decreases p,
{
    if p > 0 { lemma_ok_sane(odx, nxt(odx_rec(odx, p))); }
}
/// a log that only grows keeps its chains
pub proof fn lemma_grow(a: Seq<u8>, b: Seq<u8>, p: int)
    requires a.is_prefix_of(b), chained(a, p).1,
    ensures chained(b, p) == chained(a, p), sane(b, p), p > 0 ==> p + bs() <= a.len(),
    decreases p,
{
    if p > 0 {
        assert(odx_rec(b, p) =~= odx_rec(a, p));
        lemma_grow(a, b, nxt(odx_rec(a, p)));
    }
}
pub proof fn lemma_find_cat(a: Seq<Ent>, b: Seq<Ent>, k: Seq<u8>)
    ensures find(a + b, k) == (if find(a, k) is Some { find(a, k) } else { find(b, k) }),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        assert((a + b)[0] == a[0]);
        if a[0].0 != k { assert((a + b).skip(1) =~= a.skip(1) + b); lemma_find_cat(a.skip(1), b, k); }
    }
}
pub proof fn lemma_find_one(e: Ent, k: Seq<u8>)
    ensures find(seq![e], k) == (if e.0 == k { Some(e.1) } else { None }),
{ reveal_with_fuel(find, 2); assert(seq![e].skip(1).len() == 0); }
pub proof fn lemma_find_push(a: Seq<Ent>, e: Ent, k: Seq<u8>)
    ensures find(a.push(e), k) == (if find(a, k) is Some { find(a, k) } else if e.0 == k { Some(e.1) } else { None }),
{ assert(a.push(e) =~= a + seq![e]); lemma_find_cat(a, seq![e], k); lemma_find_one(e, k); }
pub proof fn lemma_find_none(a: Seq<Ent>, k: Seq<u8>)
    ensures find(a, k) is None <==> forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 != k,
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_find_none(a.skip(1), k);
        if find(a, k) is None {
            assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0 != k by { if i > 0 { assert(a[i] == a.skip(1)[i - 1]); } }
        } else if a[0].0 != k {
            let j = choose|j: int| 0 <= j < a.skip(1).len() && (#[trigger] a.skip(1)[j]).0 == k;
            assert(a[j + 1].0 == k);
        }
    }
}
/// replacing the position of a key's first entry
pub proof fn lemma_find_update(a: Seq<Ent>, e: int, key: Seq<u8>, pos: u64, k: Seq<u8>)
    requires 0 <= e < a.len(), a[e].0 == key, forall|j: int| 0 <= j < e ==> (#[trigger] a[j]).0 != key,
    ensures find(a.update(e, (key, pos)), k) == (if k == key { Some(pos) } else { find(a, k) }),
    decreases e,
{
    let u = a.update(e, (key, pos));
    if e == 0 { assert(u.skip(1) =~= a.skip(1)); } else {
        assert(u[0] == a[0]);
        assert(u.skip(1) =~= a.skip(1).update(e - 1, (key, pos)));
        assert forall|j: int| 0 <= j < e - 1 implies (#[trigger] a.skip(1)[j]).0 != key by { assert(a.skip(1)[j] == a[j + 1]); }
        lemma_find_update(a.skip(1), e - 1, key, pos, k);
    }
}
/// two buckets that agree up to the checksum hold the same
pub open spec fn same_body(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == bs() && b.len() == bs() && a.take(1292) =~= b.take(1292) }
pub proof fn lemma_same_body(a: Seq<u8>, b: Seq<u8>, odx: Seq<u8>)
    requires same_body(a, b),
    ensures cnt(a) == cnt(b), nxt(a) == nxt(b), cnt(a) <= 32 ==> elems(a) == elems(b) && chain(odx, a) == chain(odx, b),
{
    assert(a.subrange(8, 12) =~= a.take(1292).subrange(8, 12)); assert(b.subrange(8, 12) =~= b.take(1292).subrange(8, 12));
    assert(a.subrange(0, 8) =~= a.take(1292).subrange(0, 8)); assert(b.subrange(0, 8) =~= b.take(1292).subrange(0, 8));
    if cnt(a) <= 32 {
        assert forall|i: int| 0 <= i < cnt(a) implies elem(a, i) == elem(b, i) by {
            assert(a.subrange(12 + 40 * i, 44 + 40 * i) =~= a.take(1292).subrange(12 + 40 * i, 44 + 40 * i)); assert(b.subrange(12 + 40 * i, 44 + 40 * i) =~= b.take(1292).subrange(12 + 40 * i, 44 + 40 * i));
            assert(a.subrange(44 + 40 * i, 52 + 40 * i) =~= a.take(1292).subrange(44 + 40 * i, 52 + 40 * i)); assert(b.subrange(44 + 40 * i, 52 + 40 * i) =~= b.take(1292).subrange(44 + 40 * i, 52 + 40 * i));
        }
        assert(elems(a) =~= elems(b));
    }
}
//@item file=crates/storage/src/archive/digest_index/bucket_iter.rs path="struct BucketIter"
//@end
impl<'bucket> BucketIter<'bucket> {
    pub open spec fn cur(self) -> Seq<u8> { match self.buffer { Some(b) => b@, None => self.overflow_buffer@ } }
    pub open spec fn wf(self, odx: Seq<u8>) -> bool {
        self.crc_failure || ((self.elements > 0 ==> self.cur().len() == bs()) && (self.elements > 0 ==> self.bucket_pos <= self.elements) && self.elements <= 32 && sane(odx, self.overflow_pos as int))
    }
    /// the elements still to come
    pub open spec fn rest(self, odx: Seq<u8>) -> Seq<Ent> {
        if self.crc_failure { Seq::empty() }
        else if self.elements == 0 { chained(odx, self.overflow_pos as int).0 }
        else { Seq::new((self.elements - self.bucket_pos) as nat, |i: int| elem(self.cur(), self.bucket_pos + i)) + chained(odx, self.overflow_pos as int).0 }
    }
    /// all of them can be read
    pub open spec fn whole(self, odx: Seq<u8>) -> bool { !self.crc_failure && chained(odx, self.overflow_pos as int).1 }
//@fn file=crates/storage/src/archive/digest_index/bucket_iter.rs path="impl BucketIter :: fn buffer" ret=r
//@spec
    ensures r@ == self.cur(),
//@end
//@fn file=crates/storage/src/archive/digest_index/bucket_iter.rs path="impl BucketIter :: fn new" ret=r
//@spec
    requires buffer@.len() == bs(),
    ensures !r.crc_failure, r.buffer == Some(buffer), r.bucket_pos == 0, r.overflow_pos == nxt(buffer@), r.elements == cnt(buffer@),
//@end
//@fn file=crates/storage/src/archive/digest_index/bucket_iter.rs path="impl BucketIter :: fn new_empty" ret=r
//@spec
    ensures r.crc_failure,
//@end
//@fn file=crates/storage/src/archive/digest_index/bucket_iter.rs path="impl BucketIter :: fn crc_failure" ret=r
//@spec
    ensures r == self.crc_failure,
//@end
//@fn file=crates/storage/src/archive/digest_index/bucket_iter.rs path="impl BucketIter :: fn get_element" ret=r
//@sub? /<const KSIZE: usize, S: BuildHasher \+ Default>/ =>
//@sub? /HdxIndex::<KSIZE, S>::/ =>
//@spec
    requires self.cur().len() == bs(), bucket_pos < 32,
    ensures r.0@ =~= elem(self.cur(), bucket_pos as int).0, r.1 == elem(self.cur(), bucket_pos as int).1,
//@end
//@fn file=crates/storage/src/archive/digest_index/bucket_iter.rs path="impl BucketIter :: fn reset_next_overflow" ret=r
//@sub? /<const KSIZE: usize, S: BuildHasher \+ Default>/ =>
//@sub? /HdxIndex::<KSIZE, S>::/ =>
//@sub? /&mut (self\.\w+)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@sub? /check_crc\(&self\.overflow_buffer\)/ => check_crc(self.overflow_buffer.as_slice())
//@spec
    requires !old(self).crc_failure, old(self).overflow_pos > 0, old(self).wf(old(odx_file).bytes()), old(self).elements == 0 || old(self).bucket_pos == old(self).elements,
    ensures
        final(odx_file).bytes() == old(odx_file).bytes(), final(odx_file).same_os(*old(odx_file)), final(self).wf(old(odx_file).bytes()),
        r is Some ==> !final(self).crc_failure && final(self).overflow_pos < old(self).overflow_pos && final(self).rest(old(odx_file).bytes()) =~= old(self).rest(old(odx_file).bytes())
            && final(self).whole(old(odx_file).bytes()) == old(self).whole(old(odx_file).bytes()),
        // not the end of the chain: damage (or a failing disk)
        r is None ==> final(self).crc_failure && (old(odx_file).healthy() ==> !rec_ok(old(odx_file).bytes(), old(self).overflow_pos as int)),
//@head
    let ghost vx_o = odx_file.bytes();
//@end
}
