//@known VxHashed
/// `==` on byte slices
#[verifier::external_body]
pub fn vx_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub fn vx_some_slice(o: &Option<Vec<u8>>) -> (r: &[u8]) requires *o is Some ensures r@ == (*o)->Some_0@ { match o { Some(v) => v.as_slice(), None => { assert(false); vx_none() } } }
#[verifier::external_body]
pub fn vx_none() -> (r: &'static [u8]) requires false { unimplemented!() }
/// slice::fill
#[verifier::external_body]
pub fn vx_fill(b: &mut [u8], v: u8) ensures final(b)@ =~= Seq::new(old(b)@.len(), |i: int| v) { b.fill(v) }
/// the hasher: one value per byte string (stable), for the two kinds of input hashed here
pub trait VxHashed { spec fn hbytes(&self) -> Seq<u8>; }
impl VxHashed for u64 { open spec fn hbytes(&self) -> Seq<u8> { seq![0u8] + le64(*self) } }
impl VxHashed for &[u8] { open spec fn hbytes(&self) -> Seq<u8> { seq![1u8] + self@ } }
pub trait BuildHasher: Sized {
    spec fn hv(&self, x: Seq<u8>) -> u64;
    fn hash_one<T: VxHashed>(&self, x: T) -> (r: u64) ensures r == self.hv(x.hbytes());
}
/// u32::next_power_of_two
pub open spec fn np2(x: int) -> int decreases x { if x <= 1 { 1 } else { 2 * np2((x + 1) / 2) } }
#[verifier::external_body]
pub fn vx_np2(x: u32) -> (r: u32) requires np2(x as int) <= u32::MAX ensures r == np2(x as int) { x.next_power_of_two() }
pub proof fn lemma_np2(x: int)
    requires x >= 1,
    ensures x <= np2(x) < 2 * x, np2(x) == 1 || np2(x) % 2 == 0, x < np2(x) ==> np2(x + 1) == np2(x), x == np2(x) ==> np2(x + 1) == 2 * x,
    decreases x,
{
    reveal_with_fuel(np2, 1);
    if x > 1 {
        let y = (x + 1) / 2; let n = np2(y);
        lemma_np2(y);
        assert(np2(x) == 2 * n);
        assert(np2(x + 1) == 2 * np2((x + 2) / 2));
        if x % 2 == 0 { assert(x == 2 * y && (x + 2) / 2 == y + 1); } else { assert(x == 2 * y - 1 && (x + 2) / 2 == y); }
    } else { assert(np2(2) == 2 * np2(1)); }
}
/// the bucket of a hash when there are b buckets and m is the power of two above b
pub open spec fn route(h: u64, b: int, m: int) -> int { let x = (h as int) % m; if x >= b { x - m / 2 } else { x } }
/// adding bucket b moves keys only from bucket b - m / 2, and only to b
pub proof fn lemma_split(h: u64, b: int, m: int, m2: int)
    requires 1 <= b, m == np2(b + 1), m2 == np2(b + 2),
    ensures
        0 <= route(h, b, m) < b, 0 <= b - m / 2 < b,
        route(h, b, m) != b - m / 2 ==> route(h, b + 1, m2) == route(h, b, m),
        route(h, b, m) == b - m / 2 ==> route(h, b + 1, m2) == b - m / 2 || route(h, b + 1, m2) == b,
        route(h, b + 1, m2) == b - m / 2 || route(h, b + 1, m2) == b ==> route(h, b, m) == b - m / 2,
{
    lemma_np2(b + 1);
    let x = (h as int) % m;
    if b + 1 == m {
        assert(m2 == 2 * m);
        let x2 = (h as int) % m2;
        let q = (h as int) / m2;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(h as int, m2);
        assert(m2 * q == 2 * q * m) by (nonlinear_arith) requires m2 == 2 * m;
        if x2 >= m {
            assert((2 * q + 1) * m == 2 * q * m + m) by (nonlinear_arith);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(h as int, m, 2 * q + 1, x2 - m);
        } else {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(h as int, m, 2 * q, x2);
        }
    }
}
pub proof fn lemma_route(h: u64, b: int, m: int)
    requires 1 <= b, m == np2(b + 1),
    ensures 0 <= route(h, b, m) < b, m >= 2,
{ lemma_np2(b + 1); }
//@item file=crates/storage/src/archive/digest_index/index.rs path="struct HdxIndex"
//@sub? /<\s*const KSIZE: usize = 32,\s*S: BuildHasher \+ Default = BuildHasherDefault<FxHasher>,?\s*>/ => <S: BuildHasher>
//@sub? /hdx_file: File\b/ => hdx_file: PFile
//@end
pub open spec fn disk_bucket(f: Seq<u8>, i: int) -> Option<Seq<u8>> {
    let p = 68 + bsz() + bs() * i;
    if p + bs() <= f.len() && stamped(f.subrange(p, p + bs())) { Some(f.subrange(p, p + bs())) } else { None }
}
/// a write inside bucket x's range (or inside the header and filter) leaves every other readable bucket
pub proof fn lemma_disk_other(f: Seq<u8>, g: Seq<u8>, lo: int, n: int, i: int)
    requires outside(f, g, lo, n), 0 <= i, disk_bucket(f, i) is Some, bsz() >= 0, lo + n <= 68 + bsz() + bs() * i || lo >= 68 + bsz() + bs() * i + bs(),
    ensures disk_bucket(g, i) == disk_bucket(f, i),
{
    let p = 68 + bsz() + bs() * i;
    assert(g.subrange(p, p + bs()) =~= f.subrange(p, p + bs()));
}
/// a bucket whose only element is (k, p)
pub proof fn lemma_single(b: Seq<u8>, k: Seq<u8>, p: u64)
    requires b.len() == bs(), k.len() == 32, b.subrange(8, 12) =~= le32(1), b.subrange(12, 44) =~= k, b.subrange(44, 52) =~= le64(p),
    ensures cnt(b) == 1, elems(b) =~= seq![(k, p)],
{ }
/// element e's position rewritten
pub proof fn lemma_overwrite(a: Seq<u8>, b: Seq<u8>, e: int, k: Seq<u8>, p: u64)
    requires a.len() == bs(), b.len() == bs(), 0 <= e < cnt(a) <= 32, elem(a, e).0 == k, b.subrange(44 + 40 * e, 52 + 40 * e) =~= le64(p),
        forall|j: int| 0 <= j < bs() && !(44 + 40 * e <= j < 52 + 40 * e) ==> b[j] == a[j],
    ensures cnt(b) == cnt(a), nxt(b) == nxt(a), elems(b) =~= elems(a).update(e, (k, p)),
{
    assert(a.subrange(8, 12) =~= b.subrange(8, 12)); assert(a.subrange(0, 8) =~= b.subrange(0, 8));
    assert forall|i: int| 0 <= i < cnt(a) implies elem(b, i) == (if i == e { (k, p) } else { elem(a, i) }) by {
        assert(b.subrange(12 + 40 * i, 44 + 40 * i) =~= a.subrange(12 + 40 * i, 44 + 40 * i));
        if i != e { assert(b.subrange(44 + 40 * i, 52 + 40 * i) =~= a.subrange(44 + 40 * i, 52 + 40 * i)); }
    }
}
/// one element added behind the others
pub proof fn lemma_appended(a: Seq<u8>, b: Seq<u8>, k: Seq<u8>, p: u64)
    requires a.len() == bs(), b.len() == bs(), k.len() == 32, cnt(a) < 32, b.subrange(8, 12) =~= le32((cnt(a) + 1) as u32),
        b.subrange(12 + 40 * cnt(a), 44 + 40 * cnt(a)) =~= k, b.subrange(44 + 40 * cnt(a), 52 + 40 * cnt(a)) =~= le64(p),
        forall|j: int| 0 <= j < bs() && !(8 <= j < 12) && !(12 + 40 * cnt(a) <= j < 52 + 40 * cnt(a)) ==> b[j] == a[j],
    ensures cnt(b) == cnt(a) + 1, nxt(b) == nxt(a), elems(b) =~= elems(a).push((k, p)),
{
    assert(a.subrange(0, 8) =~= b.subrange(0, 8));
    assert forall|i: int| 0 <= i < cnt(b) implies elem(b, i) == (if i == cnt(a) { (k, p) } else { elem(a, i) }) by {
        if i < cnt(a) {
            assert(b.subrange(12 + 40 * i, 44 + 40 * i) =~= a.subrange(12 + 40 * i, 44 + 40 * i));
            assert(b.subrange(44 + 40 * i, 52 + 40 * i) =~= a.subrange(44 + 40 * i, 52 + 40 * i));
        }
    }
}
pub open spec fn pending(d: Seq<(u64, Vec<u8>)>, i: int) -> bool { exists|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == i }
impl<S: BuildHasher> HdxIndex<S> {
    pub open spec fn hb(self) -> Seq<u8> { self.hdx_file.bytes() }
    pub open spec fn odx(self) -> Seq<u8> { self.odx_file.bytes() }
    pub open spec fn healthy(self) -> bool { self.hdx_file.healthy() && self.odx_file.healthy() }
    pub open spec fn nb(self) -> int { self.header.buckets as int }
    pub open spec fn route(self, k: Seq<u8>) -> int { route(self.hasher_builder.hv(seq![1u8] + k), self.nb(), self.modulus as int) }
    /// the current content of bucket i: changed in memory, cached, or on disk
    pub open spec fn cur(self, i: int) -> Option<Seq<u8>> {
        if 0 <= i <= u64::MAX && self.dirty_bucket_cache@.contains_key(i as u64) { Some(self.dirty_bucket_cache@[i as u64]@) }
        else if 0 <= i <= u64::MAX && self.bucket_cache@.contains_key(i as u64) { Some(self.bucket_cache@[i as u64]@) }
        else { disk_bucket(self.hb(), i) }
    }
    /// THE MAP the index stands for
    pub open spec fn lookup(self, k: Seq<u8>) -> Option<u64> {
        match self.cur(self.route(k)) { Some(b) => find(chain(self.odx(), b).0, k), None => None }
    }
    pub open spec fn caches_ok(self) -> bool {
        &&& forall|i: u64| #[trigger] self.dirty_bucket_cache@.contains_key(i) ==> i < self.nb() && self.dirty_bucket_cache@[i]@.len() == bs()
        &&& forall|i: u64| #[trigger] self.bucket_cache@.contains_key(i) ==> i < self.nb() && !self.dirty_bucket_cache@.contains_key(i) && disk_bucket(self.hb(), i as int) == Some(self.bucket_cache@[i]@)
    }
    pub open spec fn geom(self) -> bool {
        &&& self.header.type_id@ =~= ptag() && self.header.bucket_elements == 32 && self.header.bucket_size == bs()
        &&& 1 <= self.nb() < 0x4000_0000 && self.modulus == np2(self.nb() + 1)
        &&& self.bloom.wf() && bsz() <= 0x100_0000
    }
    /// bucket content that is complete, holds only keys of this bucket, all of them in the filter
    pub open spec fn good(self, i: int, b: Seq<u8>) -> bool {
        b.len() == bs() && chain(self.odx(), b).1 && forall|k: Seq<u8>| (#[trigger] find(chain(self.odx(), b).0, k)) is Some ==> self.route(k) == i && self.bloom.hask(k)
    }
    /// undamaged
    pub open spec fn wf(self) -> bool {
        self.geom() && self.caches_ok() && self.odx().len() >= 28 && forall|i: int| 0 <= i < self.nb() ==> ((#[trigger] self.cur(i)) matches Some(b) && self.good(i, b))
    }
    /// possibly damaged, but nothing with a valid checksum is malformed
    pub open spec fn readable(self) -> bool {
        self.geom() && self.caches_ok() && forall|i: int| 0 <= i < self.nb() ==> ((#[trigger] self.cur(i)) matches Some(b) ==> b.len() == bs() && cnt(b) <= 32 && sane(self.odx(), nxt(b))
            && forall|k: Seq<u8>| (#[trigger] find(chain(self.odx(), b).0, k)) is Some ==> self.bloom.hask(k))
    }
    /// everything but file positions and which clean buckets are cached
    pub open spec fn same_view(self, o: Self) -> bool {
        &&& self.same_rest(o)
        &&& self.hb() == o.hb() && self.odx() == o.odx() && self.bloom == o.bloom && self.header == o.header && self.modulus == o.modulus && self.synced == o.synced
        &&& self.dirty_bucket_cache@.dom() =~= o.dirty_bucket_cache@.dom()
        &&& forall|i: int| #[trigger] self.cur(i) == o.cur(i)
    }
    pub open spec fn same_rest(self, o: Self) -> bool {
        self.hasher_builder == o.hasher_builder && self.read_only == o.read_only && self.hdx_file.same_os(o.hdx_file) && self.odx_file.same_os(o.odx_file)
    }
//@fn file=crates/storage/src/archive/digest_index/bucket_iter.rs path="impl HdxIndex :: fn next_bucket_element" ret=r
//@sub? /::<KSIZE, S>/ =>
//@spec
    requires old(iter).wf(old(self).odx()),
    ensures
        final(self).odx() == old(self).odx(), final(self).odx_file.same_os(old(self).odx_file),
        *final(self) == (HdxIndex { odx_file: final(self).odx_file, ..*old(self) }),
        final(iter).wf(old(self).odx()),
        r matches Some(e) ==> e.0@.len() == 32 && old(iter).rest(old(self).odx()).len() > 0 && e.0@ =~= old(iter).rest(old(self).odx())[0].0 && e.1 == old(iter).rest(old(self).odx())[0].1
            && final(iter).rest(old(self).odx()) =~= old(iter).rest(old(self).odx()).skip(1) && final(iter).whole(old(self).odx()) == old(iter).whole(old(self).odx()) && !old(iter).crc_failure,
        r is None && !final(iter).crc_failure ==> old(iter).rest(old(self).odx()).len() == 0 && old(iter).whole(old(self).odx()),
        r is None && final(iter).crc_failure && old(self).odx_file.healthy() ==> !old(iter).whole(old(self).odx()) && old(iter).rest(old(self).odx()).len() == 0,
//@loop 0
    invariant
        iter.wf(old(self).odx()), self.odx() == old(self).odx(), self.odx_file.same_os(old(self).odx_file),
        *self == (HdxIndex { odx_file: self.odx_file, ..*old(self) }),
        iter.rest(old(self).odx()) =~= old(iter).rest(old(self).odx()), iter.whole(old(self).odx()) == old(iter).whole(old(self).odx()), !iter.crc_failure, !old(iter).crc_failure,
    decreases iter.overflow_pos, iter.elements - iter.bucket_pos,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn len" ret=r
//@spec
    ensures r == self.header.values,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn is_empty" ret=r
//@spec
    ensures r == (self.header.values == 0),
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn set_data_file_length"
//@spec
    ensures final(self).header == (HdxHeader { data_file_length: data_file_length, ..old(self).header }), !old(self).synced ==> !final(self).synced,
        final(self).header.data_file_length != old(self).header.data_file_length ==> !final(self).synced,
        *final(self) == (HdxIndex { header: final(self).header, synced: final(self).synced, ..*old(self) }),
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn data_file_length" ret=r
//@spec
    ensures r == self.header.data_file_length,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn buckets" ret=r
//@spec
    ensures r == self.header.buckets,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn inc_buckets"
//@spec
    requires old(self).header.buckets < 0x4000_0000,
    ensures *final(self) == (HdxIndex { header: HdxHeader { buckets: (old(self).header.buckets + 1) as u32, ..old(self).header }, ..*old(self) }),
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn inc_values"
//@spec
    requires old(self).header.values < u64::MAX,
    ensures *final(self) == (HdxIndex { header: HdxHeader { values: (old(self).header.values + 1) as u64, ..old(self).header }, ..*old(self) }),
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn hash_to_bucket" ret=r
//@sub? /if key\.len\(\) != KSIZE \{ panic!\([^;]*?\) \}/ => assert(key@.len() == KSIZE);
//@spec
    requires key@.len() == 32, self.nb() >= 1, self.modulus == np2(self.nb() + 1),
    ensures r == self.route(key@), 0 <= r < self.nb(),
//@head
    proof { lemma_route(self.hasher_builder.hv(seq![1u8] + key@), self.nb(), self.modulus as int); }
//@end
    /// only which clean buckets are cached changed
    pub open spec fn only_cache(self, o: Self) -> bool {
        self == (HdxIndex { bucket_cache: self.bucket_cache, bucket_cache_fifo: self.bucket_cache_fifo, ..o })
    }
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn add_bucket_to_cache"
//@sub? /Self::CACHED_BUCKETS/ => CACHED_BUCKETS
//@spec
    ensures final(self).only_cache(*old(self)),
        final(self).bucket_cache@.contains_key(bucket) && final(self).bucket_cache@[bucket] == buffer,
        forall|i: u64| #[trigger] final(self).bucket_cache@.contains_key(i) && i != bucket ==> old(self).bucket_cache@.contains_key(i) && final(self).bucket_cache@[i] == old(self).bucket_cache@[i],
//@loop 0
    invariant self.only_cache(*old(self)),
        forall|i: u64| #[trigger] self.bucket_cache@.contains_key(i) ==> old(self).bucket_cache@.contains_key(i) && self.bucket_cache@[i] == old(self).bucket_cache@[i],
    decreases self.bucket_cache_fifo@.len(),
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn remove_bucket_cache" ret=r
//@spec
    requires old(self).caches_ok(),
    ensures
        *final(self) == (HdxIndex { bucket_cache: final(self).bucket_cache, dirty_bucket_cache: final(self).dirty_bucket_cache, ..*old(self) }),
        final(self).dirty_bucket_cache@ == old(self).dirty_bucket_cache@.remove(bucket),
        final(self).bucket_cache@ == old(self).bucket_cache@.remove(bucket),
        r matches Some(b) ==> old(self).cur(bucket as int) == Some(b@),
        r is None <==> !old(self).dirty_bucket_cache@.contains_key(bucket) && !old(self).bucket_cache@.contains_key(bucket),
//@tail vx_r
    proof {
        if old(self).dirty_bucket_cache@.contains_key(bucket) { assert(self.bucket_cache@ =~= old(self).bucket_cache@.remove(bucket)); }
        else { assert(self.dirty_bucket_cache@ =~= old(self).dirty_bucket_cache@.remove(bucket)); }
    }
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn remove_bucket" ret=r
//@desugar res.map_err
//@sub? /vec!\[0_u8; bucket_size\]/ => vx_zeroed(bucket_size)
//@sub? /&mut buffer\[\.\.\]/ => buffer.as_mut_slice()
//@sub? /&buffer\[\.\.\]/ => buffer.as_slice()
//@spec
    requires old(self).geom(), old(self).caches_ok(), bucket < 0x4000_0000,
    ensures
        *final(self) == (HdxIndex { bucket_cache: final(self).bucket_cache, dirty_bucket_cache: final(self).dirty_bucket_cache, hdx_file: final(self).hdx_file, ..*old(self) }),
        final(self).hb() == old(self).hb(), final(self).hdx_file.same_os(old(self).hdx_file), final(self).caches_ok(),
        final(self).dirty_bucket_cache@ == old(self).dirty_bucket_cache@.remove(bucket),
        final(self).bucket_cache@ == old(self).bucket_cache@.remove(bucket),
        // takes the current content out of the caches
        r matches Ok(b) ==> old(self).cur(bucket as int) == Some(b@) && (b@.len() == bs()),
        r is Err ==> disk_bucket(old(self).hb(), bucket as int) is None || !old(self).hdx_file.healthy(),
        r is Err ==> final(self).bucket_cache@ == old(self).bucket_cache@ && final(self).dirty_bucket_cache@ == old(self).dirty_bucket_cache@ && old(self).cur(bucket as int) == disk_bucket(old(self).hb(), bucket as int),
//@tail vx_r
    proof {
        if !old(self).dirty_bucket_cache@.contains_key(bucket) && !old(self).bucket_cache@.contains_key(bucket) {
            assert(self.bucket_cache@.remove(bucket) =~= self.bucket_cache@); assert(self.dirty_bucket_cache@.remove(bucket) =~= self.dirty_bucket_cache@);
        }
    }
//@end
    /// the same buckets, up to checksums of changed ones
    pub open spec fn same_buckets(self, o: Self) -> bool {
        forall|i: int| 0 <= i < o.nb() ==> #[trigger] self.kept_at(o, i)
    }
    pub open spec fn same_map(self, o: Self) -> bool { forall|k: Seq<u8>| #[trigger] self.lookup(k) == o.lookup(k) }
    /// everything is in the files
    pub open spec fn stored(self) -> bool {
        &&& self.dirty_bucket_cache@ == Map::<u64, Vec<u8>>::empty()
        &&& hdx_bytes(self.header).is_prefix_of(self.hb()) && self.hb().len() >= 68 + bsz() && self.hb().subrange(68, 68 + bsz()) =~= self.bloom.bits@
    }
    pub proof fn lemma_kept(a: Self, b: Self)
        requires a.wf(), b.caches_ok(), b.header == a.header, b.modulus == a.modulus, b.hasher_builder == a.hasher_builder, b.bloom == a.bloom, b.odx() == a.odx(), b.same_buckets(a),
        ensures b.wf(), b.same_map(a),
    {
        assert forall|i: int| 0 <= i < b.nb() implies ((#[trigger] b.cur(i)) matches Some(c) && b.good(i, c)) by {
            assert(a.cur(i) is Some); assert(b.kept_at(a, i));
            let c0 = a.cur(i)->Some_0; let c = b.cur(i)->Some_0;
            assert(a.good(i, c0));
            if c0 != c { lemma_same_body(c0, c, a.odx()); }
            assert forall|k: Seq<u8>| (#[trigger] find(chain(b.odx(), c).0, k)) is Some implies b.route(k) == i && b.bloom.hask(k) by { assert(find(chain(a.odx(), c0).0, k) is Some); assert(a.route(k) == i); }
        }
        assert forall|k: Seq<u8>| #[trigger] b.lookup(k) == a.lookup(k) by {
            let i = a.route(k);
            lemma_route(a.hasher_builder.hv(seq![1u8] + k), a.nb(), a.modulus as int);
            assert(b.kept_at(a, i)); assert(a.cur(i) is Some && b.cur(i) is Some);
            let c0 = a.cur(i)->Some_0; let c = b.cur(i)->Some_0;
            assert(a.good(i, c0));
            if c0 != c { lemma_same_body(c0, c, a.odx()); }
        }
    }
    pub open spec fn kept_at(self, o: Self, i: int) -> bool { self.cur(i) matches Some(b) && (o.cur(i) == Some(b) || same_body(o.cur(i)->Some_0, b)) }
    pub open spec fn kept_but(self, o: Self, d: Seq<(u64, Vec<u8>)>) -> bool { forall|i: int| 0 <= i < o.nb() && !pending(d, i) ==> #[trigger] self.kept_at(o, i) }
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn save_bucket_cache" ret=r
//@desugar res.and_then
//@sub? /&mut buffer\[\.\.\]/ => buffer.as_mut_slice()
//@sub? /&buffer\[\.\.\]/ => buffer.as_slice()
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_map(*old(self)), final(self).same_rest(*old(self)), final(self).header == old(self).header, final(self).bloom == old(self).bloom, final(self).synced == old(self).synced,
        final(self).odx_file == old(self).odx_file, final(self).modulus == old(self).modulus, final(self).capacity == old(self).capacity,
        // a flush that fails loses nothing: every bucket not written is still held as changed
        old(self).healthy() ==> r is Ok,
        r is Ok ==> final(self).dirty_bucket_cache@ == Map::<u64, Vec<u8>>::empty(),
//@loop 0
    invariant
        old(self).wf(), bucket_size == bs(), header_size == 68,
        *self == (HdxIndex { bucket_cache: self.bucket_cache, bucket_cache_fifo: self.bucket_cache_fifo, dirty_bucket_cache: self.dirty_bucket_cache, hdx_file: self.hdx_file, ..*old(self) }),
        self.hdx_file.same_os(old(self).hdx_file), self.caches_ok(), self.dirty_bucket_cache@ == Map::<u64, Vec<u8>>::empty(),
        forall|j: int| 0 <= j < dirty@.len() ==> old(self).dirty_bucket_cache@.contains_key((#[trigger] dirty@[j]).0) && old(self).dirty_bucket_cache@[dirty@[j].0] == dirty@[j].1 && !self.bucket_cache@.contains_key(dirty@[j].0),
        forall|j: int, l: int| #![trigger dirty@[j], dirty@[l]] 0 <= j < l < dirty@.len() ==> dirty@[j].0 != dirty@[l].0,
        self.kept_but(*old(self), dirty@), vx_d == dirty@,
    ensures self.dirty_bucket_cache@ == Map::<u64, Vec<u8>>::empty(), self.kept_but(*old(self), Seq::empty()),
        *self == (HdxIndex { bucket_cache: self.bucket_cache, bucket_cache_fifo: self.bucket_cache_fifo, dirty_bucket_cache: self.dirty_bucket_cache, hdx_file: self.hdx_file, ..*old(self) }), self.hdx_file.same_os(old(self).hdx_file), self.caches_ok(),
    decreases dirty@.len(),
//@beforeloop 0
    let ghost mut vx_d = dirty@;
    proof { assert forall|i: int| 0 <= i < self.nb() && !pending(dirty@, i) implies #[trigger] self.kept_at(*old(self), i) by { assert(old(self).cur(i) is Some); assert(!old(self).dirty_bucket_cache@.contains_key(i as u64)) by {
        if old(self).dirty_bucket_cache@.contains_key(i as u64) { let j = choose|j: int| 0 <= j < dirty@.len() && (#[trigger] dirty@[j]).0 == i as u64; assert(pending(dirty@, i)); } } } }
//@loophead 0
    let ghost vx_s = *self; let ghost vx_b0 = buffer@; let ghost vx_x = bucket as int;
    proof {
        let d0 = vx_d;
        assert(dirty@ =~= d0.drop_last()); assert(d0.last().0 == bucket && d0.last().1 == buffer);
        assert(old(self).dirty_bucket_cache@.contains_key(d0[d0.len() - 1].0)); assert(old(self).cur(vx_x) == Some(vx_b0)); assert(vx_x < self.nb());
        assert forall|i: int| 0 <= i < self.nb() && i != vx_x && !pending(dirty@, i) implies #[trigger] self.kept_at(*old(self), i) by {
            assert(!pending(d0, i)) by { if pending(d0, i) { let j = choose|j: int| 0 <= j < d0.len() && (#[trigger] d0[j]).0 == i; assert(dirty@[j].0 == i); } }
        }
        assert forall|j: int| 0 <= j < dirty@.len() implies old(self).dirty_bucket_cache@.contains_key((#[trigger] dirty@[j]).0) && old(self).dirty_bucket_cache@[dirty@[j].0] == dirty@[j].1 && !self.bucket_cache@.contains_key(dirty@[j].0) && dirty@[j].0 != bucket by { assert(dirty@[j] == d0[j]); assert(d0[j].0 != d0[d0.len() - 1].0); }
        assert forall|j: int, l: int| #![trigger dirty@[j], dirty@[l]] 0 <= j < l < dirty@.len() implies dirty@[j].0 != dirty@[l].0 by { assert(dirty@[j] == d0[j] && dirty@[l] == d0[l]); }
        vx_d = dirty@;
    }
//@before? /return Err\(e\);/
    proof {
        assert forall|i: int| 0 <= i && i != vx_x && disk_bucket(vx_s.hb(), i) is Some implies #[trigger] disk_bucket(self.hb(), i) == disk_bucket(vx_s.hb(), i) by { lemma_disk_other(vx_s.hb(), self.hb(), 68 + bsz() + bs() * vx_x, bs(), i); }
        assert(same_body(vx_b0, buffer@));
        assert(self.caches_ok());
        assert forall|i: int| 0 <= i < self.nb() implies #[trigger] self.kept_at(*old(self), i) by {
            if i == vx_x { } else if pending(vx_d, i) { let j = choose|j: int| 0 <= j < vx_d.len() && (#[trigger] vx_d[j]).0 == i; assert(self.dirty_bucket_cache@[i as u64] == vx_d[j].1); } else { assert(vx_s.kept_at(*old(self), i)); assert(!self.dirty_bucket_cache@.contains_key(i as u64)) by { if self.dirty_bucket_cache@.contains_key(i as u64) { let j = choose|j: int| 0 <= j < vx_d.len() && (#[trigger] vx_d[j]).0 == i as u64; assert(pending(vx_d, i)); } } assert(self.cur(i) == vx_s.cur(i)); }
        }
        Self::lemma_kept(*old(self), *self);
    }
//@before? /self\.add_bucket_to_cache\(bucket, buffer\);/
    let ghost vx_b1 = buffer@; let ghost vx_t = *self;
    proof {
        assert forall|i: int| 0 <= i && i != vx_x && disk_bucket(vx_s.hb(), i) is Some implies #[trigger] disk_bucket(self.hb(), i) == disk_bucket(vx_s.hb(), i) by { lemma_disk_other(vx_s.hb(), self.hb(), 68 + bsz() + bs() * vx_x, bs(), i); }
        assert(same_body(vx_b0, vx_b1));
        let p = 68 + bsz() + bs() * vx_x;
        assert(self.hb().subrange(p, p + bs()) =~= vx_b1);
        assert(disk_bucket(self.hb(), vx_x) == Some(vx_b1));
    }
//@afterloop 0
    let ghost vx_e = *self;
//@loopend 0
    proof {
        assert(self.caches_ok());
        assert forall|i: int| 0 <= i < self.nb() && !pending(dirty@, i) implies #[trigger] self.kept_at(*old(self), i) by {
            if i != vx_x { assert(vx_s.kept_at(*old(self), i)); assert(self.cur(i) == vx_s.cur(i)); } else { assert(self.cur(i) == Some(vx_b1)); }
        }
    }
//@tail vx_r
    proof { assert forall|i: int| 0 <= i < self.nb() implies #[trigger] self.kept_at(*old(self), i) by { assert(!pending(Seq::empty(), i)); assert(vx_e.kept_at(*old(self), i)); assert(vx_e.cur(i) == self.cur(i)); } Self::lemma_kept(*old(self), *self); }
//@end
    /// nothing but the header and the filter in the file changed
    pub proof fn lemma_headed(a: Self, b: Self)
        requires a.wf(), b == (HdxIndex { hdx_file: b.hdx_file, ..a }), outside(a.hb(), b.hb(), 0, 68 + bsz()),
        ensures b.wf(), b.same_map(a),
    {
        assert forall|i: int| 0 <= i && disk_bucket(a.hb(), i) is Some implies #[trigger] disk_bucket(b.hb(), i) == disk_bucket(a.hb(), i) by { lemma_disk_other(a.hb(), b.hb(), 0, 68 + bsz(), i); }
        assert forall|i: int| 0 <= i < a.nb() implies #[trigger] b.kept_at(a, i) by { assert(a.cur(i) is Some); assert(b.cur(i) == a.cur(i)); }
        Self::lemma_kept(a, b);
    }
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn write_header" ret=r
//@spec
    requires old(self).header.type_id@ =~= ptag(), old(self).bloom.wf(), bsz() <= 0x100_0000,
    ensures
        *final(self) == (HdxIndex { hdx_file: final(self).hdx_file, ..*old(self) }), final(self).hdx_file.same_os(old(self).hdx_file),
        outside(old(self).hb(), final(self).hb(), 0, 68 + bsz()),
        old(self).hdx_file.healthy() ==> r is Ok,
        old(self).wf() ==> final(self).wf() && final(self).same_map(*old(self)),
        r is Ok ==> hdx_bytes(final(self).header).is_prefix_of(final(self).hb()) && final(self).hb().len() >= 68 + bsz() && final(self).hb().subrange(68, 68 + bsz()) =~= final(self).bloom.bits@,
//@head
    proof {
        lemma_hdx(self.header);
        if self.wf() { assert forall|b: Self| #![trigger b.wf()] #![trigger b.same_map(*self)] b == (HdxIndex { hdx_file: b.hdx_file, ..*self }) && outside(self.hb(), b.hb(), 0, 68 + bsz()) implies b.wf() && b.same_map(*self) by { Self::lemma_headed(*self, b); } }
    }
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn save_to_bucket_buffer :: fn read_u32" ret=r
//@spec
    requires *old(pos) + 4 <= buffer@.len() <= 0xffff,
    ensures r == un32(buffer@.subrange(*old(pos) as int, *old(pos) + 4)), *final(pos) == *old(pos) + 4,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn save_to_bucket_buffer" ret=r nested=drop
//@desugar res.map_err
//@sub? /read_u32\(buffer, &mut pos\)/ => Self::read_u32(buffer, &mut pos)
//@sub? /Self::BUCKET_ELEMENT_SIZE/ => BUCKET_ELEMENT_SIZE
//@sub? /\bbuffer\.fill\((\w+)\)/ => vx_fill(buffer, \1)
//@sub? /rec_key == key\b/ => vx_eq(rec_key, key)
//@spec
    requires
        key@.len() == 32, old(buffer)@.len() == bs(), chain(old(self).odx(), old(buffer)@).1, old(self).header.bucket_elements == 32, old(self).header.values < u64::MAX, old(self).odx().len() > 0,
    ensures
        *final(self) == (HdxIndex { odx_file: final(self).odx_file, header: final(self).header, ..*old(self) }), final(self).odx_file.same_os(old(self).odx_file),
        old(self).odx().is_prefix_of(final(self).odx()), final(buffer)@.len() == bs(),
        final(self).header == (HdxHeader { values: final(self).header.values, ..old(self).header }),
        r is Ok ==> chain(final(self).odx(), final(buffer)@).1
            && forall|k: Seq<u8>| #[trigger] find(chain(final(self).odx(), final(buffer)@).0, k) == (if k == key@ { Some(record_pos) } else { find(chain(old(self).odx(), old(buffer)@).0, k) }),
        // a new key is counted; a rewrite may or may not be
        r is Ok ==> final(self).header.values == old(self).header.values || inc_values && final(self).header.values == old(self).header.values + 1,
        r is Ok && inc_values && find(chain(old(self).odx(), old(buffer)@).0, key@) is None ==> final(self).header.values == old(self).header.values + 1,
        r is Err ==> same_body(old(buffer)@, final(buffer)@) && final(self).header == old(self).header,
        old(self).odx_file.healthy() ==> r is Ok,
//@head
    let ghost vx_b0 = buffer@; let ghost vx_o = self.odx(); let ghost vx_k = key@;
    proof { lemma_grow(vx_o, vx_o, nxt(vx_b0)); }
//@before? /vx_fill\(buffer, 0\);/
    let ghost vx_b1 = buffer@;
    proof {
        let l = vx_o.len() as int;
        assert(same_body(vx_b0, vx_b1));
        lemma_same_body(vx_b0, vx_b1, vx_o);
        assert(odx_rec(self.odx(), l) =~= vx_b1);
        lemma_grow(vx_o, self.odx(), nxt(vx_b0));
        assert(rec_ok(self.odx(), l));
        assert(chained(self.odx(), l) == (elems(vx_b1) + chained(self.odx(), nxt(vx_b1)).0, true));
        assert(chained(self.odx(), l) == chain(vx_o, vx_b0));
    }
//@loop 0 iter=it
    invariant buffer@ == vx_b0, vx_b0 == old(buffer)@, vx_o == old(self).odx(), vx_b0.len() == bs(), key@ == vx_k, vx_k.len() == 32, it.seq().len() == elements, elements == cnt(vx_b0), elements < 32, elements > 0, self.odx() == vx_o, chain(vx_o, vx_b0).1,
        *self == (HdxIndex { odx_file: self.odx_file, header: self.header, ..*old(self) }), self.odx_file.same_os(old(self).odx_file), self.header == old(self).header,
        forall|j: int| 0 <= j < it.index() ==> (#[trigger] elems(vx_b0)[j]).0 != vx_k, forall|j: int| 0 <= j < elements ==> it.seq()[j] == j,
//@loophead 0
    proof { assert(elems(vx_b0)[element as int] == elem(vx_b0, element as int)); }
//@before? /return Ok\(\(\)\);/
    proof {
        let e = element as int;
        lemma_overwrite(vx_b0, buffer@, e, vx_k, record_pos);
        assert(chain(self.odx(), buffer@).1);
        lemma_find_none(elems(vx_b0), vx_k); lemma_find_cat(elems(vx_b0), chained(vx_o, nxt(vx_b0)).0, vx_k);
        assert(elems(vx_b0)[e].0 == vx_k);
        assert forall|k: Seq<u8>| #[trigger] find(chain(self.odx(), buffer@).0, k) == (if k == vx_k { Some(record_pos) } else { find(chain(vx_o, vx_b0).0, k) }) by {
            lemma_find_update(elems(vx_b0), e, vx_k, record_pos, k);
            lemma_find_cat(elems(vx_b0), chained(vx_o, nxt(vx_b0)).0, k);
            lemma_find_cat(elems(buffer@), chained(vx_o, nxt(vx_b0)).0, k);
        }
    }
//@before? /if inc_values/
    proof {
        let c0 = chain(vx_o, vx_b0).0;
        assert forall|k: Seq<u8>| #[trigger] find(chain(self.odx(), buffer@).0, k) == (if k == vx_k { Some(record_pos) } else { find(c0, k) }) by {
            if cnt(vx_b0) >= 32 || cnt(vx_b0) == 0 {
                lemma_single(buffer@, vx_k, record_pos);
                lemma_find_cat(elems(buffer@), chained(self.odx(), nxt(buffer@)).0, k);
                lemma_find_one((vx_k, record_pos), k);
                if cnt(vx_b0) == 0 { assert(elems(vx_b0) + chained(vx_o, nxt(vx_b0)).0 =~= chained(vx_o, nxt(vx_b0)).0); assert(nxt(buffer@) == nxt(vx_b0)) by { assert(buffer@.subrange(0, 8) =~= vx_b0.subrange(0, 8)); } }
                else { assert(buffer@.subrange(0, 8) =~= le64(vx_o.len() as u64)); }
            } else {
                lemma_appended(vx_b0, buffer@, vx_k, record_pos);
                lemma_find_push(elems(vx_b0), (vx_k, record_pos), k);
                lemma_find_none(elems(vx_b0), vx_k);
                lemma_find_cat(elems(vx_b0), chained(vx_o, nxt(vx_b0)).0, k);
                lemma_find_cat(elems(buffer@), chained(vx_o, nxt(vx_b0)).0, k);
            }
        }
        if cnt(vx_b0) >= 32 || cnt(vx_b0) == 0 { lemma_single(buffer@, vx_k, record_pos);
            if cnt(vx_b0) == 0 { assert(buffer@.subrange(0, 8) =~= vx_b0.subrange(0, 8)); } else { assert(buffer@.subrange(0, 8) =~= le64(vx_o.len() as u64)); } }
        else { lemma_appended(vx_b0, buffer@, vx_k, record_pos); }
    }
//@end
    pub proof fn lemma_quiet(a: Self, b: Self)
        requires a.wf(), b.header == a.header, b.modulus == a.modulus, b.hasher_builder == a.hasher_builder, b.bloom == a.bloom, b.odx() == a.odx(), b.hb() == a.hb(),
            b.dirty_bucket_cache@ == a.dirty_bucket_cache@, b.bucket_cache@ == a.bucket_cache@,
        ensures b.wf(), b.same_map(a),
    {
        assert forall|i: int| 0 <= i < a.nb() implies #[trigger] b.kept_at(a, i) by { assert(b.cur(i) == a.cur(i)); assert(a.cur(i) is Some); }
        Self::lemma_kept(a, b);
    }
    /// one bucket's content replaced, the overflow log grown
    pub proof fn lemma_grown(a: Self, b: Self, x: int)
        requires a.wf(), b.caches_ok(), b.geom(), b.nb() == a.nb(), b.modulus == a.modulus, b.hasher_builder == a.hasher_builder, b.bloom == a.bloom, a.odx().is_prefix_of(b.odx()),
            0 <= x < a.nb(), forall|i: int| 0 <= i < a.nb() && i != x ==> #[trigger] b.cur(i) == a.cur(i), b.cur(x) matches Some(c) && b.good(x, c),
        ensures b.wf(), forall|k: Seq<u8>| #[trigger] b.lookup(k) == (if a.route(k) == x { find(chain(b.odx(), b.cur(x)->Some_0).0, k) } else { a.lookup(k) }),
    {
        assert forall|i: int| 0 <= i < b.nb() implies ((#[trigger] b.cur(i)) matches Some(c) && b.good(i, c)) by {
            if i != x {
                assert(a.cur(i) is Some); let c = a.cur(i)->Some_0; assert(a.good(i, c));
                lemma_grow(a.odx(), b.odx(), nxt(c));
                assert(chain(b.odx(), c) == chain(a.odx(), c));
                assert forall|k: Seq<u8>| (#[trigger] find(chain(b.odx(), c).0, k)) is Some implies b.route(k) == i && b.bloom.hask(k) by { assert(find(chain(a.odx(), c).0, k) is Some); assert(a.route(k) == i); }
            }
        }
        assert forall|k: Seq<u8>| #[trigger] b.lookup(k) == (if a.route(k) == x { find(chain(b.odx(), b.cur(x)->Some_0).0, k) } else { a.lookup(k) }) by {
            let i = a.route(k);
            lemma_route(a.hasher_builder.hv(seq![1u8] + k), a.nb(), a.modulus as int);
            assert(b.route(k) == i);
            assert(a.cur(i) is Some); let c = a.cur(i)->Some_0; assert(a.good(i, c));
            lemma_grow(a.odx(), b.odx(), nxt(c));
            if i != x { assert(b.cur(i) == a.cur(i)); }
        }
    }
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn save_to_bucket" ret=r
//@sub? /&mut buffer\[\.\.\]/ => buffer.as_mut_slice()
//@sub? /let mut buffer = self\.remove_bucket\(bucket\)\?;/ => let mut buffer = match self.remove_bucket(bucket) { Ok(b) => b, Err(e) => { proof { Self::lemma_quiet(*old(self), *self); } return Err(e); } };
//@spec
    requires old(self).wf(), key@.len() == 32, old(self).bloom.hask(key@), old(self).header.values < u64::MAX,
    ensures
        final(self).wf(), final(self).same_rest(*old(self)), final(self).hb() == old(self).hb(), final(self).bloom == old(self).bloom, final(self).synced == old(self).synced, final(self).modulus == old(self).modulus, final(self).capacity == old(self).capacity,
        final(self).header == (HdxHeader { values: final(self).header.values, ..old(self).header }),
        r is Ok ==> forall|k: Seq<u8>| #[trigger] final(self).lookup(k) == (if k == key@ { Some(record_pos) } else { old(self).lookup(k) }),
        r is Err ==> final(self).same_map(*old(self)) && final(self).header == old(self).header,
        r is Ok ==> final(self).header.values == old(self).header.values || final(self).header.values == old(self).header.values + 1,
        r is Ok && old(self).lookup(key@) is None ==> final(self).header.values == old(self).header.values + 1,
        old(self).healthy() ==> r is Ok,
//@head
    let ghost vx_x = self.route(key@);
    proof { lemma_route(self.hasher_builder.hv(seq![1u8] + key@), self.nb(), self.modulus as int); assert(self.cur(vx_x) is Some); }
//@before /let result =/
    let ghost vx_s = *self; let ghost vx_b0 = buffer@;
    proof { assert(vx_x == bucket); assert(old(self).good(vx_x, vx_b0)); }
//@before? /self\.dirty_bucket_cache\.insert\(bucket, buffer\);/
    let ghost vx_b1 = buffer@;
//@tail vx_r
    proof {
        let a = *old(self); let b = *self;
        assert forall|i: int| 0 <= i < a.nb() && i != vx_x implies #[trigger] b.cur(i) == a.cur(i) by { }
        assert(b.cur(vx_x) == Some(vx_b1));
        assert forall|k: Seq<u8>| b.route(k) == a.route(k) by { }
        if result is Err { lemma_grow(a.odx(), b.odx(), nxt(vx_b0)); lemma_same_body(vx_b0, vx_b1, b.odx()); }
        assert(b.good(vx_x, vx_b1)) by {
            assert forall|k: Seq<u8>| (#[trigger] find(chain(b.odx(), vx_b1).0, k)) is Some implies b.route(k) == vx_x && b.bloom.hask(k) by {
                if k != key@ || result is Err { assert(find(chain(a.odx(), vx_b0).0, k) is Some); }
            }
        }
        Self::lemma_grown(a, b, vx_x);
        assert forall|k: Seq<u8>| a.route(k) == vx_x implies a.lookup(k) == #[trigger] find(chain(a.odx(), vx_b0).0, k) by { }
        assert(a.lookup(key@) == find(chain(a.odx(), vx_b0).0, key@));
        if result is Ok {
            assert forall|k: Seq<u8>| #[trigger] b.lookup(k) == (if k == key@ { Some(record_pos) } else { a.lookup(k) }) by {
                if a.route(k) == vx_x { assert(find(chain(b.odx(), vx_b1).0, k) == (if k == key@ { Some(record_pos) } else { find(chain(a.odx(), vx_b0).0, k) })); }
            }
        } else {
            assert forall|k: Seq<u8>| #[trigger] b.lookup(k) == a.lookup(k) by { }
        }
    }
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn fetch_position" ret=r
//@sub? /BucketIter::new\(t_buf\.as_ref\(\)\.expect\("not None"\)\)/ => BucketIter::new(vx_some_slice(&t_buf))
//@sub? /\bdrop\(iter\);/ =>
//@sub? /key == rec_hash\b/ => vx_eq(key, rec_hash)
//@sub? /rec_hash == key\b/ => vx_eq(rec_hash, key)
//@spec
    requires old(self).readable(), key@.len() == 32,
    ensures
        final(self).same_view(*old(self)), final(self).caches_ok(), final(self).capacity == old(self).capacity,
        r matches Ok(p) ==> old(self).lookup(key@) == Some(p),
        // "not found" only when all of the bucket was read and the key is not in it
        r is Err ==> r->Err_0 is NotFound || r->Err_0 is CrcFailed,
        r matches Err(FetchError::NotFound) ==> (old(self).cur(old(self).route(key@)) matches Some(b) && chain(old(self).odx(), b).1 && find(chain(old(self).odx(), b).0, key@) is None),
        (r matches Err(FetchError::CrcFailed)) && old(self).healthy() ==> (match old(self).cur(old(self).route(key@)) { Some(b) => !chain(old(self).odx(), b).1, None => true }),
//@head
    let ghost vx_x = self.route(key@);
    proof { lemma_route(self.hasher_builder.hv(seq![1u8] + key@), self.nb(), self.modulus as int); }
//@before /let mut iter =/
    let ghost vx_s = *self;
//@beforeloop 0
    let ghost vx_m = *self; let ghost vx_o = self.odx(); let ghost vx_b = if t_buf is Some { t_buf->Some_0@ } else { Seq::empty() };
    let ghost vx_c = iter.rest(vx_o); let ghost vx_w = iter.whole(vx_o);
    proof {
        if t_buf is Some { assert(vx_s.cur(vx_x) == Some(vx_b)); assert(iter.cur() == vx_b);
            assert(vx_c =~= chain(vx_o, vx_b).0); assert(vx_w == chain(vx_o, vx_b).1); }
    }
//@loop 0
    invariant_except_break
        result is None, find(vx_c, key@) == find(iter.rest(vx_o), key@), iter.whole(vx_o) == vx_w,
    invariant
        iter.wf(vx_o), self.odx() == vx_o, self.odx_file.same_os(vx_m.odx_file), *self == (HdxIndex { odx_file: self.odx_file, ..vx_m }),
    ensures
        *self == (HdxIndex { odx_file: self.odx_file, ..vx_m }), self.odx() == vx_o, self.odx_file.same_os(vx_m.odx_file),
        result matches Some(p) ==> find(vx_c, key@) == Some(p),
        result is None && !iter.crc_failure ==> find(vx_c, key@) is None && vx_w,
        result is None && iter.crc_failure && self.odx_file.healthy() ==> !vx_w,
    decreases iter.rest(vx_o).len(),
//@tail vx_r
    proof {
        assert(self.same_view(*old(self))) by {
            assert forall|i: int| #[trigger] self.cur(i) == old(self).cur(i) by { }
        }
    }
//@end

    /// what dividing bucket `c0` (elements `c`) between x and y leaves in one of them
    pub open spec fn part(self, c: Seq<Ent>, i: int, got: Seq<Ent>) -> bool {
        forall|k: Seq<u8>| #[trigger] find(got, k) == (if self.route(k) == i { find(c, k) } else { None })
    }
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn divide_bucket" ret=r
//@sub? /vec!\[0; bucket_size\]/ => vx_zeroed(bucket_size)
//@sub? /panic!\([^;]*\);/ => vx_never();
//@sub? /&mut buffer, false/ => buffer.as_mut_slice(), false
//@sub? /&mut buffer2, false/ => buffer2.as_mut_slice(), false
//@spec
    requires
        old(self).header.bucket_elements == 32, old(self).header.bucket_size == bs(), old(self).nb() >= 1, old(self).modulus == np2(old(self).nb() + 1), old(self).header.values < u64::MAX, old(self).odx().len() > 0,
        split_buffer@.len() == bs(), chain(old(self).odx(), split_buffer@).1, split_bucket != new_bucket,
        forall|k: Seq<u8>| (#[trigger] find(chain(old(self).odx(), split_buffer@).0, k)) is Some ==> old(self).route(k) == split_bucket || old(self).route(k) == new_bucket,
    ensures
        *final(self) == (HdxIndex { odx_file: final(self).odx_file, ..*old(self) }), final(self).odx_file.same_os(old(self).odx_file), old(self).odx().is_prefix_of(final(self).odx()),
        r matches Ok(b) ==> b.0@.len() == bs() && b.1@.len() == bs() && chain(final(self).odx(), b.0@).1 && chain(final(self).odx(), b.1@).1
            && old(self).part(chain(old(self).odx(), split_buffer@).0, split_bucket as int, chain(final(self).odx(), b.0@).0)
            && old(self).part(chain(old(self).odx(), split_buffer@).0, new_bucket as int, chain(final(self).odx(), b.1@).0),
        old(self).odx_file.healthy() ==> r is Ok,
//@beforeloop 0
    let ghost vx_o0 = self.odx(); let ghost vx_c = chain(vx_o0, split_buffer@).0; let ghost mut vx_done: Seq<Ent> = Seq::empty(); let ghost mut vx_rest = vx_c;
    proof {
        lemma_grow(vx_o0, vx_o0, nxt(split_buffer@));
        assert(iter.cur() == split_buffer@);
        assert(iter.rest(vx_o0) =~= vx_c); assert(vx_done + iter.rest(vx_o0) =~= vx_c);
        lemma_zeroes(buffer@, vx_o0); lemma_zeroes(buffer2@, vx_o0);
    }
//@loop 0
    invariant_except_break
        iter.wf(self.odx()), iter.whole(self.odx()), vx_rest == iter.rest(self.odx()),
    invariant
        bucket_size == bs(), split_bucket != new_bucket, vx_o0 == old(self).odx(), vx_o0.len() > 0, vx_c == chain(vx_o0, split_buffer@).0,
        old(self).header.bucket_elements == 32, old(self).header.bucket_size == bs(), old(self).nb() >= 1, old(self).modulus == np2(old(self).nb() + 1), old(self).header.values < u64::MAX,
        forall|k: Seq<u8>| (#[trigger] find(vx_c, k)) is Some ==> old(self).route(k) == split_bucket || old(self).route(k) == new_bucket,
        *self == (HdxIndex { odx_file: self.odx_file, ..*old(self) }), self.odx_file.same_os(old(self).odx_file), vx_o0.is_prefix_of(self.odx()),
        vx_done + vx_rest =~= vx_c,
        buffer@.len() == bs(), buffer2@.len() == bs(), chain(self.odx(), buffer@).1, chain(self.odx(), buffer2@).1,
        old(self).part(vx_done, split_bucket as int, chain(self.odx(), buffer@).0), old(self).part(vx_done, new_bucket as int, chain(self.odx(), buffer2@).0),
        forall|h: B256| #[trigger] rec_hashes@.contains(h) <==> find(vx_done, h.0@) is Some,
    ensures
        *self == (HdxIndex { odx_file: self.odx_file, ..*old(self) }), self.odx_file.same_os(old(self).odx_file), vx_o0.is_prefix_of(self.odx()),
        buffer@.len() == bs(), buffer2@.len() == bs(), chain(self.odx(), buffer@).1, chain(self.odx(), buffer2@).1,
        !iter.crc_failure ==> old(self).part(vx_c, split_bucket as int, chain(self.odx(), buffer@).0) && old(self).part(vx_c, new_bucket as int, chain(self.odx(), buffer2@).0),
        iter.crc_failure ==> !self.odx_file.healthy(),
    decreases iter.rest(self.odx()).len(),
//@loophead 0
    let ghost vx_o = self.odx(); let ghost vx_t = vx_rest.skip(1); let ghost vx_d = vx_done; let ghost vx_e = (rec_hash@, rec_pos); let ghost vx_b1 = buffer@; let ghost vx_b2 = buffer2@;
    proof {
        // what was just taken is the next element of the bucket
        assert(vx_rest[0] == vx_e); assert(vx_rest =~= seq![vx_e] + vx_t);
        assert(vx_c =~= vx_d.push(vx_e) + vx_t);
        vx_done = vx_d.push(vx_e);
        lemma_find_cat(vx_done, vx_t, rec_hash@); lemma_find_push(vx_d, vx_e, rec_hash@);
        assert(find(vx_c, rec_hash@) is Some);
        assert(old(self).route(rec_hash@) == self.route(rec_hash@));
        lemma_grow(vx_o, vx_o, nxt(buffer@)); lemma_grow(vx_o, vx_o, nxt(buffer2@));
    }
//@loopend 0
    proof {
        lemma_grow(vx_o, self.odx(), iter.overflow_pos as int);
        assert(iter.rest(self.odx()) =~= vx_t); vx_rest = vx_t;
        lemma_grow(vx_o, self.odx(), nxt(vx_b1)); lemma_grow(vx_o, self.odx(), nxt(vx_b2));
        assert forall|k: Seq<u8>| #[trigger] find(vx_done, k) == (if find(vx_d, k) is Some { find(vx_d, k) } else if vx_e.0 == k { Some(vx_e.1) } else { None }) by { lemma_find_push(vx_d, vx_e, k); }
        assert forall|h: B256| #[trigger] rec_hashes@.contains(h) <==> find(vx_done, h.0@) is Some by { if h.0@ == vx_e.0 { assert(h.0 =~= hash.0); } }
    }
//@end
}
#[verifier::external_body]
pub fn vx_never() requires false { unimplemented!() }
impl B256 {
    /// alloy: panics unless the slice has 32 bytes
    #[verifier::external_body]
    pub fn from_slice(s: &[u8]) -> (r: B256) requires s@.len() == 32 ensures r.0@ =~= s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.0@ { &self.0 }
}
/// zero is stored as zero bytes
pub axiom fn ax_le_zero() ensures le32(0) =~= seq![0u8, 0, 0, 0], le64(0) =~= seq![0u8, 0, 0, 0, 0, 0, 0, 0];
pub proof fn lemma_zeroes(b: Seq<u8>, odx: Seq<u8>)
    requires b.len() == bs(), forall|i: int| 0 <= i < bs() ==> b[i] == 0,
    ensures chain(odx, b).1, chain(odx, b).0 =~= Seq::empty(),
{
    ax_le_zero();
    assert(b.subrange(8, 12) =~= le32(0)); assert(b.subrange(0, 8) =~= le64(0));
}

impl<S: BuildHasher> HdxIndex<S> {
    /// bucket x divided between itself and one new bucket
    pub proof fn lemma_divided(a: Self, b: Self, x: int)
        requires a.wf(), b.caches_ok(), b.geom(), b.nb() == a.nb() + 1, b.hasher_builder == a.hasher_builder, b.bloom == a.bloom, a.odx().is_prefix_of(b.odx()),
            x == a.nb() - a.modulus as int / 2, forall|i: int| 0 <= i < a.nb() && i != x ==> #[trigger] b.cur(i) == a.cur(i),
            b.cur(x) is Some, b.cur(x)->Some_0.len() == bs(), chain(b.odx(), b.cur(x)->Some_0).1,
            b.cur(a.nb()) is Some, b.cur(a.nb())->Some_0.len() == bs(), chain(b.odx(), b.cur(a.nb())->Some_0).1,
            b.part(chain(a.odx(), a.cur(x)->Some_0).0, x, chain(b.odx(), b.cur(x)->Some_0).0),
            b.part(chain(a.odx(), a.cur(x)->Some_0).0, a.nb(), chain(b.odx(), b.cur(a.nb())->Some_0).0),
        ensures b.wf(), b.same_map(a),
    {
        lemma_split(0, a.nb(), a.modulus as int, b.modulus as int);
        assert forall|k: Seq<u8>| #[trigger] b.route(k) == b.route(k) && 0 <= a.route(k) < a.nb() && (a.route(k) != x ==> b.route(k) == a.route(k)) && (a.route(k) == x ==> b.route(k) == x || b.route(k) == a.nb()) && (b.route(k) == x || b.route(k) == a.nb() ==> a.route(k) == x) by {
            lemma_split(a.hasher_builder.hv(seq![1u8] + k), a.nb(), a.modulus as int, b.modulus as int);
        }
        assert forall|i: int| 0 <= i < b.nb() implies ((#[trigger] b.cur(i)) matches Some(c) && b.good(i, c)) by {
            let c = b.cur(i)->Some_0;
            if i != x && i < a.nb() {
                assert(a.cur(i) is Some); assert(a.good(i, c));
                lemma_grow(a.odx(), b.odx(), nxt(c));
                assert(chain(b.odx(), c) == chain(a.odx(), c));
                assert forall|k: Seq<u8>| (#[trigger] find(chain(b.odx(), c).0, k)) is Some implies b.route(k) == i && b.bloom.hask(k) by { assert(find(chain(a.odx(), c).0, k) is Some); assert(a.route(k) == i); assert(b.route(k) == b.route(k)); }
            } else {
                let d = a.cur(x)->Some_0; assert(a.cur(x) is Some); assert(a.good(x, d));
                assert forall|k: Seq<u8>| (#[trigger] find(chain(b.odx(), c).0, k)) is Some implies b.route(k) == i && b.bloom.hask(k) by { assert(find(chain(a.odx(), d).0, k) is Some); }
            }
        }
        assert forall|k: Seq<u8>| #[trigger] b.lookup(k) == a.lookup(k) by {
            let i = a.route(k);
            assert(b.route(k) == b.route(k));
            assert(a.cur(i) is Some); let c = a.cur(i)->Some_0; assert(a.good(i, c));
            if i != x { lemma_grow(a.odx(), b.odx(), nxt(c)); assert(b.cur(i) == a.cur(i)); }
            else { assert(find(chain(b.odx(), b.cur(b.route(k))->Some_0).0, k) == find(chain(a.odx(), c).0, k)); }
        }
    }
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn split_one_bucket" ret=r
//@sub? /self\.remove_bucket\(split_bucket\)\?/ => match self.remove_bucket(split_bucket) { Ok(b) => b, Err(e) => { proof { Self::lemma_quiet(*old(self), *self); } return Err(e); } }
//@sub? /\(self\.buckets\(\) \+ 1\)\.next_power_of_two\(\)/ => vx_np2(self.buckets() + 1)
//@sub? /&split_buffer, split_bucket/ => split_buffer.as_slice(), split_bucket
//@spec
    requires old(self).wf(), old(self).header.values < u64::MAX, old(self).nb() < 0x3fff_ffff,
    ensures
        final(self).wf(), final(self).same_map(*old(self)), final(self).same_rest(*old(self)), final(self).hb() == old(self).hb(), final(self).bloom == old(self).bloom, final(self).synced == old(self).synced, final(self).capacity == old(self).capacity,
        r is Ok ==> final(self).header == (HdxHeader { buckets: (old(self).header.buckets + 1) as u32, ..old(self).header }),
        // a refused split leaves the index as it was
        r is Err ==> final(self).header == old(self).header,
        old(self).healthy() ==> r is Ok,
//@head
    let ghost vx_x = self.nb() - self.modulus as int / 2;
    proof { lemma_split(0, self.nb(), self.modulus as int, np2(self.nb() + 2)); lemma_np2(self.nb() + 2); lemma_np2(self.nb() + 1); assert(self.cur(vx_x) is Some); }
//@before /self\.inc_buckets\(\);/
    let ghost vx_b0 = split_buffer@; let ghost vx_s = *self;
    proof { assert(old(self).good(vx_x, vx_b0)); assert(split_bucket == vx_x); }
//@after /self\.modulus = vx_np2\([^;]*;/
    let ghost vx_m = *self;
    proof {
        assert forall|k: Seq<u8>| (#[trigger] find(chain(vx_m.odx(), vx_b0).0, k)) is Some implies vx_m.route(k) == split_bucket || vx_m.route(k) == new_bucket by {
            assert(old(self).route(k) == vx_x);
            lemma_split(old(self).hasher_builder.hv(seq![1u8] + k), old(self).nb(), old(self).modulus as int, vx_m.modulus as int);
        }
    }
//@tail vx_r
    proof {
        assert forall|i: int| 0 <= i < old(self).nb() && i != vx_x implies #[trigger] self.cur(i) == old(self).cur(i) by { }
        if vx_r is Ok {
            assert forall|k: Seq<u8>| self.route(k) == vx_m.route(k) by { }
            assert(self.part(chain(old(self).odx(), vx_b0).0, vx_x, chain(self.odx(), self.cur(vx_x)->Some_0).0));
            assert(self.part(chain(old(self).odx(), vx_b0).0, old(self).nb(), chain(self.odx(), self.cur(old(self).nb())->Some_0).0));
            Self::lemma_divided(*old(self), *self, vx_x);
        } else {
            assert(self.cur(vx_x) == Some(vx_b0));
            lemma_grow(old(self).odx(), self.odx(), nxt(vx_b0));
            assert forall|k: Seq<u8>| (#[trigger] find(chain(self.odx(), vx_b0).0, k)) is Some implies self.route(k) == vx_x && self.bloom.hask(k) by { assert(find(chain(old(self).odx(), vx_b0).0, k) is Some); assert(old(self).route(k) == vx_x); }
            Self::lemma_grown(*old(self), *self, vx_x);
            assert forall|k: Seq<u8>| #[trigger] self.lookup(k) == old(self).lookup(k) by { if old(self).route(k) == vx_x { assert(find(chain(self.odx(), vx_b0).0, k) == find(chain(old(self).odx(), vx_b0).0, k)); } }
        }
    }
//@end
}

/// the load test of expand_buckets (floating point): any answer; an index has fewer than 2^30 - 1 buckets (1.4 TB)
#[verifier::external_body]
pub fn vx_crowded(values: u64, capacity: u64, buckets: u32) -> (r: bool) ensures r ==> buckets < 0x3fff_ffff { unimplemented!() }
impl<S: BuildHasher> HdxIndex<S> {
    /// more bits in the filter
    pub proof fn lemma_bloomed(a: Self, b: Self)
        requires a.wf(), b == (HdxIndex { bloom: b.bloom, ..a }), b.bloom.wf(), forall|k: Seq<u8>| a.bloom.hask(k) ==> #[trigger] b.bloom.hask(k),
        ensures b.wf(), b.same_map(a),
    {
        assert forall|i: int| 0 <= i < b.nb() implies ((#[trigger] b.cur(i)) matches Some(c) && b.good(i, c)) by {
            assert(a.cur(i) is Some); let c = a.cur(i)->Some_0; assert(b.cur(i) == a.cur(i)); assert(a.good(i, c));
            assert forall|k: Seq<u8>| (#[trigger] find(chain(b.odx(), c).0, k)) is Some implies b.route(k) == i && b.bloom.hask(k) by { assert(find(chain(a.odx(), c).0, k) is Some); assert(a.route(k) == i); }
        }
        assert forall|k: Seq<u8>| #[trigger] b.lookup(k) == a.lookup(k) by { assert(b.route(k) == a.route(k)); }
    }
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn expand_buckets" ret=r
//@sub? /while [^{]*load_factor\(\)[^{]*\{/ => while vx_crowded(self.header.values, self.capacity, self.header.buckets) {
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires old(self).wf(), old(self).header.values < u64::MAX,
    ensures
        final(self).wf(), final(self).same_map(*old(self)), final(self).same_rest(*old(self)), final(self).hb() == old(self).hb(), final(self).bloom == old(self).bloom, final(self).synced == old(self).synced,
        final(self).header == (HdxHeader { buckets: final(self).header.buckets, ..old(self).header }), final(self).nb() >= old(self).nb(),
        old(self).healthy() ==> r is Ok,
//@loop 0
    invariant
        self.wf(), self.same_map(*old(self)), self.same_rest(*old(self)), self.hb() == old(self).hb(), self.bloom == old(self).bloom, self.synced == old(self).synced, old(self).header.values < u64::MAX,
        self.header == (HdxHeader { buckets: self.header.buckets, ..old(self).header }), self.nb() >= old(self).nb(),
//@before? /self\.capacity =/
    let ghost vx_s = *self;
    proof { assert(self.geom()); assert(self.header.buckets * self.header.bucket_elements <= 0x4000_0000 * 32) by (nonlinear_arith) requires self.header.buckets < 0x4000_0000, self.header.bucket_elements == 32; }
//@loopend 0
    proof { Self::lemma_quiet(vx_s, *self); }
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl Index for HdxIndex :: fn save" ret=r
//@spec
    requires old(self).wf(), old(self).header.values < u64::MAX,
    ensures
        final(self).wf(), final(self).same_rest(*old(self)), final(self).hb() == old(self).hb(),
        // saved: this key has this position, every other key what it had
        r is Ok ==> forall|k: Seq<u8>| #[trigger] final(self).lookup(k) == (if k == key.0@ { Some(record_pos) } else { old(self).lookup(k) }),
        // refused: nothing changed
        r is Err ==> final(self).same_map(*old(self)) && final(self).header.values == old(self).header.values,
        r is Ok ==> final(self).header.values == old(self).header.values || final(self).header.values == old(self).header.values + 1,
        r is Ok && old(self).lookup(key.0@) is None ==> final(self).header.values == old(self).header.values + 1,
        old(self).read_only ==> r is Err && *final(self) == *old(self),
        !old(self).read_only ==> !final(self).synced,
        old(self).healthy() && !old(self).read_only ==> r is Ok,
//@after? /self\.synced = false;/
    proof { Self::lemma_quiet(*old(self), *self); }
//@before? /self\.bloom\.accrue\(key\);/
    let ghost vx_s = *self;
//@after? /self\.bloom\.accrue\(key\);/
    proof { Self::lemma_bloomed(vx_s, *self); }
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl Index for HdxIndex :: fn load" ret=r
//@spec
    requires old(self).readable(),
    ensures
        final(self).same_view(*old(self)), final(self).caches_ok(),
        r matches Ok(p) ==> old(self).lookup(key.0@) == Some(p),
        r is Err ==> r->Err_0 is NotFound || r->Err_0 is CrcFailed,
        // not found: not in the filter, or all of its bucket was read without finding it
        r matches Err(FetchError::NotFound) ==> old(self).lookup(key.0@) is None,
        r matches Err(FetchError::NotFound) ==> !old(self).bloom.has(key) || (old(self).cur(old(self).route(key.0@)) matches Some(b) && chain(old(self).odx(), b).1),
        (r matches Err(FetchError::CrcFailed)) && old(self).healthy() ==> (match old(self).cur(old(self).route(key.0@)) { Some(b) => !chain(old(self).odx(), b).1, None => true }),
        // an undamaged index answers with the map
        old(self).wf() && old(self).healthy() ==> (match old(self).lookup(key.0@) { Some(p) => r == Ok::<u64, FetchError>(p), None => r matches Err(FetchError::NotFound) }),
//@head
    proof {
        lemma_route(self.hasher_builder.hv(seq![1u8] + key.0@), self.nb(), self.modulus as int);
        let i = self.route(key.0@);
        if self.cur(i) is Some { let b = self.cur(i)->Some_0; assert(self.wf() ==> self.good(i, b)); }
    }
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl Index for HdxIndex :: fn sync" ret=r
//@desugar res.map_err
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_map(*old(self)), final(self).same_rest(*old(self)), final(self).header == old(self).header, final(self).bloom == old(self).bloom,
        // synced: all of it is in the files
        r is Ok ==> final(self).stored() && !old(self).read_only && final(self).synced,
        r is Err && !old(self).synced ==> !final(self).synced,
        old(self).healthy() && !old(self).read_only ==> r is Ok,
//@before? /self\.synced = true;/
    let ghost vx_s = *self;
//@after? /self\.synced = true;/
    proof { Self::lemma_quiet(vx_s, *self); }
//@end
}

impl vstd::std_specs::convert::FromSpecImpl<BloomError> for LoadHeaderError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: BloomError) -> LoadHeaderError { LoadHeaderError::BloomError(e) }
}
impl From<BloomError> for LoadHeaderError {
//@fn file=crates/storage/src/archive/error/load_header.rs path="impl From<BloomError> for LoadHeaderError :: fn from" ret=r trait
//@spec
    ensures r == LoadHeaderError::BloomError(err),
//@end
}
pub assume_specification [std::thread::panicking] () -> bool;
/// Ord::min, slice::repeat, and the modulus above a bucket count (which panics near 2^32)
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
#[verifier::external_body]
pub fn vx_repeat(s: &[u8], n: usize) -> (r: Vec<u8>)
    requires s@.len() * n < 0x1000_0000
    ensures r@.len() == s@.len() * n, forall|j: int| 0 <= j < n ==> #[trigger] r@.subrange(s@.len() * j, s@.len() * j + s@.len()) =~= s@
{ s.repeat(n) }
#[verifier::external_body]
pub fn vx_modulus(b: u32) -> (r: u32) ensures b < 0x4000_0000 ==> r == np2(b + 1) { (b + 1).next_power_of_two() }
/// a bucket as created
pub open spec fn blank(b: Seq<u8>) -> bool { b.len() == bs() && stamped(b) && forall|i: int| 0 <= i < 1292 ==> b[i] == 0 }
pub proof fn lemma_blank(b: Seq<u8>, odx: Seq<u8>)
    requires blank(b),
    ensures chain(odx, b).1, chain(odx, b).0 =~= Seq::empty(),
{
    let z = Seq::new(bs() as nat, |i: int| 0u8);
    lemma_zeroes(z, odx); assert(z.take(1292) =~= b.take(1292)); lemma_same_body(z, b, odx);
}
/// header, filter and n blank buckets
pub open spec fn laid(f: Seq<u8>, h: Seq<u8>, n: int) -> bool {
    &&& f.len() == 68 + bsz() + bs() * n && h.len() == 68 && h.is_prefix_of(f)
    &&& forall|i: int| 68 <= i < 68 + bsz() ==> f[i] == 0
    &&& forall|i: int| 0 <= i < n ==> blank(#[trigger] f.subrange(68 + bsz() + bs() * i, 68 + bsz() + bs() * i + bs()))
}
pub proof fn lemma_laid(f: Seq<u8>, g: Seq<u8>, h: Seq<u8>, n: int, m: int)
    requires laid(f, h, n), n >= 0, m >= 0, bsz() >= 0, g.len() == f.len() + bs() * m, f.is_prefix_of(g),
        forall|i: int| 0 <= i < m ==> blank(#[trigger] g.subrange(f.len() + bs() * i, f.len() + bs() * i + bs())),
    ensures laid(g, h, n + m),
{
    assert forall|i: int| 68 <= i < 68 + bsz() implies g[i] == 0 by { assert(f[i] == 0); }
    assert forall|i: int| 0 <= i < n + m implies blank(#[trigger] g.subrange(68 + bsz() + bs() * i, 68 + bsz() + bs() * i + bs())) by {
        let p = 68 + bsz() + bs() * i;
        if i < n { assert(g.subrange(p, p + bs()) =~= f.subrange(p, p + bs())); } else { let j = i - n; assert(p == f.len() + bs() * j); assert(blank(g.subrange(f.len() + bs() * j, f.len() + bs() * j + bs()))); }
    }
}
impl<S: BuildHasher> HdxIndex<S> {
    pub open spec fn fresh(self) -> bool {
        self.dirty_bucket_cache@ == Map::<u64, Vec<u8>>::empty() && self.bucket_cache@ == Map::<u64, Vec<u8>>::empty() && self.synced
    }
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxIndex :: fn open_hdx_file" ret=r
//@sub? /<P: AsRef<Path>>/ =>
//@sub? /dir: P\b/ => dir: PathBuf
//@sub? /HdxIndex<KSIZE, S>/ => HdxIndex<S>
//@sub? /let dir = dir\.as_ref\(\);/ => let dir = dir.as_path();
//@sub? /let dir_created = fs::create_dir\(dir\)\.is_ok\(\);/ =>
//@sub? /if dir_created \{\s*if let Some\(parent\) = dir\.parent\(\) \{ let _ = fsync_directory\(parent\); \}\s*\}/ =>
//@sub? /let _ = fsync_directory\(dir\);/ =>
//@sub? /OpenOptions::new\(\)\.read\(true\)\.write\(false\)\.open\(dir\.join\("index\.hdx"\)\)/ => PFile::vx_open(dir.vx_join("index.hdx").as_path())
//@sub? /OpenOptions::new\(\)\s*\.read\(true\)\s*\.write\(true\)\s*\.create\(true\)\s*\.truncate\(false\)\s*\.open\(dir\.join\("index\.hdx"\)\)/ => PFile::vx_open(dir.vx_join("index.hdx").as_path())
//@sub? /dir\.join\(/ => dir.vx_join(
//@sub? /::<KSIZE, S>/ =>
//@sub? /Self::(BUCKET\w*)/ => \1
//@sub? /vec!\[0_u8; (\w+)\]/ => vx_zeroed(\1)
//@sub? /&mut (\w+)\[\.\.\]/ => \1.as_mut_slice()
//@sub? /&chunk\[/ => &chunk.as_slice()[
//@sub? /1024\.min\(header\.buckets\(\) as usize\)/ => vx_min(1024, header.buckets() as usize)
//@sub? /chunk_buckets\.min\(remaining\)/ => vx_min(chunk_buckets, remaining)
//@sub? /single_bucket\.repeat\(/ => vx_repeat(single_bucket.as_slice(),
//@sub? /bloom_bits\.try_into\(\)\?/ => Bloom::vx_try_from(bloom_bits)?
//@sub? /\(header\.buckets \+ 1\)\.next_power_of_two\(\)/ => vx_modulus(header.buckets)
//@spec
    ensures
        r matches Ok(x) ==> x.fresh() && x.stored() && x.header.type_id@ =~= ptag() && x.header.bucket_elements == 32 && x.header.bucket_size == bs() && x.bloom.wf() && x.bloom.bits@.len() == bsz()
            && (x.nb() < 0x4000_0000 ==> x.modulus == np2(x.nb() + 1)) && x.hasher_builder == hasher_builder && x.read_only == read_only
            && x.header.version == data_header.version && x.header.uid == data_header.uid && x.header.appnum == data_header.appnum
            && x.header.pepper == hasher_builder.hv(seq![0u8] + le64(x.header.salt))
            && odx_head(x.odx(), x.header.version, x.header.uid, x.header.appnum) && (x.odx_file.opened().len() > 0 ==> x.odx() =~= x.odx_file.opened()),
        // an index that is there is taken as it is; one that is not starts empty
        r matches Ok(x) ==> (if x.hdx_file.opened().len() > 0 { x.hb() == x.hdx_file.opened() } else { !read_only && x.wf() && x.header.values == 0 && forall|k: Seq<u8>| #[trigger] x.lookup(k) is None }),
//@before? /while remaining > 0/
            let ghost vx_h = hdx_bytes(header); let ghost vx_nb = header.buckets as int;
            proof {
                assert forall|i: int| 68 <= i < 68 + bsz() implies hdx_file.bytes()[i] == 0 by { assert(bloom.bits@[i - 68] == hdx_file.bytes()[68 + (i - 68)]); }
                assert(vx_h.is_prefix_of(hdx_file.bytes()));
                assert(laid(hdx_file.bytes(), vx_h, 0));
                assert forall|i: int| 0 <= i < 1292 implies single_bucket@[i] == 0 by { assert(single_bucket@.take(1292)[i] == 0); }
                assert(blank(single_bucket@));
            }
//@loop 0
    invariant
        0 <= remaining <= vx_nb, vx_nb == 1000, 0 < chunk_buckets <= 1024, bucket_size == bs(), 0 < bsz() <= 0x100_0000,
        chunk@.len() == bs() * chunk_buckets, forall|j: int| 0 <= j < chunk_buckets ==> #[trigger] chunk@.subrange(bs() * j, bs() * j + bs()) =~= single_bucket@, blank(single_bucket@),
        laid(hdx_file.bytes(), vx_h, vx_nb - remaining), hdx_file.pos() == hdx_file.bytes().len(), hdx_file.opened() == vx_op,
    decreases remaining,
//@loophead 0
    let ghost vx_f = hdx_file.bytes(); let ghost vx_r = remaining;
//@loopend 0
    proof {
        let g = hdx_file.bytes();
        assert(vx_f.is_prefix_of(g));
        assert forall|i: int| 0 <= i < n implies blank(#[trigger] g.subrange(vx_f.len() + bs() * i, vx_f.len() + bs() * i + bs())) by {
            let c = chunk@.subrange(bs() * i, bs() * i + bs());
            let d = g.subrange(vx_f.len() + bs() * i, vx_f.len() + bs() * i + bs()); let w = chunk@.subrange(0, bs() * n);
            assert forall|q: int| 0 <= q < bs() implies #[trigger] d[q] == c[q] by { assert(w[bs() * i + q] == g[vx_f.len() + (bs() * i + q)]); }
            assert(d =~= c);
        }
        lemma_laid(vx_f, g, vx_h, vx_nb - vx_r, n as int);
    }
//@head
    let vx_w = BLOOM_SIZE_BYTES;
//@before? /let capacity =/
    proof { assert(header.buckets * header.bucket_elements <= 0x1_0000_0000 * 0x1_0000) by (nonlinear_arith) requires header.buckets <= 0xffff_ffff, header.bucket_elements <= 0xffff; }
//@before /let file_end =/
    let ghost vx_op = hdx_file.bytes();
//@tail vx_r
    proof {
        let x = vx_r->Ok_0; let f = x.hb();
        if x.hdx_file.opened().len() == 0 {
            assert(laid(f, hdx_bytes(x.header), 1000));
            lemma_np2(x.nb() + 1);
            assert forall|i: int| 0 <= i < x.nb() implies ((#[trigger] x.cur(i)) matches Some(c) && x.good(i, c)) by {
                let c = f.subrange(68 + bsz() + bs() * i, 68 + bsz() + bs() * i + bs());
                assert(blank(c)); lemma_blank(c, x.odx()); assert(x.cur(i) == Some(c));
            }
            assert forall|k: Seq<u8>| #[trigger] x.lookup(k) is None by {
                let i = x.route(k);
                lemma_route(x.hasher_builder.hv(seq![1u8] + k), x.nb(), x.modulus as int);
                let c = f.subrange(68 + bsz() + bs() * i, 68 + bsz() + bs() * i + bs());
                assert(blank(c)); lemma_blank(c, x.odx()); assert(x.cur(i) == Some(c));
            }
        }
    }
//@end
    /// a synced index opened again holds the same map
    pub proof fn lemma_reopened(a: Self, b: Self)
        requires a.wf(), a.stored(), b.fresh(), b.stored(), b.hb() =~= a.hb(), b.odx() =~= a.odx(), b.hasher_builder == a.hasher_builder,
            b.header.bucket_elements == 32 && b.header.bucket_size == bs() && b.header.type_id@ =~= ptag() && b.bloom.wf(), b.nb() < 0x4000_0000 ==> b.modulus == np2(b.nb() + 1),
        ensures b.wf(), b.same_map(a), b.header.values == a.header.values, b.header.data_file_length == a.header.data_file_length,
    {
        lemma_hdx(a.header); lemma_hdx(b.header);
        assert(hdx_bytes(a.header) =~= a.hb().take(68)); assert(hdx_bytes(b.header) =~= a.hb().take(68));
        assert(b.bloom.bits@ =~= a.bloom.bits@);
        assert forall|i: int| 0 <= i < a.nb() implies ((#[trigger] b.cur(i)) matches Some(c) && b.good(i, c) && a.cur(i) == Some(c)) by {
            assert(a.cur(i) is Some); assert(a.good(i, a.cur(i)->Some_0)); assert(b.cur(i) == a.cur(i));
            let c = a.cur(i)->Some_0;
            assert forall|k: Seq<u8>| (#[trigger] find(chain(b.odx(), c).0, k)) is Some implies b.route(k) == i && b.bloom.hask(k) by { assert(find(chain(a.odx(), c).0, k) is Some); assert(a.route(k) == i); }
        }
        assert forall|k: Seq<u8>| #[trigger] b.lookup(k) == a.lookup(k) by { lemma_route(a.hasher_builder.hv(seq![1u8] + k), a.nb(), a.modulus as int); assert(b.cur(a.route(k)) is Some); }
    }
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl Drop for HdxIndex :: fn drop" rename=vx_drop
//@sub? /if !std::thread::panicking\(\) \{\s*tracing::\w+!\([^;]*\);\s*\}/ =>
//@sub? /tracing::\w+!\([^;]*\);/ =>
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_map(*old(self)),
        // a working disk: what was not synced is written when the index is dropped
        old(self).healthy() && !old(self).read_only && !old(self).synced ==> final(self).stored(),
        old(self).read_only ==> *final(self) == *old(self),
//@before? /if let Err\(\w+\) = self\.hdx_file\.flush/
    proof { assert forall|b: Self| #![trigger b.wf()] #![trigger b.same_map(*old(self))] b == (HdxIndex { hdx_file: b.hdx_file, ..*self }) && b.hb() == self.hb() implies b.wf() && b.same_map(*old(self)) by { Self::lemma_headed(*self, b); } }
//@end
//@fn file=crates/storage/src/archive/index.rs path="trait Index :: fn contains" ret=r
//@sub? /key: K\b/ => key: B256
//@spec
    requires old(self).readable(),
    ensures final(self).same_view(*old(self)), r ==> old(self).lookup(key.0@) is Some, old(self).wf() && old(self).healthy() ==> r == (old(self).lookup(key.0@) is Some),
//@end
}
