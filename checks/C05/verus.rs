// C05: the store of epoch records answers with what was saved
#![allow(unused_imports, irrefutable_let_patterns)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use std::sync::Arc;
verus! {
//@include lib/verus/result.rs
//@include lib/verus/question.rs
//@known OpenError AppendError CommitError Arc Pack PositionIndex HdxIndex RoaringBitmap BlsPublicKey BlsSignature BlockNumHash ConsensusNumHash DataHeader Path io FxHasher BuildHasherDefault PackCompression RECORDS_NAME CERTS_NAME EPOCH_POS_NAME RECORD_HASH_NAME CERT_HASH_NAME EPOCH_PACK_VERSION PACK_EPOCH CERT_PACK_EPOCH
broadcast use vx_q::ax_question;
pub type Epoch = u32;
macro_rules! vx_id { ($n:ident) => { verus! {
    #[derive(Clone, Copy)] pub struct $n(pub u64);
    impl vstd::std_specs::cmp::PartialEqSpecImpl for $n { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
} } }
vx_id!(EpochDigest); vx_id!(BlsPublicKey); vx_id!(BlsSignature); vx_id!(BlockNumHash); vx_id!(RoaringBitmap);
pub mod roaring { pub use super::RoaringBitmap; }
pub mod io { pub struct Error { pub x: u64 } }
pub struct LoadHeaderError { pub x: u64 } pub enum OpenError { IndexFileOpen(LoadHeaderError), Other }
pub struct AppendError { pub x: u64 } pub struct CommitError { pub x: u64 }
#[derive(Clone, Copy)]
pub struct ConsensusNumHash { pub number: u64, pub hash: u64 }
#[verifier::external_body]
pub fn vx_text() -> String { unimplemented!() }
pub fn vx_epoch(n: usize) -> (r: u32) ensures r == (if n <= 0xffff_ffff { n as u32 } else { 0xffff_ffffu32 }) { if n <= 0xffff_ffff { n as u32 } else { 0xffff_ffff } }
pub fn vx_max(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
//@item file=crates/types/src/primary/epoch.rs path="struct EpochRecord"
//@end
//@item file=crates/types/src/primary/epoch.rs path="struct EpochCertificate"
//@end
/// the digest of a record (what it is a digest of: C04, natively here)
pub uninterp spec fn dig(r: EpochRecord) -> EpochDigest;
impl EpochRecord {
    #[verifier::external_body]
    pub fn digest(&self) -> (r: EpochDigest) ensures r == dig(*self) { unimplemented!() }
}
impl Clone for EpochRecord { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item file=crates/storage/src/archive/error/fetch.rs path="enum FetchError"
//@end
//@item file=crates/storage/src/epoch_records.rs path="enum EpochDbError"
//@end
impl vstd::std_specs::convert::FromSpecImpl<FetchError> for EpochDbError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: FetchError) -> EpochDbError { arbitrary() }
}
impl From<FetchError> for EpochDbError {
//@fn file=crates/storage/src/epoch_records.rs path="impl From<FetchError> for EpochDbError :: fn from" ret=r trait
//@sub? /value\.to_string\(\)/ => vx_text()
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<OpenError> for EpochDbError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: OpenError) -> EpochDbError { arbitrary() }
}
impl From<OpenError> for EpochDbError {
//@fn file=crates/storage/src/epoch_records.rs path="impl From<OpenError> for EpochDbError :: fn from" ret=r trait
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for EpochDbError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: io::Error) -> EpochDbError { arbitrary() }
}
impl From<io::Error> for EpochDbError {
//@fn file=crates/storage/src/epoch_records.rs path="impl From<io::Error> for EpochDbError :: fn from" ret=r trait
//@end
}
// ---------------------------------------------------------------- the files (contracts proved in C14, C15 and C16)
pub mod vx_files {
use vstd::prelude::*;
use super::*;
/// `a` is kept in `b`
pub open spec fn part<K, V>(a: Map<K, V>, b: Map<K, V>) -> bool { forall|k: K| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k] }
/// what a pack file holds: the value readable at each position, the end of each frame there
pub struct PackS<V> { pub log: Map<u64, V>, pub ends: Map<u64, u64>, pub len: u64, pub sound: bool, pub ro: bool }
impl<V> PackS<V> {
    pub open spec fn wf(self) -> bool {
        &&& 28 <= self.len < 0x1000_0000_0000_0000
        &&& forall|p: u64| #[trigger] self.log.contains_key(p) ==> self.ends.contains_key(p)
        &&& forall|p: u64| #[trigger] self.ends.contains_key(p) ==> p < self.ends[p] <= self.len
    }
    /// the same file cut to `n` bytes
    pub open spec fn cut(self, n: u64, o: Self) -> bool {
        &&& self.len == n && self.wf() && self.sound == o.sound && self.ro == o.ro
        &&& part(self.log, o.log) && part(self.ends, o.ends)
        &&& forall|p: u64| #[trigger] o.ends.contains_key(p) && o.ends[p] <= n ==> self.ends.contains_key(p)
        &&& forall|p: u64| #[trigger] o.log.contains_key(p) && o.ends[p] <= n ==> self.log.contains_key(p)
    }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct Pack<V> { p: core::marker::PhantomData<V> }
impl<V> View for Pack<V> { type V = PackS<V>; uninterp spec fn view(&self) -> PackS<V>; }
impl<V> Pack<V> {
    #[verifier::external_body]
    pub fn append(&mut self, value: &V) -> (r: Result<u64, AppendError>)
        requires old(self)@.wf(),
        ensures part(old(self)@.log, final(self)@.log), part(old(self)@.ends, final(self)@.ends), final(self)@.ro == old(self)@.ro, old(self)@.len <= final(self)@.len, final(self)@.wf(),
            r matches Ok(at) ==> at == old(self)@.len && final(self)@.log.contains_key(at) && final(self)@.log[at] == *value && final(self)@.ends[at] == final(self)@.len
                && final(self)@.sound == old(self)@.sound,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch(&mut self, pos: u64) -> (r: Result<V, FetchError>)
        requires old(self)@.wf(),
        ensures final(self)@ == old(self)@, r matches Ok(v) ==> old(self)@.log.contains_key(pos) && old(self)@.log[pos] == v,
            old(self)@.sound && old(self)@.log.contains_key(pos) ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn record_size(&mut self, pos: u64) -> (r: Result<u32, FetchError>)
        requires old(self)@.wf(),
        ensures final(self)@ == old(self)@, r matches Ok(n) ==> old(self)@.ends.contains_key(pos) && old(self)@.ends[pos] == pos + n,
            old(self)@.sound && old(self)@.ends.contains_key(pos) ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, new_len: u64) -> (r: Result<(), io::Error>)
        requires old(self)@.wf(), 28 <= new_len < 0x1000_0000_0000_0000,
        ensures r is Ok && new_len <= old(self)@.len ==> final(self)@.cut(new_len, old(self)@), old(self)@.sound ==> r is Ok,
            // lengthened with zeroes, which are in no frame
            r is Ok && new_len > old(self)@.len ==> final(self)@.wf() && final(self)@.len == new_len && part(old(self)@.log, final(self)@.log) && part(old(self)@.ends, final(self)@.ends),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn file_len(&self) -> (r: u64) requires self@.wf(), ensures r == self@.len { unimplemented!() }
    #[verifier::external_body]
    pub fn read_only(&self) -> (r: bool) ensures r == self@.ro { unimplemented!() }
    #[verifier::external_body]
    pub fn commit(&mut self) -> (r: Result<(), CommitError>)
        requires old(self)@.wf(),
        ensures final(self)@ == old(self)@, r is Ok ==> saved_pack(old(self)@),
    { unimplemented!() }
}
/// what the files hold when they are opened
pub struct Path { pub dir: u64, pub name: u8 }
pub open spec fn file(p: Path, n: u8) -> Path { Path { dir: p.dir, name: n } }
pub uninterp spec fn fs_here(p: Path) -> bool;
pub uninterp spec fn fs_pack<V>(p: Path) -> PackS<V>;
pub uninterp spec fn fs_idx(p: Path) -> Seq<u64>;
pub uninterp spec fn fs_map(p: Path) -> Map<EpochDigest, u64>;
pub uninterp spec fn fs_dlen(p: Path) -> u64;
#[verifier::external_body]
pub fn vx_join(p: &Path, n: u8) -> (r: Path) ensures r == file(*p, n) { unimplemented!() }
#[verifier::external_body]
pub fn create_dir_synced(p: &Path) -> Result<(), io::Error> { unimplemented!() }
#[verifier::external_body]
pub fn vx_exists(p: Path) -> (r: bool) ensures r == fs_here(p) { unimplemented!() }
pub enum PackCompression { None, ZStd }
pub struct DataHeader { pub x: u64 }
impl<V> Pack<V> {
    #[verifier::external_body]
    pub fn open(path: Path, uid_idx: u64, ro: bool, c: PackCompression, version: u16) -> (r: Result<Self, OpenError>)
        ensures r matches Ok(x) ==> x@ == fs_pack::<V>(path) && x@.ro == ro,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn header(&self) -> &DataHeader { unimplemented!() }
}
impl PositionIndex<u64> {
    #[verifier::external_body]
    pub fn open_pdx_file(path: Path, h: &DataHeader, n: &str, ro: bool) -> (r: Result<Self, LoadHeaderError>)
        ensures r matches Ok(x) ==> x@ == fs_idx(path) && x.sound(),
    { unimplemented!() }
}
impl HdxIndex {
    #[verifier::external_body]
    pub fn open_hdx_file(path: Path, h: &DataHeader, b: (), ro: bool) -> (r: Result<Self, LoadHeaderError>)
        ensures r matches Ok(x) ==> x@ == fs_map(path) && x.dlen() == fs_dlen(path) && x.sound(),
    { unimplemented!() }
}
/// these contents are on the disk
pub uninterp spec fn saved_pack<V>(p: PackS<V>) -> bool;
pub uninterp spec fn saved_idx(s: Seq<u64>) -> bool;
pub uninterp spec fn saved_hash(m: Map<EpochDigest, u64>, n: u64) -> bool;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct PositionIndex<T> { p: core::marker::PhantomData<T> }
impl<T> View for PositionIndex<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> PositionIndex<T> {
    /// undamaged, the disk reads
    pub uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&mut self, key: u64) -> (r: Result<T, FetchError>)
        ensures final(self)@ == old(self)@, final(self).sound() == old(self).sound(), r matches Ok(v) ==> key < old(self)@.len() && v == old(self)@[key as int],
            old(self).sound() && key < old(self)@.len() ==> r is Ok, key >= old(self)@.len() ==> r == Err::<T, FetchError>(FetchError::NotFound),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn save(&mut self, key: u64, value: T) -> (r: Result<(), AppendError>)
        ensures final(self).sound() == old(self).sound(),
            r is Ok ==> key == old(self)@.len() && final(self)@ == old(self)@.push(value), r is Err ==> final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate_to_index(&mut self, key: u64) -> (r: Result<(), io::Error>)
        ensures r is Ok ==> final(self).sound() == old(self).sound() && final(self)@ == (if key < old(self)@.len() { old(self)@.take(key + 1) } else { old(self)@ }),
            old(self).sound() ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate_all(&mut self) -> (r: Result<(), io::Error>)
        ensures r is Ok ==> final(self).sound() == old(self).sound() && final(self)@ == Seq::<T>::empty(), old(self).sound() ==> r is Ok,
    { unimplemented!() }
}
impl PositionIndex<u64> {
    #[verifier::external_body]
    pub fn sync(&mut self) -> (r: Result<(), CommitError>)
        ensures final(self)@ == old(self)@, final(self).sound() == old(self).sound(), r is Ok ==> saved_idx(old(self)@),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct HdxIndex { x: u64 }
impl View for HdxIndex { type V = Map<EpochDigest, u64>; uninterp spec fn view(&self) -> Map<EpochDigest, u64>; }
impl HdxIndex {
    pub uninterp spec fn sound(&self) -> bool;
    pub uninterp spec fn dlen(&self) -> u64;
    #[verifier::external_body]
    pub fn load(&mut self, key: EpochDigest) -> (r: Result<u64, FetchError>)
        ensures final(self)@ == old(self)@, final(self).sound() == old(self).sound(), final(self).dlen() == old(self).dlen(),
            r matches Ok(v) ==> old(self)@.contains_key(key) && old(self)@[key] == v,
            r matches Err(FetchError::NotFound) ==> !old(self)@.contains_key(key),
            old(self).sound() && old(self)@.contains_key(key) ==> r is Ok,
            old(self).sound() && !old(self)@.contains_key(key) ==> r == Err::<u64, FetchError>(FetchError::NotFound),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn save(&mut self, key: EpochDigest, pos: u64) -> (r: Result<(), AppendError>)
        ensures final(self).sound() == old(self).sound(), final(self).dlen() == old(self).dlen(),
            r is Ok ==> final(self)@ == old(self)@.insert(key, pos), r is Err ==> final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_data_file_length(&mut self, n: u64) ensures final(self)@ == old(self)@, final(self).sound() == old(self).sound(), final(self).dlen() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn data_file_length(&self) -> (r: u64) ensures r == self.dlen() { unimplemented!() }
    #[verifier::external_body]
    pub fn sync(&mut self) -> (r: Result<(), CommitError>)
        ensures final(self)@ == old(self)@, final(self).sound() == old(self).sound(), final(self).dlen() == old(self).dlen(), r is Ok ==> saved_hash(old(self)@, old(self).dlen()),
    { unimplemented!() }
}
}
pub use vx_files::*;
pub const DATA_HEADER_BYTES: usize = 28;
//@fn file=crates/storage/src/consensus_pack.rs path="fn fetch_error_is_absent" ret=r
//@spec
    ensures r == (err is NotFound),
//@end
//@fn file=crates/storage/src/epoch_records.rs path="fn absent_to_none" ret=r
//@desugar res.map
//@desugar res.or_else
//@desugar opt.ok_or
//@desugar bool.then_some
//@spec
    ensures r == (match res { Ok(v) => Ok::<Option<T>, FetchError>(Some(v)), Err(e) => if e is NotFound { Ok::<Option<T>, FetchError>(None) } else { Err::<Option<T>, FetchError>(e) } }),
//@end
//@item file=crates/storage/src/epoch_records.rs path="struct Inner"
//@end
impl Inner {
    pub open spec fn n(self) -> int { self.epoch_idx@.len() as int }
    pub open spec fn sound(self) -> bool { self.records@.sound && self.certs@.sound && self.epoch_idx.sound() && self.record_digests.sound() && self.cert_digests.sound() }
    /// the i-th record of the chain stored
    pub open spec fn nth(self, i: int) -> EpochRecord { self.records@.log[self.epoch_idx@[i]] }
    /// the record of epoch `e`
    pub open spec fn stored(self, e: Epoch) -> Option<EpochRecord> {
        if e < self.n() { Some(self.nth(e as int)) } else if e == 0 { self.dummy_epoch0 } else { None }
    }
    pub open spec fn cert_of(self, d: EpochDigest) -> Option<EpochCertificate> {
        if self.cert_digests@.contains_key(d) { Some(self.certs@.log[self.cert_digests@[d]]) } else { None }
    }
    pub open spec fn certified(self, e: Epoch) -> bool { self.stored(e) matches Some(x) && self.cert_digests@.contains_key(dig(x)) }
    /// position i holds the record of epoch i, and its digest leads to a record with that digest
    pub open spec fn row(self, i: int) -> bool {
        let p = self.epoch_idx@[i];
        self.records@.log.contains_key(p) && self.records@.log[p].epoch == i && self.record_digests@.contains_key(dig(self.records@.log[p]))
    }
    pub open spec fn rows(self) -> bool { forall|i: int| 0 <= i < self.n() ==> #[trigger] self.row(i) }
    pub open spec fn named(self, d: EpochDigest) -> bool { self.records@.log.contains_key(self.record_digests@[d]) && dig(self.records@.log[self.record_digests@[d]]) == d }
    pub open spec fn digests(self) -> bool { forall|d: EpochDigest| self.record_digests@.contains_key(d) ==> #[trigger] self.named(d) }
    pub open spec fn certs_ok(self) -> bool { forall|d: EpochDigest| #[trigger] self.cert_digests@.contains_key(d) ==> self.certs@.log.contains_key(self.cert_digests@[d]) }
    /// the marks in the digest indexes reach the ends of the files: the next opening cuts nothing off
    pub open spec fn lens_r(self) -> bool { self.record_digests.dlen() == self.records@.len }
    pub open spec fn lens_c(self) -> bool { self.cert_digests.dlen() == self.certs@.len }
    pub open spec fn marked(self) -> bool { forall|e: Epoch| e < self.certified_watermark ==> #[trigger] self.certified(e) }
    pub open spec fn base(self) -> bool {
        &&& self.records@.wf() && self.certs@.wf() && self.start_epoch == 0 && self.n() < 0xffff_ffff
        &&& self.rows() && self.digests() && self.certs_ok()
        &&& self.dummy_epoch0 matches Some(x) ==> x.epoch == 0 && !self.cert_digests@.contains_key(dig(x))
    }
    pub open spec fn inv(self) -> bool { self.base() && self.marked() }
    /// reading changed nothing
    pub open spec fn same(self, o: Self) -> bool {
        &&& self.records@ == o.records@ && self.certs@ == o.certs@ && self.epoch_idx@ == o.epoch_idx@ && self.record_digests@ == o.record_digests@ && self.cert_digests@ == o.cert_digests@
        &&& self.start_epoch == o.start_epoch && self.dummy_epoch0 == o.dummy_epoch0 && self.certified_watermark == o.certified_watermark && self.sound() == o.sound()
        &&& self.record_digests.dlen() == o.record_digests.dlen() && self.cert_digests.dlen() == o.cert_digests.dlen()
    }
    /// nothing that was stored is lost or replaced
    pub open spec fn keeps(self, o: Self) -> bool {
        &&& forall|e: Epoch| e < o.n() ==> #[trigger] self.stored(e) == o.stored(e)
        &&& o.n() <= self.n() && part(o.records@.log, self.records@.log) && part(o.certs@.log, self.certs@.log)
        &&& forall|d: EpochDigest| #[trigger] o.cert_digests@.contains_key(d) ==> self.cert_digests@.contains_key(d) && (o.sound() ==> self.cert_of(d) == o.cert_of(d))
        &&& forall|d: EpochDigest| #[trigger] o.record_digests@.contains_key(d) ==> self.record_digests@.contains_key(d)
        &&& o.certified_watermark == self.certified_watermark && self.start_epoch == o.start_epoch && self.dummy_epoch0 == o.dummy_epoch0
    }
    /// reading keeps the invariant
    proof fn lemma_same(o: Self, s: Self) requires o.base(), s.same(o) ensures s.base(), o.marked() ==> s.marked(), forall|e: Epoch| #[trigger] s.certified(e) == o.certified(e), {
        assert forall|i: int| 0 <= i < s.n() implies #[trigger] s.row(i) by { assert(o.row(i)); }
        assert forall|d: EpochDigest| s.record_digests@.contains_key(d) implies #[trigger] s.named(d) by { assert(o.named(d)); }
        assert forall|e: Epoch| #[trigger] s.certified(e) == o.certified(e) by { assert(s.stored(e) == o.stored(e)); }
        if o.marked() { assert forall|e: Epoch| e < s.certified_watermark implies #[trigger] s.certified(e) by { assert(o.certified(e)); } }
    }
    proof fn lemma_then(o: Self, m: Self, s: Self) requires m.keeps(o), s.keeps(m), m.sound() == o.sound() ensures s.keeps(o) {
        assert forall|e: Epoch| e < o.n() implies #[trigger] s.stored(e) == o.stored(e) by { assert(m.stored(e) == o.stored(e)); assert(s.stored(e) == m.stored(e)); }
    }
    /// what is below the mark is stored
    proof fn lemma_mark(o: Self) requires o.base(), o.marked() ensures o.certified_watermark <= o.n(), forall|e: Epoch| e < o.certified_watermark ==> #[trigger] o.stored(e) == Some(o.nth(e as int)) {
        assert forall|e: Epoch| e < o.certified_watermark implies #[trigger] o.stored(e) == Some(o.nth(e as int)) && e < o.n() by { assert(o.certified(e)); }
        if o.certified_watermark > o.n() { let e = o.n() as u32; assert(o.stored(e) == Some(o.nth(e as int))); assert(o.certified(e)); }
    }
    /// `s` is `o` with entries added
    pub open spec fn grown(o: Self, s: Self) -> bool {
        &&& s.records@.wf()
        &&& s.certs@.wf()
        &&& part(o.records@.log, s.records@.log)
        &&& part(o.certs@.log, s.certs@.log)
        &&& o.epoch_idx@.is_prefix_of(s.epoch_idx@)
        &&& s.n() < 0xffff_ffff
        &&& forall|i: int| o.n() <= i < s.n() ==> #[trigger] s.row(i)
        &&& forall|d: EpochDigest| #[trigger] s.record_digests@.contains_key(d) ==> (o.record_digests@.contains_key(d) && s.record_digests@[d] == o.record_digests@[d]) || s.named(d)
        &&& forall|d: EpochDigest| #[trigger] o.record_digests@.contains_key(d) ==> s.record_digests@.contains_key(d)
        &&& forall|d: EpochDigest| #[trigger] o.cert_digests@.contains_key(d) ==> s.cert_digests@.contains_key(d) && (s.cert_digests@[d] == o.cert_digests@[d] || (!o.sound() && s.certs@.log.contains_key(s.cert_digests@[d])))
        &&& forall|d: EpochDigest| #[trigger] s.cert_digests@.contains_key(d) ==> o.cert_digests@.contains_key(d) || s.certs@.log.contains_key(s.cert_digests@[d])
        &&& s.start_epoch == o.start_epoch
        &&& s.dummy_epoch0 == o.dummy_epoch0
        &&& s.certified_watermark == o.certified_watermark
        &&& s.dummy_epoch0 matches Some(x) ==> !s.cert_digests@.contains_key(dig(x))
    }
    /// adding to the files keeps the invariant
    proof fn lemma_grow(o: Self, s: Self)
        requires o.base(), o.marked(), Self::grown(o, s),
        ensures s.base(), s.marked(), s.keeps(o),
    {
        Self::lemma_mark(o);
        assert forall|i: int| 0 <= i < o.n() implies #[trigger] s.row(i) && s.nth(i) == o.nth(i) by { assert(o.row(i)); assert(s.epoch_idx@[i] == o.epoch_idx@[i]); }
        assert forall|d: EpochDigest| s.record_digests@.contains_key(d) implies #[trigger] s.named(d) by { assert(o.record_digests@.contains_key(d) ==> o.named(d)); }
        assert forall|e: Epoch| e < o.n() implies #[trigger] s.stored(e) == o.stored(e) by { assert(s.row(e as int)); }
        assert forall|e: Epoch| e < s.certified_watermark implies #[trigger] s.certified(e) by { assert(o.certified(e)); assert(s.stored(e) == o.stored(e)); }
        assert forall|i: int| 0 <= i < s.n() implies #[trigger] s.row(i) by { }
    }
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn save_dummy_epoch0" ret=r
//@spec
    requires old(self).inv(), !old(self).cert_digests@.contains_key(dig(record)),
    ensures final(self).inv(), record.epoch == 0 <==> r is Ok, final(self).keeps(Inner { dummy_epoch0: final(self).dummy_epoch0, ..*old(self) }),
        final(self).dummy_epoch0 == (if record.epoch == 0 { Some(record) } else { old(self).dummy_epoch0 }),
//@head
    proof { Self::lemma_mark(*self); }
//@after? /self\.dummy_epoch0 = Some\(record\);/
    proof { assert forall|e: Epoch| e < self.certified_watermark implies #[trigger] self.certified(e) by { assert(old(self).certified(e)); assert(old(self).stored(e) == Some(old(self).nth(e as int))); }
        assert(self.rows()) by { assert forall|i: int| 0 <= i < self.n() implies #[trigger] self.row(i) by { assert(old(self).row(i)); } }
        assert(self.digests()) by { assert forall|d: EpochDigest| self.record_digests@.contains_key(d) implies #[trigger] self.named(d) by { assert(old(self).named(d)); } } }
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn save_record" ret=r
//@desugar res.map_err
//@sub? /\b(\w+)\.into\(\)/ => \1
//@sub? /\be\.to_string\(\)/ => vx_text()
//@sub? /format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ => vx_text()
//@spec
    requires old(self).inv(), record.epoch < 0xffff_fffe,
    ensures final(self).base(), final(self).marked(), final(self).keeps(*old(self)), final(self).cert_digests@ == old(self).cert_digests@, final(self).certs@ == old(self).certs@,
        // in order only
        record.epoch > old(self).n() ==> r is Err && final(self).same(*old(self)),
        record.epoch < old(self).n() ==> r is Ok && final(self).same(*old(self)),
        r is Ok ==> record.epoch < final(self).n() && final(self).stored(record.epoch) is Some,
        r is Ok && record.epoch == old(self).n() ==> final(self).n() == old(self).n() + 1 && final(self).stored(record.epoch) == Some(record)
            && final(self).record_digests@.contains_key(dig(record)),
        r is Err ==> final(self).n() == old(self).n(),
        r is Ok ==> final(self).sound() == old(self).sound(),
        r is Ok && old(self).lens_r() ==> final(self).lens_r(), r is Ok && record.epoch == old(self).n() ==> final(self).lens_r(), final(self).cert_digests.dlen() == old(self).cert_digests.dlen(),
//@head
    proof { assert forall|o: Inner, s: Inner| #![trigger o.base(), s.base()] #![trigger o.marked(), s.marked()] #![trigger o.base(), s.keeps(o)] o.base() && o.marked() && Inner::grown(o, s) implies s.base() && s.marked() && s.keeps(o) by { Self::lemma_grow(o, s); } }
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn save" ret=r
//@desugar res.map_err
//@desugar res.is_ok_and
//@sub? /\b(\w+)\.into\(\)/ => \1
//@sub? /\be\.to_string\(\)/ => vx_text()
//@sub? /format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ => vx_text()
//@spec
    requires old(self).inv(), record.epoch < 0xffff_fffe, old(self).dummy_epoch0 matches Some(x) ==> dig(x) != dig(record),
    ensures final(self).inv(), final(self).keeps(*old(self)),
        record.epoch > old(self).n() ==> r is Err && final(self).same(*old(self)),
        r is Ok ==> record.epoch < final(self).n() && final(self).cert_digests@.contains_key(dig(record)),
        // a certificate is stored under the digest of the record it came with; the first one stays
        old(self).sound() && r is Ok ==> final(self).cert_of(dig(record)) == (if old(self).cert_of(dig(record)) is Some { old(self).cert_of(dig(record)) } else { Some(cert) }),
        r is Ok && record.epoch == old(self).n() ==> final(self).stored(record.epoch) == Some(record),
        forall|d: EpochDigest| d != dig(record) ==> #[trigger] final(self).cert_of(d) == old(self).cert_of(d),
        r is Ok && old(self).lens_r() ==> final(self).lens_r(), r is Ok && old(self).lens_c() ==> final(self).lens_c(),
        // a certificate just stored lies below the mark
        r is Ok && old(self).sound() && old(self).cert_of(dig(record)) is None ==> final(self).lens_c(),
//@head
    proof { assert forall|o: Inner, s: Inner| #![trigger o.base(), s.base()] #![trigger o.marked(), s.marked()] #![trigger o.base(), s.keeps(o)] o.base() && o.marked() && Inner::grown(o, s) implies s.base() && s.marked() && s.keeps(o) by { Self::lemma_grow(o, s); } }
    proof { let o = *self; assert forall|m: Inner, s: Inner| #![trigger m.keeps(o), s.keeps(o)] m.keeps(o) && m.sound() == o.sound() && m.base() && m.marked() && Inner::grown(m, s) implies s.keeps(o) by { Self::lemma_grow(m, s); Self::lemma_then(o, m, s); } }
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn save_certificate" ret=r
//@desugar res.map_err
//@sub? /\b(\w+)\.into\(\)/ => \1
//@sub? /\be\.to_string\(\)/ => vx_text()
//@sub? /format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ => vx_text()
//@spec
    requires old(self).inv(), old(self).dummy_epoch0 matches Some(x) ==> dig(x) != digest,
    ensures final(self).inv(), final(self).keeps(*old(self)), final(self).n() == old(self).n(), final(self).records@ == old(self).records@, old(self).lens_r() ==> final(self).lens_r(),
        r is Ok ==> final(self).cert_digests@.contains_key(digest),
        old(self).sound() && r is Ok ==> final(self).cert_of(digest) == (if old(self).cert_of(digest) is Some { old(self).cert_of(digest) } else { Some(cert) }),
        forall|d: EpochDigest| d != digest ==> #[trigger] final(self).cert_of(d) == old(self).cert_of(d),
        r is Ok && old(self).lens_c() ==> final(self).lens_c(), r is Ok && old(self).sound() && old(self).cert_of(digest) is None ==> final(self).lens_c(),
//@head
    proof { assert forall|o: Inner, s: Inner| #![trigger o.base(), s.base()] #![trigger o.marked(), s.marked()] #![trigger o.base(), s.keeps(o)] o.base() && o.marked() && Inner::grown(o, s) implies s.base() && s.marked() && s.keeps(o) by { Self::lemma_grow(o, s); } }
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn try_record_by_epoch" ret=r
//@desugar opt.map_or
//@spec
    requires old(self).base(),
    ensures final(self).same(*old(self)), r matches Ok(Some(x)) ==> old(self).stored(epoch) == Some(x), old(self).stored(epoch) is None ==> r == Ok::<Option<EpochRecord>, FetchError>(None),
        old(self).sound() ==> r == Ok::<Option<EpochRecord>, FetchError>(old(self).stored(epoch)),
//@head
    proof { if epoch < self.n() { assert(self.row(epoch as int)); } }
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn record_by_epoch" ret=r
//@desugar res.ok
//@desugar opt.flatten
//@spec
    requires old(self).base(),
    ensures final(self).same(*old(self)), r is Some ==> r == old(self).stored(epoch), old(self).sound() ==> r == old(self).stored(epoch),
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn record_by_digest" ret=r
//@desugar res.ok
//@sub? /\b(\w+)\.into\(\)/ => \1
//@spec
    requires old(self).base(),
    ensures final(self).same(*old(self)), r matches Some(x) ==> dig(x) == digest && old(self).record_digests@.contains_key(digest),
        old(self).sound() ==> (r is Some) == old(self).record_digests@.contains_key(digest),
//@head
    proof { assert(self.record_digests@.contains_key(digest) ==> self.named(digest)); }
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn try_cert_by_digest" ret=r
//@desugar opt.map_or
//@sub? /\b(\w+)\.into\(\)/ => \1
//@spec
    requires old(self).base(),
    ensures final(self).same(*old(self)), r matches Ok(Some(x)) ==> old(self).cert_of(digest) == Some(x), old(self).sound() ==> r == Ok::<Option<EpochCertificate>, FetchError>(old(self).cert_of(digest)),
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn cert_by_digest" ret=r
//@desugar res.ok
//@desugar opt.flatten
//@spec
    requires old(self).base(),
    ensures final(self).same(*old(self)), r is Some ==> r == old(self).cert_of(digest), old(self).sound() ==> r == old(self).cert_of(digest),
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn contains_epoch" ret=r
//@spec
    requires self.base(),
    ensures r == (self.stored(epoch) is Some),
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn contains_dummy_epoch0" ret=r
//@spec
    ensures r == (self.n() == 0 && self.dummy_epoch0 is Some),
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn contains_record_digest" ret=r
//@sub? /\b(\w+)\.into\(\)/ => \1
//@spec
    requires old(self).base(),
    ensures final(self).same(*old(self)), r ==> old(self).record_digests@.contains_key(digest), old(self).sound() ==> r == old(self).record_digests@.contains_key(digest),
//@head
    proof { assert(self.record_digests@.contains_key(digest) ==> self.named(digest)); }
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn latest_record" ret=r
//@spec
    requires old(self).base(),
    ensures final(self).same(*old(self)), r matches Some(x) ==> (if old(self).n() == 0 { r == old(self).dummy_epoch0 } else { x == old(self).nth(old(self).n() - 1) && x.epoch == old(self).n() - 1 }),
        old(self).sound() ==> r == (if old(self).n() == 0 { old(self).dummy_epoch0 } else { Some(old(self).nth(old(self).n() - 1)) }),
//@head
    proof { if self.n() > 0 { assert(self.row(self.n() - 1)); assert(self.stored((self.n() - 1) as u32) == Some(self.nth(self.n() - 1))); } }
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn epoch_certified" ret=r
//@desugar opt.is_some_and
//@sub? /\b(\w+(?:\.digest\(\))?)\.into\(\)/ => \1
//@spec
    requires old(self).base(),
    ensures final(self).same(*old(self)), r ==> old(self).certified(epoch), old(self).sound() ==> r == old(self).certified(epoch),
//@end
    /// `(a..b).find(|e| !self.epoch_certified(*e))`, the loop that adapter is
    fn vx_find(&mut self, a: Epoch, b: Epoch) -> (r: Option<Epoch>)
        requires old(self).base(),
        ensures final(self).same(*old(self)),
            r is None ==> forall|e: Epoch| a <= e < b ==> #[trigger] old(self).certified(e),
            r matches Some(x) ==> a <= x < b && (forall|e: Epoch| a <= e < x ==> #[trigger] old(self).certified(e)) && (old(self).sound() ==> !old(self).certified(x)),
    {
        let mut e = a;
        while e < b
            invariant a <= e, a < b ==> e <= b, self.same(*old(self)), self.base(), old(self).base(), forall|x: Epoch| a <= x < e ==> #[trigger] old(self).certified(x),
            decreases b - e,
        {
            proof { assert(self.certified(e) == old(self).certified(e)); }
            let vx_c = self.epoch_certified(e);
            proof { Self::lemma_same(*old(self), *self); }
            if !vx_c { return Some(e); }
            e += 1;
        }
        None
    }
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn first_missing_historical_cert" ret=r
//@sub? /\((\w+)\.\.(\w+)\)\s*\.find\(\|(\w+)\| !self\.epoch_certified\(\*\3\)\)/ => self.vx_find(\1, \2)
//@sub? /self\.certified_watermark\.max\((\w+)\)/ => vx_max(self.certified_watermark, \1)
//@desugar opt.unwrap_or
//@desugar bool.then_some
//@spec
    requires old(self).base(), old(self).marked(),
    ensures final(self).inv(), final(self).keeps(Inner { certified_watermark: final(self).certified_watermark, ..*old(self) }), final(self).n() == old(self).n(),
        final(self).record_digests.dlen() == old(self).record_digests.dlen(), final(self).cert_digests.dlen() == old(self).cert_digests.dlen(),
        final(self).epoch_idx@ == old(self).epoch_idx@, final(self).records@ == old(self).records@, final(self).record_digests@ == old(self).record_digests@, final(self).cert_digests@ == old(self).cert_digests@, final(self).certs@ == old(self).certs@,
        // nothing missing: every epoch before the tip has a record and a certificate under its digest
        r is None ==> forall|e: Epoch| e < tip_epoch ==> #[trigger] old(self).certified(e),
        // the first one missing
        r matches Some(x) ==> x < tip_epoch && (forall|e: Epoch| e < x ==> #[trigger] old(self).certified(e)) && (old(self).sound() ==> !old(self).certified(x)),
//@head
    proof { assert forall|s: Inner| #[trigger] s.same(*self) implies s.base() && s.marked() && (forall|e: Epoch| #[trigger] s.certified(e) == self.certified(e)) by { Self::lemma_same(*self, s); }
        assert forall|s: Inner| #![trigger s.base()] #![trigger s.marked()] s.same(Inner { certified_watermark: s.certified_watermark, ..*self }) && (forall|e: Epoch| e < s.certified_watermark ==> #[trigger] self.certified(e)) implies s.base() && s.marked() by {
            assert forall|i: int| 0 <= i < s.n() implies #[trigger] s.row(i) by { assert(self.row(i)); }
            assert forall|d: EpochDigest| s.record_digests@.contains_key(d) implies #[trigger] s.named(d) by { assert(self.named(d)); }
            assert forall|e: Epoch| e < s.certified_watermark implies #[trigger] s.certified(e) by { assert(self.certified(e)); assert(s.stored(e) == self.stored(e)); }
        } }
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn persist" ret=r
//@desugar res.map_err
//@sub? /\be\.to_string\(\)/ => vx_text()
//@spec
    requires old(self).inv(),
    ensures final(self).same(*old(self)), final(self).inv(),
        // everything is on the disk
        r is Ok && !old(self).records@.ro ==> saved_pack(old(self).records@) && saved_pack(old(self).certs@) && saved_idx(old(self).epoch_idx@)
            && saved_hash(old(self).record_digests@, old(self).record_digests.dlen()) && saved_hash(old(self).cert_digests@, old(self).cert_digests.dlen()),
//@head
    proof { assert forall|o: Inner, s: Inner| #![trigger o.base(), s.base()] #![trigger o.marked(), s.marked()] #![trigger o.base(), s.keeps(o)] o.base() && o.marked() && Inner::grown(o, s) implies s.base() && s.marked() && s.keeps(o) by { Self::lemma_grow(o, s); } }
//@end
    // ------------------------------------------------------------ opening after a stop at any point
    pub const RECORDS_NAME: u8 = 1; pub const CERTS_NAME: u8 = 2; pub const EPOCH_POS_NAME: u8 = 3; pub const RECORD_HASH_NAME: u8 = 4; pub const CERT_HASH_NAME: u8 = 5;
    pub const PACK_EPOCH: u64 = 0; pub const CERT_PACK_EPOCH: u64 = 1;
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn heal_records" ret=r
//@desugar res.unwrap_or
//@sub? /size_res\.unwrap_or_default\(\)/ => vx_or0(size_res)
//@spec
    requires exists|t: Tale| #[trigger] t.left(old(records)@, old(epoch_idx)@, record_digests@, record_digests.dlen()), old(epoch_idx).sound(), old(records)@.sound,
    ensures r is Ok ==> final(epoch_idx).sound() && final(records)@.sound && final(records)@.ro == old(records)@.ro,
        r is Ok ==> forall|t: Tale| #[trigger] t.left(old(records)@, old(epoch_idx)@, record_digests@, record_digests.dlen()) ==> t.healed(final(records)@, final(epoch_idx)@, record_digests@, record_digests.dlen()),
//@head
    let ghost vx_t = choose|t: Tale| #[trigger] t.left(records@, epoch_idx@, record_digests@, record_digests.dlen());
//@before? /let records_len = records\.file_len\(\);\s*if !epoch_idx/
    let ghost vx_r1 = records@;
    proof {
        assert forall|t: Tale| #[trigger] t.left(old(records)@, epoch_idx@, record_digests@, record_digests.dlen()) implies t.left(vx_r1, epoch_idx@, record_digests@, record_digests.dlen()) by {
            t.lemma_cut(old(records)@, vx_r1, epoch_idx@, record_digests@, record_digests.dlen()); }
    }
//@loop 0
    invariant_except_break
        idx < epoch_idx@.len(), epoch_idx@ == old(epoch_idx)@, records@ == vx_r1, new_len == vx_r1.len,
        forall|j: int| idx < j < old(epoch_idx)@.len() ==> !vx_r1.ends.contains_key(#[trigger] old(epoch_idx)@[j]),
    invariant
        vx_r1.wf(), vx_r1.sound, epoch_idx.sound(), records@ == vx_r1, records_len == vx_r1.len,
    ensures
        healed_to(vx_r1, old(epoch_idx)@, epoch_idx@, new_len),
    decreases idx,
//@before? /if new_len != records_len/
    proof { if epoch_idx@.len() > 0 { vx_t.lemma_order(vx_r1, old(epoch_idx)@, record_digests@, record_digests.dlen(), epoch_idx@.len() - 1, epoch_idx@.len() - 1); } }
//@tail vx_r
    proof {
        assert forall|t: Tale| #[trigger] t.left(old(records)@, old(epoch_idx)@, record_digests@, record_digests.dlen()) implies t.healed(records@, epoch_idx@, record_digests@, record_digests.dlen()) by {
            let l = record_digests.dlen();
            assert(t.left(vx_r1, old(epoch_idx)@, record_digests@, l));
            if old(epoch_idx)@.len() > 0 {
                let n = records@.len;
                assert(healed_to(vx_r1, old(epoch_idx)@, epoch_idx@, n));
                t.lemma_back(vx_r1, old(epoch_idx)@, epoch_idx@, n, records@, record_digests@, l);
            } else { t.lemma_none(vx_r1, old(epoch_idx)@, record_digests@, l); }
        }
    }
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn heal_record_digests" ret=r
//@desugar res.map_err
//@sub? /\b(\w+)\.into\(\)/ => \1
//@sub? /format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ => vx_text()
//@spec
    requires exists|t: Tale| #[trigger] t.healed(old(records)@, old(epoch_idx)@, old(record_digests)@, old(record_digests).dlen()),
    ensures final(records)@ == old(records)@, final(epoch_idx)@ == old(epoch_idx)@, final(epoch_idx).sound() == old(epoch_idx).sound(), final(record_digests).sound() == old(record_digests).sound(),
        r is Ok ==> forall|t: Tale| #[trigger] t.healed(old(records)@, old(epoch_idx)@, old(record_digests)@, old(record_digests).dlen()) ==> t.whole(final(records)@, final(epoch_idx)@, final(record_digests)@),
//@loop 0
    invariant
        records@ == old(records)@, epoch_idx@ == old(epoch_idx)@, epoch_idx.sound() == old(epoch_idx).sound(), record_digests.sound() == old(record_digests).sound(), digest_final == old(record_digests).dlen(),
        exists|t: Tale| #[trigger] t.healed(old(records)@, old(epoch_idx)@, old(record_digests)@, old(record_digests).dlen()),
        forall|t: Tale| #[trigger] t.healed(old(records)@, old(epoch_idx)@, old(record_digests)@, old(record_digests).dlen()) ==> t.partly(old(records)@, old(epoch_idx)@, record_digests@, idx as int),
//@loophead 0
    let ghost vx_d = record_digests@;
    proof { assert(forall|t: Tale| #[trigger] t.healed(old(records)@, old(epoch_idx)@, old(record_digests)@, old(record_digests).dlen()) ==> t.there(old(records)@, old(epoch_idx)@, idx as int)); }
//@loopend 0
    proof {
        assert forall|t: Tale| #[trigger] t.healed(old(records)@, old(epoch_idx)@, old(record_digests)@, old(record_digests).dlen()) implies t.partly(old(records)@, old(epoch_idx)@, record_digests@, idx + 1) by {
            assert(t.partly(old(records)@, old(epoch_idx)@, vx_d, idx as int));
            assert(t.there(old(records)@, old(epoch_idx)@, idx as int));
            assert(t.m <= idx ==> old(record_digests).dlen() <= old(epoch_idx)@[idx as int]);
            assert forall|x: EpochDigest| record_digests@.contains_key(x) implies #[trigger] t.names(old(records)@, record_digests@, x) by { assert(vx_d.contains_key(x) ==> t.names(old(records)@, vx_d, x)); }
            assert forall|i: int| 0 <= i < t.m || 0 <= i < idx + 1 implies record_digests@.contains_key(dig(#[trigger] t.h[i])) by { if i < t.m || i < idx { assert(vx_d.contains_key(dig(t.h[i]))); } }
        }
    }
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn heal_certs" ret=r
//@spec
    requires certs_left(old(certs)@, cert_digests@, cert_digests.dlen()),
    ensures r is Ok ==> final(certs)@.wf() && final(certs)@.ro == old(certs)@.ro && final(certs)@.sound == old(certs)@.sound
        && forall|d: EpochDigest| #[trigger] cert_digests@.contains_key(d) ==> final(certs)@.log.contains_key(cert_digests@[d]) && final(certs)@.log[cert_digests@[d]] == old(certs)@.log[cert_digests@[d]],
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn seed_certified_watermark"
//@sub? /Epoch::try_from\(([^()]*(?:\([^()]*\))?)\)\.unwrap_or\(Epoch::MAX\)/ => vx_epoch(\1)
//@spec
    requires old(self).base(), old(self).marked(),
    ensures final(self).inv(), final(self).keeps(Inner { certified_watermark: final(self).certified_watermark, ..*old(self) }), final(self).n() == old(self).n(),
        final(self).cert_digests@ == old(self).cert_digests@, final(self).certs@ == old(self).certs@, final(self).records@ == old(self).records@, final(self).epoch_idx@ == old(self).epoch_idx@,
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl Inner :: fn open_append" ret=r
//@sub? /<P: AsRef<Path>>/ =>
//@sub? /path: P\b/ => path: &Path
//@sub? /path\.as_ref\(\)/ => path
//@sub? /std::fs::exists\(base_dir\.join\(Self::(\w+)\)\)\.unwrap_or_default\(\)/ => vx_exists(vx_join(base_dir, Self::\1))
//@sub? /base_dir\.join\(/ => vx_join(base_dir,
//@sub? /BuildHasherDefault::<FxHasher>::default\(\)/ => ()
//@sub? /\be\.to_string\(\)/ => vx_text()
//@desugar res.map_err
//@spec
    requires start_epoch == 0, exists|t: Tale| #[trigger] t.on_disk(*path),
    ensures r matches Ok(x) ==> x.inv() && x.dummy_epoch0 is None
        && (forall|t: Tale| #[trigger] t.on_disk(*path) ==> t.told(x))
        // every certificate the index on the disk names is there
        && forall|d: EpochDigest| #[trigger] fs_map(file(*path, 5)).contains_key(d) ==> x.cert_of(d) == Some(fs_pack::<EpochCertificate>(file(*path, 2)).log[fs_map(file(*path, 5))[d]]),
//@before? /Self::heal_records\(/
    proof {
        assert forall|t: Tale| #[trigger] t.on_disk(*path) implies t.left(records@, epoch_idx@, record_digests@, record_digests.dlen()) by {
            assert(t.left(records@, epoch_idx@, record_digests@, fs_dlen(file(*path, 4))));
        }
    }
//@after? /Self::heal_records\([^;]*;/
    proof { assert forall|t: Tale| #[trigger] t.on_disk(*path) implies t.healed(records@, epoch_idx@, record_digests@, record_digests.dlen()) by { } }
//@after? /Self::heal_record_digests\([^;]*;/
    let ghost vx_rec = records@; let ghost vx_idx = epoch_idx@; let ghost vx_dig = record_digests@;
    proof {
        assert forall|t: Tale| #[trigger] t.on_disk(*path) implies t.whole(records@, epoch_idx@, record_digests@) by { }
        let t = choose|t: Tale| #[trigger] t.on_disk(*path);
        if epoch_idx@.len() > 0 { assert(t.there(records@, epoch_idx@, 0)); assert(t.h[0].epoch == 0); }
    }
//@after? /certified_watermark: 0,\s*\};/
    proof {
        let t = choose|t: Tale| #[trigger] t.on_disk(*path);
        assert forall|i: int| 0 <= i < inner.n() implies #[trigger] inner.row(i) by { assert(t.there(vx_rec, vx_idx, i)); assert(vx_dig.contains_key(dig(t.h[i]))); }
        assert forall|d: EpochDigest| inner.record_digests@.contains_key(d) implies #[trigger] inner.named(d) by { assert(t.names(vx_rec, vx_dig, d)); }
    }
//@before? /Ok\(inner\)\s*\}\s*$/
    proof {
        assert forall|t: Tale| #[trigger] t.on_disk(*path) implies t.told(inner) by {
            assert(t.whole(vx_rec, vx_idx, vx_dig));
            assert forall|i: int| 0 <= i < inner.n() implies #[trigger] inner.nth(i) == t.h[i] by { assert(t.there(vx_rec, vx_idx, i)); }
        }
    }
//@end
}
pub fn vx_or0(r: Result<u32, FetchError>) -> (x: u32) ensures x == (match r { Ok(n) => n, Err(_) => 0u32 }) { match r { Ok(n) => n, Err(_) => 0 } }
pub const EPOCH_PACK_VERSION: u16 = 0;
/// what was saved before the stop: the records in order, where each ended in the file, how many the last complete persist
/// covered, how many the digest index on the disk covers
pub struct Tale { pub h: Seq<EpochRecord>, pub ends: Seq<u64>, pub kept: int, pub m: int }
impl Tale {
    /// a stop at any point leaves: the records file a prefix of what was written, the positions a prefix of theirs, the digest
    /// index of some completed sync, each file not behind the last complete persist (files are written in the order records,
    /// certificates, positions, digests)
    pub open spec fn left(self, r: PackS<EpochRecord>, idx: Seq<u64>, d: Map<EpochDigest, u64>, l: u64) -> bool {
        &&& r.wf() && 0 <= self.kept <= self.m <= idx.len() <= self.h.len() < 0xffff_ffff && self.ends.len() == self.h.len()
        &&& forall|i: int| 0 <= i < self.h.len() ==> (#[trigger] self.h[i]).epoch == i
        &&& forall|i: int| 0 <= i < idx.len() ==> #[trigger] self.at(r, idx, i)
        &&& forall|i: int, j: int| #![trigger self.ends[i], idx[j]] 0 <= i < j < idx.len() ==> self.ends[i] <= idx[j]
        &&& self.m > 0 ==> l > 28 && l == self.ends[self.m - 1]
        &&& self.m == 0 ==> l <= 28
        &&& l <= r.len && forall|i: int| self.m <= i < idx.len() ==> l <= #[trigger] idx[i]
        &&& forall|x: EpochDigest| #[trigger] d.contains_key(x) ==> r.log.contains_key(d[x]) && r.ends[d[x]] <= l && dig(r.log[d[x]]) == x
        &&& forall|i: int| 0 <= i < self.m ==> d.contains_key(dig(#[trigger] self.h[i]))
    }
    /// the i-th record is in the file if all of it was written
    pub open spec fn at(self, r: PackS<EpochRecord>, idx: Seq<u64>, i: int) -> bool {
        &&& 28 <= idx[i] < self.ends[i] < 0x1000_0000_0000_0000
        &&& r.ends.contains_key(idx[i]) <==> self.ends[i] <= r.len
        &&& r.ends.contains_key(idx[i]) ==> r.ends[idx[i]] == self.ends[i] && r.log.contains_key(idx[i]) && r.log[idx[i]] == self.h[i]
    }
    pub proof fn lemma_cut(self, r0: PackS<EpochRecord>, r1: PackS<EpochRecord>, idx: Seq<u64>, d: Map<EpochDigest, u64>, l: u64)
        requires self.left(r0, idx, d, l), r1 == r0 || (l > 28 && r1.cut(l, r0)),
        ensures self.left(r1, idx, d, l),
    {
        assert forall|i: int| 0 <= i < idx.len() implies #[trigger] self.at(r1, idx, i) by {
            assert(self.at(r0, idx, i)); let q = idx[i];
            if r1.ends.contains_key(q) { assert(r1.ends[q] <= r1.len); assert(r0.ends.contains_key(q)); assert(r0.log.contains_key(q)); assert(r1.log.contains_key(q)); }
            if self.ends[i] <= r1.len { assert(r0.ends.contains_key(q)); assert(r1.ends.contains_key(q)); }
        }
        assert forall|x: EpochDigest| #[trigger] d.contains_key(x) implies r1.log.contains_key(d[x]) && r1.ends[d[x]] <= l && dig(r1.log[d[x]]) == x by { assert(r0.log.contains_key(d[x])); assert(r1.ends.contains_key(d[x])); }
        assert(l <= r1.len); assert(r1.wf());
    }
    pub proof fn lemma_none(self, r: PackS<EpochRecord>, idx: Seq<u64>, d: Map<EpochDigest, u64>, l: u64)
        requires self.left(r, idx, d, l), idx.len() == 0,
        ensures self.healed(r, idx, d, l),
    { assert forall|x: EpochDigest| d.contains_key(x) implies #[trigger] self.names(r, d, x) by { } }
    pub proof fn lemma_order(self, r: PackS<EpochRecord>, idx: Seq<u64>, d: Map<EpochDigest, u64>, l: u64, i: int, j: int)
        requires self.left(r, idx, d, l), 0 <= i <= j < idx.len(),
        ensures self.ends[i] <= self.ends[j], self.at(r, idx, i), self.at(r, idx, j),
    { assert(self.at(r, idx, i)); assert(self.at(r, idx, j)); if i < j { assert(self.ends[i] <= idx[j]); } }
    pub proof fn lemma_back(self, r1: PackS<EpochRecord>, i0: Seq<u64>, i2: Seq<u64>, n: u64, r2: PackS<EpochRecord>, d: Map<EpochDigest, u64>, l: u64)
        requires self.left(r1, i0, d, l), healed_to(r1, i0, i2, n), (r2 == r1 && n == r1.len) || r2.cut(n, r1),
        ensures self.healed(r2, i2, d, l),
    {
        if self.m > 0 { self.lemma_order(r1, i0, d, l, self.m - 1, self.m - 1); assert(r1.ends.contains_key(i0[self.m - 1])); }
        assert forall|i: int| 0 <= i < i2.len() implies #[trigger] self.there(r2, i2, i) by { self.lemma_order(r1, i0, d, l, i, i2.len() - 1); }
        if i2.len() > 0 { let j = i2.len() - 1; self.lemma_order(r1, i0, d, l, j, j); if self.m > 0 { self.lemma_order(r1, i0, d, l, self.m - 1, j); } }
        assert forall|x: EpochDigest| d.contains_key(x) implies #[trigger] self.names(r2, d, x) by { }
        assert forall|i: int| self.m <= i < i2.len() implies l <= #[trigger] i2[i] by { assert(i2[i] == i0[i]); }
    }
    pub open spec fn there(self, r: PackS<EpochRecord>, idx: Seq<u64>, i: int) -> bool { 28 <= idx[i] && r.log.contains_key(idx[i]) && r.log[idx[i]] == self.h[i] }
    pub open spec fn kept_rows(self, r: PackS<EpochRecord>, idx: Seq<u64>) -> bool {
        &&& r.wf() && self.kept <= idx.len() <= self.h.len() < 0xffff_ffff
        &&& forall|i: int| 0 <= i < self.h.len() ==> (#[trigger] self.h[i]).epoch == i
        &&& forall|i: int| 0 <= i < idx.len() ==> #[trigger] self.there(r, idx, i)
    }
    pub open spec fn names(self, r: PackS<EpochRecord>, d: Map<EpochDigest, u64>, x: EpochDigest) -> bool { r.log.contains_key(d[x]) && dig(r.log[d[x]]) == x }
    pub open spec fn healed(self, r: PackS<EpochRecord>, idx: Seq<u64>, d: Map<EpochDigest, u64>, l: u64) -> bool {
        &&& self.kept_rows(r, idx) && self.kept <= self.m <= idx.len()
        &&& forall|i: int| self.m <= i < idx.len() ==> l <= #[trigger] idx[i]
        &&& forall|x: EpochDigest| d.contains_key(x) ==> #[trigger] self.names(r, d, x)
        &&& forall|i: int| 0 <= i < self.m ==> d.contains_key(dig(#[trigger] self.h[i]))
    }
    /// the first `n` digests are named
    pub open spec fn partly(self, r: PackS<EpochRecord>, idx: Seq<u64>, d: Map<EpochDigest, u64>, n: int) -> bool {
        &&& self.kept_rows(r, idx) && self.kept <= self.m <= idx.len()
        &&& forall|x: EpochDigest| d.contains_key(x) ==> #[trigger] self.names(r, d, x)
        &&& forall|i: int| 0 <= i < self.m || 0 <= i < n ==> d.contains_key(dig(#[trigger] self.h[i]))
    }
    pub open spec fn whole(self, r: PackS<EpochRecord>, idx: Seq<u64>, d: Map<EpochDigest, u64>) -> bool {
        &&& self.kept_rows(r, idx)
        &&& forall|x: EpochDigest| d.contains_key(x) ==> #[trigger] self.names(r, d, x)
        &&& forall|i: int| 0 <= i < idx.len() ==> d.contains_key(dig(#[trigger] self.h[i]))
    }
    pub open spec fn on_disk(self, p: Path) -> bool {
        &&& self.left(fs_pack::<EpochRecord>(file(p, 1)), fs_idx(file(p, 3)), fs_map(file(p, 4)), fs_dlen(file(p, 4)))
        &&& fs_pack::<EpochRecord>(file(p, 1)).sound
        &&& certs_left(fs_pack::<EpochCertificate>(file(p, 2)), fs_map(file(p, 5)), fs_dlen(file(p, 5)))
        // nothing was there before
        &&& !fs_here(file(p, 1)) ==> fs_pack::<EpochRecord>(file(p, 1)).len == 28 && fs_idx(file(p, 3)).len() == 0 && fs_pack::<EpochCertificate>(file(p, 2)).len == 28
    }
    /// the store answers with what was saved, as far as it reached, and at least what was persisted
    pub open spec fn told(self, x: Inner) -> bool { self.kept <= x.n() <= self.h.len() && forall|i: int| 0 <= i < x.n() ==> #[trigger] x.nth(i) == self.h[i] }
}
/// the index cut back to the last position with a readable record, which ends at `n`
pub open spec fn healed_to(r: PackS<EpochRecord>, i0: Seq<u64>, i1: Seq<u64>, n: u64) -> bool {
    if i1.len() == 0 { n == r.len && forall|j: int| 0 <= j < i0.len() ==> !r.ends.contains_key(#[trigger] i0[j]) }
    else {
        i1.len() <= i0.len() && i1 == i0.take(i1.len() as int) && r.ends.contains_key(i0[i1.len() - 1]) && n == r.ends[i0[i1.len() - 1]]
        && forall|j: int| i1.len() <= j < i0.len() ==> !r.ends.contains_key(#[trigger] i0[j])
    }
}
pub open spec fn certs_left(c: PackS<EpochCertificate>, d: Map<EpochDigest, u64>, l: u64) -> bool {
    &&& c.wf() && l <= c.len
    &&& forall|x: EpochDigest| #[trigger] d.contains_key(x) ==> c.log.contains_key(d[x]) && c.ends[d[x]] <= l
}
/// the epochs' last numbers, in order
pub struct EpochRecordDb { pub final_numbers: Vec<u64> }
pub open spec fn rising(s: Seq<u64>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] <= s[j] }
/// assumed contract of `<[u64]>::partition_point` on a rising list, for a test that stays false once it is
pub trait VxPart {
    spec fn nums(&self) -> Seq<u64>;
    fn vx_partition_point<F: Fn(&u64) -> bool>(&self, f: F) -> (r: usize)
    requires forall|x: &u64| f.requires((x,)), forall|x: &u64, y: &u64| #![trigger f.ensures((y,), true), f.ensures((x,), false)] *x <= *y && f.ensures((y,), true) ==> !f.ensures((x,), false),
    ensures r <= self.nums().len(),
        rising(self.nums()) ==> (forall|i: int| 0 <= i < r ==> f.ensures((&#[trigger] self.nums()[i],), true)) && (forall|i: int| r <= i < self.nums().len() ==> f.ensures((&#[trigger] self.nums()[i],), false)),
    ;
}
impl VxPart for Vec<u64> {
    open spec fn nums(&self) -> Seq<u64> { self@ }
#[verifier::external_body]
fn vx_partition_point<F: Fn(&u64) -> bool>(&self, f: F) -> (r: usize)
{ unimplemented!() }
}
impl EpochRecordDb {
//@fn file=crates/storage/src/epoch_records.rs path="impl EpochRecordDb :: fn update_finals" ret=r
//@sub /\(&self,/ => (&mut self,
//@sub /let mut finals = self\.final_numbers\.lock\(\);/ => let finals = &mut self.final_numbers;
//@spec
    requires old(self).final_numbers@.len() < 0xffff_ffff,
    ensures
        record.epoch > old(self).final_numbers@.len() <==> r is Err, r is Err ==> final(self).final_numbers@ == old(self).final_numbers@,
        r is Ok ==> record.epoch < final(self).final_numbers@.len() && final(self).final_numbers@[record.epoch as int] == record.final_consensus.number
            && (forall|i: int| 0 <= i < old(self).final_numbers@.len() && i != record.epoch ==> final(self).final_numbers@[i] == old(self).final_numbers@[i])
            && final(self).final_numbers@.len() == (if record.epoch < old(self).final_numbers@.len() { old(self).final_numbers@.len() } else { old(self).final_numbers@.len() + 1 }),
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl EpochRecordDb :: fn number_to_epoch" ret=r
//@sub /let finals = self\.final_numbers\.lock\(\);/ => let finals = &self.final_numbers;
//@sub? /\.partition_point\(/ => .vx_partition_point(
//@clos vx_partition_point.0? &u64 -> (b: bool)
    ensures b == (number > *$0)
//@spec
    requires self.final_numbers@.len() < 0xffff_ffff,
    ensures
        // the first epoch that does not end before the number
        rising(self.final_numbers@) ==> r <= self.final_numbers@.len() && (forall|i: int| 0 <= i < r ==> #[trigger] self.final_numbers@[i] < number) && (r < self.final_numbers@.len() ==> number <= self.final_numbers@[r as int]),
//@end
}
} // verus!
fn main() {}
