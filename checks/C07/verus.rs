// C07: which certificates are accepted, and when
#![allow(unused_imports, irrefutable_let_patterns)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use std::sync::Arc;
verus! {
//@include lib/verus/result.rs
//@include lib/verus/question.rs
//@include lib/verus/viter.rs
//@include lib/verus/btree.rs
//@include lib/verus/hashmap.rs
//@known IndexMap BlockNumHash Committee Authority Arc HashSet VecDeque CertManagerError ConsensusBus ConsensusConfig CertificatesAggregatorManager GarbageCollector GarbageCollectorError SignatureVerificationState
broadcast use {vx_btree::group_btree, vx_q::ax_question};
pub type Round = u32; pub type Epoch = u32; pub type TimestampSec = u64; pub type WorkerId = u16;
macro_rules! vx_id { ($n:ident, $t:ty) => { verus! {
    #[derive(Clone, Copy)] pub struct $n(pub $t);
    impl vstd::std_specs::cmp::PartialEqSpecImpl for $n { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
} } }
vx_id!(HeaderDigest, u64); vx_id!(AuthorityIdentifier, u64); vx_id!(BlsSignature, u64); vx_id!(BlockHash, u64); vx_id!(BlockNumHash, u64);
pub struct IndexMap<K, V> { pub e: Vec<(K, V)> }
// ---------------------------------------------------------------- headers (C04), certificates (C02)
//@item file=crates/types/src/primary/header.rs path="struct HeaderInner"
//@end
//@item file=crates/types/src/primary/header.rs path="struct Header"
//@end
//@item file=crates/types/src/primary/certificate.rs path="enum SignatureVerificationState" attr="#[derive(Clone, Copy)]"
//@end
pub struct RoaringBitmap { pub x: u64 }
pub mod roaring { pub use super::RoaringBitmap; }
//@item file=crates/types/src/primary/certificate.rs path="struct Certificate"
//@end
pub mod vx_b {
use vstd::prelude::*;
use super::*;
/// the round of the header with this digest (digests stand for one header, C04)
pub uninterp spec fn rnd(d: HeaderDigest) -> Round;
}
pub use vx_b::rnd;
/// a quorum voted only for headers whose digest is that of the fields and whose parents are all of the round before (C02, C06)
pub proof fn ax_cert(c: Certificate) requires c.sure() ensures c.rd() == rnd(c.dig()), forall|p: HeaderDigest| #[trigger] c.pars().contains(p) ==> c.rd() == rnd(p) + 1 { admit(); }
impl Clone for Certificate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Header {
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn round" ret=r
//@spec
    ensures r == self.inner.round,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn parents" ret=r
//@spec
    ensures *r == self.inner.parents,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn digest" ret=r
//@spec
    ensures r == self.inner.digest,
//@end
}
impl Certificate {
    pub open spec fn rd(self) -> Round { self.header.inner.round }
    pub open spec fn dig(self) -> HeaderDigest { self.header.inner.digest }
    pub open spec fn pars(self) -> Set<HeaderDigest> { self.header.inner.parents@ }
    /// its signatures were checked, or vouched for by a checked certificate (C02)
    pub open spec fn sure(self) -> bool { self.signature_verification_state is VerifiedDirectly || self.signature_verification_state is VerifiedIndirectly || self.signature_verification_state is Genesis }
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn header" ret=r
//@spec
    ensures *r == self.header,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn round" ret=r
//@spec
    ensures r == self.rd(),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Hash for Certificate :: fn digest" ret=r rename=digest
//@sub? /Self::TypedDigest/ => HeaderDigest
//@spec
    ensures r == self.dig(),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn is_verified" ret=r
//@spec
    ensures r == self.sure(),
//@end
}
// ---------------------------------------------------------------- collections
pub mod vx_hs {
use vstd::prelude::*;
use super::vx_viter::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: core::marker::PhantomData<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
/// `s` lists every element once
pub open spec fn enums<K>(s: Seq<K>, m: Set<K>) -> bool { s.no_duplicates() && s.to_set() == m && forall|k: K| #[trigger] m.contains(k) <==> s.contains(k) }
impl<K> FromSeq<K> for HashSet<K> { open spec fn built(s: Seq<K>, r: Self) -> bool { r@ == s.to_set() } }
impl<K> HashSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: VIter<&'a K>) ensures lref(r@, self@) { unimplemented!() }
}
impl<K> Clone for HashSet<K> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn vx_hs_vec<K>(s: HashSet<K>) -> (r: VIter<K>) ensures enums(r@, s@) { unimplemented!() }
/// the same, by reference
pub open spec fn lref<K>(s: Seq<&K>, m: Set<K>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]) != *(#[trigger] s[j])
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains(*(#[trigger] s[i]))
    &&& forall|d: K| #[trigger] m.contains(d) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == d
}
#[verifier::external_body] pub fn vx_hs_ref<'a, K>(s: &'a HashSet<K>) -> (r: VIter<&'a K>) ensures lref(r@, s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_hs_eq<K>(a: &HashSet<K>, b: &HashSet<K>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
}
pub use vx_hs::*;
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures
            r matches Some(v) ==> old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            r is None ==> !old(self)@.contains_key(*k) && *final(self) == *old(self),
    { unimplemented!() }
}
pub struct VecDeque<T> { pub v: Vec<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T> VecDeque<T> {
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { VecDeque { v: Vec::new() } }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    #[verifier::external_body] pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>) ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>) ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn append(&mut self, o: &mut VecDeque<T>) ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<T>::empty() { unimplemented!() }
    pub fn iter(&self) -> (r: VIter<&T>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *(r@[i]) == self@[i] { vx_it(&self.v) }
    #[verifier::external_body] pub fn vx_all(self) -> (r: VIter<T>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub fn vx_it<T>(v: &Vec<T>) -> (r: VIter<&T>) ensures r@.len() == v@.len(), v@.len() <= usize::MAX, forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> *(r@[i]) == v@[i] { unimplemented!() }
pub type Key = (Round, HeaderDigest);
pub type Wanted = BTreeMap<Key, HashSet<HeaderDigest>>;
/// what `retain` leaves
pub mod vx_r { use vstd::prelude::*;
#[verifier::external_body] pub fn vx_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|x: T| f.requires((&x,)),
    ensures forall|g: spec_fn(T) -> bool| (forall|x: T, b: bool| #![trigger f.ensures((&x,), b)] f.ensures((&x,), b) ==> b == g(x)) ==> final(v)@ == #[trigger] old(v)@.filter(g) { unimplemented!() }
}
/// the first key of the ordered map, and its value
#[verifier::external_body] pub fn vx_first(m: &Wanted) -> (r: Option<(&Key, &HashSet<HeaderDigest>)>)
    ensures match r { Some(e) => m@.contains_key(*e.0) && *e.1 == m@[*e.0] && forall|k: Key| #[trigger] m@.contains_key(k) ==> e.0.0 <= k.0, None => m@ == Map::<Key, HashSet<HeaderDigest>>::empty() } { unimplemented!() }
/// `entry(k).or_default().insert(d)`
#[verifier::external_body] pub fn vx_add(m: &mut Wanted, k: Key, d: HeaderDigest)
    ensures final(m)@.contains_key(k), final(m)@[k]@ == (if old(m)@.contains_key(k) { old(m)@[k]@ } else { Set::empty() }).insert(d),
        forall|q: Key| q != k ==> #[trigger] final(m)@.contains_key(q) == old(m)@.contains_key(q), forall|q: Key| q != k && old(m)@.contains_key(q) ==> #[trigger] final(m)@[q] == old(m)@[q] { unimplemented!() }
// ---------------------------------------------------------------- errors
//@verus-only
#[verifier::external_body] pub struct StoreError { x: u64 }
pub mod watch { pub mod error { pub struct RecvError {} } }
//@item file=crates/consensus/primary/src/error/gc.rs path="enum GarbageCollectorError"
//@end
pub enum HeaderError { InvalidGenesisParent(HeaderDigest) }
pub enum CertificateError { Header(HeaderError) }
pub struct SendError {}
pub struct NetworkError {}
//@item file=crates/consensus/primary/src/error/cert_manager.rs path="enum CertManagerError"
//@end
pub type CertManagerResult<T> = Result<T, CertManagerError>;
impl FromSpecImpl<StoreError> for CertManagerError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: StoreError) -> Self { CertManagerError::Storage(e) } }
impl From<StoreError> for CertManagerError { fn from(e: StoreError) -> (r: Self) { CertManagerError::Storage(e) } }
impl FromSpecImpl<CertificateError> for CertManagerError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: CertificateError) -> Self { CertManagerError::Certificate(e) } }
impl From<CertificateError> for CertManagerError { fn from(e: CertificateError) -> (r: Self) { CertManagerError::Certificate(e) } }
impl FromSpecImpl<HeaderError> for CertificateError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: HeaderError) -> Self { CertificateError::Header(e) } }
impl From<HeaderError> for CertificateError { fn from(e: HeaderError) -> (r: Self) { CertificateError::Header(e) } }
impl FromSpecImpl<GarbageCollectorError> for CertManagerError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: GarbageCollectorError) -> Self { CertManagerError::GC(e) } }
impl From<GarbageCollectorError> for CertManagerError { fn from(e: GarbageCollectorError) -> (r: Self) { CertManagerError::GC(e) } }
impl FromSpecImpl<SendError> for CertManagerError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: SendError) -> Self { CertManagerError::TNSend(vx_txt()) } }
impl From<SendError> for CertManagerError { #[verifier::external_body] fn from(e: SendError) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn vx_txt() -> String;
//@end-only
// ---------------------------------------------------------------- certificates that wait
//@item file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="struct PendingCertificate"
//@end
//@item file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="struct PendingCertificateManager"
//@end
impl PendingCertificate {
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificate :: fn new" ret=r
//@spec
    ensures r.certificate == certificate, r.missing_parent_digests@ == missing_parents@,
//@end
}
pub open spec fn kd(c: Certificate) -> Key { (c.rd(), c.dig()) }
pub open spec fn kof(m: HeaderDigest) -> Key { (rnd(m), m) }
pub open spec fn keys(r: Seq<Certificate>) -> Seq<Key> { r.map_values(|c: Certificate| kd(c)) }
/// `b` is `a` and the certificate `c`, which misses `m`
pub open spec fn added(a: PendingCertificateManager, b: PendingCertificateManager, c: Certificate, m: Set<HeaderDigest>) -> bool {
    &&& forall|d: HeaderDigest| #[trigger] b.has(d) <==> a.has(d) || d == c.dig()
    &&& forall|d: HeaderDigest| d != c.dig() && a.has(d) ==> #[trigger] b.pending@[d] == a.pending@[d]
    &&& b.cert(c.dig()) == c && b.pending@[c.dig()].missing_parent_digests@ == m
}
pub open spec fn among(s: Seq<HeaderDigest>, n: nat, k: Key) -> bool { exists|j: int| 0 <= j < n && kof(#[trigger] s[j]) == k }
/// `d` is listed in addition under the first `n` of `s`
pub open spec fn listing(a: PendingCertificateManager, b: PendingCertificateManager, d: HeaderDigest, s: Seq<HeaderDigest>, n: nat) -> bool {
    &&& n <= s.len()
    &&& forall|k: Key, e: HeaderDigest| #[trigger] b.listed(k, e) <==> a.listed(k, e) || (e == d && among(s, n, k))
    &&& forall|k: Key| #[trigger] b.missing_for_pending@.contains_key(k) ==> b.missing_for_pending@[k]@ != Set::<HeaderDigest>::empty()
}
impl PendingCertificateManager {
    pub open spec fn has(self, d: HeaderDigest) -> bool { self.pending@.contains_key(d) }
    pub open spec fn cert(self, d: HeaderDigest) -> Certificate { self.pending@[d].certificate }
    pub open spec fn fresh(self) -> spec_fn(HeaderDigest) -> bool { |d: HeaderDigest| !self.has(d) }
    /// `d` waits for `m`
    pub open spec fn waits(self, d: HeaderDigest, m: HeaderDigest) -> bool { self.has(d) && self.pending@[d].missing_parent_digests@.contains(m) }
    /// `d` is listed under `k`
    pub open spec fn listed(self, k: Key, d: HeaderDigest) -> bool { self.missing_for_pending@.contains_key(k) && self.missing_for_pending@[k]@.contains(d) }
    pub open spec fn entry_ok(self, d: HeaderDigest) -> bool { self.cert(d).dig() == d && self.cert(d).sure() && self.pending@[d].missing_parent_digests@ != Set::<HeaderDigest>::empty() && self.pending@[d].missing_parent_digests@.subset_of(self.cert(d).pars()) }
    /// every waiting certificate is verified and misses a parent, and the index by parent lists exactly who waits for it
    pub open spec fn wf(self) -> bool {
        &&& forall|d: HeaderDigest| #[trigger] self.has(d) ==> self.entry_ok(d)
        &&& forall|d: HeaderDigest, m: HeaderDigest| #[trigger] self.waits(d, m) ==> self.listed(kof(m), d)
        &&& forall|k: Key, d: HeaderDigest| #[trigger] self.listed(k, d) ==> k == kof(k.1) && self.waits(d, k.1)
        &&& forall|k: Key| #[trigger] self.missing_for_pending@.contains_key(k) ==> self.missing_for_pending@[k]@ != Set::<HeaderDigest>::empty()
    }
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn new" ret=r
//@sub? /\bpending: Default::default\(\)/ => pending: HashMap::default()
//@sub? /\bmissing_for_pending: Default::default\(\)/ => missing_for_pending: BTreeMap::default()
//@spec
    ensures r.wf(), forall|d: HeaderDigest| !#[trigger] r.has(d),
//@end
}
proof fn lemma_listing(o: PendingCertificateManager, a: PendingCertificateManager, b: PendingCertificateManager, d: HeaderDigest, s: Seq<HeaderDigest>, n: nat)
    requires listing(o, a, d, s, n), n < s.len(), vx_addd(a, b, kof(s[n as int]), d),
    ensures listing(o, b, d, s, n + 1),
{
    let k0 = kof(s[n as int]);
    assert forall|k: Key, e: HeaderDigest| #[trigger] b.listed(k, e) <==> o.listed(k, e) || (e == d && among(s, n + 1, k)) by {
        assert(a.listed(k, e) <==> o.listed(k, e) || (e == d && among(s, n, k)));
        if among(s, n, k) { let j = choose|j: int| 0 <= j < n && kof(#[trigger] s[j]) == k; assert(kof(s[j]) == k); assert(among(s, n + 1, k)); }
        if among(s, n + 1, k) { let j = choose|j: int| 0 <= j < n + 1 && kof(#[trigger] s[j]) == k; if j < n { assert(among(s, n, k)); } else { assert(k == k0); } }
        if k == k0 { assert(kof(s[n as int]) == k); assert(among(s, n + 1, k)); }
    }
}
pub open spec fn vx_addd(a: PendingCertificateManager, b: PendingCertificateManager, k0: Key, d: HeaderDigest) -> bool {
    &&& forall|k: Key, e: HeaderDigest| #[trigger] b.listed(k, e) <==> a.listed(k, e) || (e == d && k == k0)
    &&& forall|k: Key| #[trigger] b.missing_for_pending@.contains_key(k) ==> b.missing_for_pending@[k]@ != Set::<HeaderDigest>::empty()
}
proof fn lemma_addd(a: PendingCertificateManager, b: PendingCertificateManager, k0: Key, d: HeaderDigest)
    requires b.missing_for_pending@.contains_key(k0), b.missing_for_pending@[k0]@ == (if a.missing_for_pending@.contains_key(k0) { a.missing_for_pending@[k0]@ } else { Set::empty() }).insert(d),
        forall|q: Key| q != k0 ==> #[trigger] b.missing_for_pending@.contains_key(q) == a.missing_for_pending@.contains_key(q), forall|q: Key| q != k0 && a.missing_for_pending@.contains_key(q) ==> #[trigger] b.missing_for_pending@[q] == a.missing_for_pending@[q],
        forall|k: Key| #[trigger] a.missing_for_pending@.contains_key(k) ==> a.missing_for_pending@[k]@ != Set::<HeaderDigest>::empty(),
    ensures vx_addd(a, b, k0, d),
{
    assert forall|k: Key, e: HeaderDigest| #[trigger] b.listed(k, e) <==> a.listed(k, e) || (e == d && k == k0) by { if k != k0 { assert(b.missing_for_pending@.contains_key(k) == a.missing_for_pending@.contains_key(k)); if a.missing_for_pending@.contains_key(k) { assert(b.missing_for_pending@[k] == a.missing_for_pending@[k]); } } }
    assert forall|k: Key| #[trigger] b.missing_for_pending@.contains_key(k) implies b.missing_for_pending@[k]@ != Set::<HeaderDigest>::empty() by { if k == k0 { assert(b.missing_for_pending@[k]@.contains(d)); } else { assert(b.missing_for_pending@[k] == a.missing_for_pending@[k]); } }
}
proof fn lemma_keep(o: PendingCertificateManager, a: PendingCertificateManager, b: PendingCertificateManager, c: Certificate, m: Set<HeaderDigest>)
    requires added(o, a, c, m), a.pending@ == b.pending@, ensures added(o, b, c, m),
{
    assert forall|d: HeaderDigest| #[trigger] b.has(d) <==> o.has(d) || d == c.dig() by { assert(a.has(d) == b.has(d)); }
    assert(a.cert(c.dig()) == b.cert(c.dig()));
}
proof fn lemma_insert(a: PendingCertificateManager, b: PendingCertificateManager, c: Certificate, m: Set<HeaderDigest>, s: Seq<HeaderDigest>)
    requires a.wf(), c.sure(), !a.has(c.dig()), m != Set::<HeaderDigest>::empty(), m.subset_of(c.pars()), enums(s, m), added(a, b, c, m), listing(a, b, c.dig(), s, s.len()),
    ensures b.wf(),
{
    assert forall|d: HeaderDigest| #[trigger] b.has(d) implies b.entry_ok(d) by { if d != c.dig() { assert(a.has(d)); assert(a.entry_ok(d)); assert(b.pending@[d] == a.pending@[d]); } }
    assert forall|d: HeaderDigest, x: HeaderDigest| #[trigger] b.waits(d, x) implies b.listed(kof(x), d) by {
        if d == c.dig() { assert(m.contains(x)); let j = s.index_of(x); assert(s.contains(x)); assert(kof(s[j]) == kof(x)); assert(among(s, s.len(), kof(x))); }
        else { assert(a.has(d)); assert(b.pending@[d] == a.pending@[d]); assert(a.waits(d, x)); assert(a.listed(kof(x), d)); }
    }
    assert forall|k: Key, d: HeaderDigest| #[trigger] b.listed(k, d) implies k == kof(k.1) && b.waits(d, k.1) by {
        if a.listed(k, d) { assert(a.waits(d, k.1)); assert(a.has(d)); assert(d != c.dig()); assert(b.has(d)); assert(b.pending@[d] == a.pending@[d]); }
        else { let j = choose|j: int| 0 <= j < s.len() && kof(#[trigger] s[j]) == k; assert(s.contains(s[j])); assert(m.contains(s[j])); assert(b.has(d)); }
    }
}
impl PendingCertificateManager {
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn insert_pending" ret=r
//@sub? /self\s*\.missing_for_pending\s*\.entry\((\((?:[^()]|\([^()]*\))*\))\)\s*\.or_default\(\)\s*\.insert\(([^()]*)\);/ => vx_add(&mut self.missing_for_pending, \1, \2);
//@head
    let ghost gc = certificate; let ghost gm = missing_parents@; proof { ax_cert(gc); }
//@sub? /existing\.missing_parent_digests != missing_parents/ => vx_hs_eq(&existing.missing_parent_digests, &missing_parents) == false
//@vsub? /in missing_parents \{/ => in vx_hs_vec(missing_parents) {
//@forvec 0
//@loop 0 iter=it
    invariant enums(it.seq(), gm), gm.subset_of(gc.pars()), forall|p: HeaderDigest| #[trigger] gc.pars().contains(p) ==> gc.rd() == rnd(p) + 1, digest == gc.dig(), parent_round == (if gc.rd() == 0 { 0 } else { gc.rd() - 1 }), added(*old(self), *self, gc, gm), listing(*old(self), *self, gc.dig(), it.seq(), it.index() as nat),
//@loophead 0
    let ghost s0 = *self;
    proof { let x = it.seq()[it.index()]; assert(it.seq().contains(x)); assert(gm.contains(x)); assert(gc.pars().contains(x)); assert(gc.rd() == rnd(x) + 1); }
//@loopend 0
    proof { assert(parent_round == rnd(parent)); lemma_addd(s0, *self, kof(parent), gc.dig()); lemma_keep(*old(self), s0, *self, gc, gm); lemma_listing(*old(self), s0, *self, gc.dig(), it.seq(), it.index() as nat); }
//@afterloop 0
    proof { let s = choose|s: Seq<HeaderDigest>| #[trigger] enums(s, gm) && listing(*old(self), *self, gc.dig(), s, s.len()); lemma_insert(*old(self), *self, gc, gm, s); }
//@spec
    requires old(self).wf(), certificate.sure(), !old(self).has(certificate.dig()), missing_parents@ != Set::<HeaderDigest>::empty(), missing_parents@.subset_of(certificate.pars()),
    ensures r is Ok, final(self).wf(), added(*old(self), *final(self), certificate, missing_parents@),
//@end
}
// ---- the release of certificates
pub open spec fn out(r: Seq<Certificate>, d: HeaderDigest) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).dig() == d }
/// `r` are certificates that waited in `o`, each once, each after those it waited for (`t`, or earlier ones of `r`); `s` is `o` without them, and nothing waits for `t` or them
pub open spec fn released(o: PendingCertificateManager, s: PendingCertificateManager, t: HeaderDigest, r: Seq<Certificate>) -> bool {
    &&& taken(o, s, r)
    &&& forall|d: HeaderDigest, m: HeaderDigest| #[trigger] s.waits(d, m) <==> s.has(d) && o.waits(d, m) && m != t && !out(r, m)
    &&& forall|i: int, m: HeaderDigest| 0 <= i < r.len() && #[trigger] o.waits(r[i].dig(), m) ==> m == t || out(r.take(i), m)
}
pub open spec fn taken(o: PendingCertificateManager, s: PendingCertificateManager, r: Seq<Certificate>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> o.has((#[trigger] r[i]).dig()) && o.cert(r[i].dig()) == r[i]
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).dig() != (#[trigger] r[j]).dig()
    &&& forall|d: HeaderDigest| #[trigger] s.has(d) <==> o.has(d) && !out(r, d)
    &&& forall|d: HeaderDigest| #[trigger] s.has(d) ==> s.cert(d) == o.cert(d)
}
/// while those that wait for `cur` are visited (`vis` so far), all of `g` being done
pub open spec fn mid(o: PendingCertificateManager, s: PendingCertificateManager, t: HeaderDigest, r: Seq<Certificate>, g: Set<HeaderDigest>, cur: HeaderDigest, vis: Set<HeaderDigest>) -> bool {
    &&& taken(o, s, r)
    &&& forall|d: HeaderDigest, m: HeaderDigest| #[trigger] s.waits(d, m) <==> s.has(d) && o.waits(d, m) && !g.contains(m) && !(m == cur && vis.contains(d))
    &&& forall|d: HeaderDigest| #[trigger] s.has(d) ==> s.pending@[d].missing_parent_digests@ != Set::<HeaderDigest>::empty()
    &&& forall|i: int, m: HeaderDigest| 0 <= i < r.len() && #[trigger] o.waits(r[i].dig(), m) ==> g.contains(m) || (m == cur && vis.contains(r[i].dig()))
    &&& forall|i: int, m: HeaderDigest| 0 <= i < r.len() && #[trigger] o.waits(r[i].dig(), m) ==> m == t || out(r.take(i), m)
}
pub open spec fn lists_of(o: PendingCertificateManager, s: PendingCertificateManager, g: Set<HeaderDigest>) -> bool {
    &&& forall|k: Key| #[trigger] s.missing_for_pending@.contains_key(k) <==> o.missing_for_pending@.contains_key(k) && !g.contains(k.1)
    &&& forall|k: Key| #[trigger] s.missing_for_pending@.contains_key(k) ==> s.missing_for_pending@[k] == o.missing_for_pending@[k]
}
pub open spec fn who(t: HeaderDigest, r: Seq<Certificate>, d: HeaderDigest) -> bool { d == t || out(r, d) }
pub open spec fn inq(q: Seq<Key>, d: HeaderDigest) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).1 == d }
/// what is done or queued is `t` and what was released
pub open spec fn queue(q: Seq<Key>, g: Set<HeaderDigest>, t: HeaderDigest, r: Seq<Certificate>) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == kof(q[i].1)
    &&& forall|d: HeaderDigest| #[trigger] who(t, r, d) <==> g.contains(d) || inq(q, d)
}
proof fn lemma_start(o: PendingCertificateManager, t: HeaderDigest, cur: HeaderDigest)
    requires o.wf(), ensures mid(o, o, t, Seq::empty(), Set::empty(), cur, Set::empty()), lists_of(o, o, Set::empty()), queue(seq![kof(t)], Set::empty(), t, Seq::empty()),
{
    assert forall|d: HeaderDigest| #[trigger] o.has(d) implies o.pending@[d].missing_parent_digests@ != Set::<HeaderDigest>::empty() by { assert(o.entry_ok(d)); }
    assert forall|d: HeaderDigest| #[trigger] who(t, Seq::<Certificate>::empty(), d) <==> Set::<HeaderDigest>::empty().contains(d) || inq(seq![kof(t)], d) by { assert(seq![kof(t)][0] == kof(t)); }
}
proof fn lemma_pop(q: Seq<Key>, g: Set<HeaderDigest>, t: HeaderDigest, r: Seq<Certificate>)
    requires q.len() > 0, queue(q, g, t, r), ensures queue(q.skip(1), g.insert(q[0].1), t, r), q[0] == kof(q[0].1),
{
    assert forall|i: int| 0 <= i < q.skip(1).len() implies #[trigger] q.skip(1)[i] == kof(q.skip(1)[i].1) by { assert(q.skip(1)[i] == q[i + 1]); }
    assert forall|d: HeaderDigest| #[trigger] who(t, r, d) <==> g.insert(q[0].1).contains(d) || inq(q.skip(1), d) by {
        if inq(q, d) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).1 == d; if i > 0 { assert(q.skip(1)[i - 1] == q[i]); assert(inq(q.skip(1), d)); } }
        if inq(q.skip(1), d) { let i = choose|i: int| 0 <= i < q.skip(1).len() && (#[trigger] q.skip(1)[i]).1 == d; assert(q.skip(1)[i] == q[i + 1]); assert(inq(q, d)); }
        assert(inq(q, q[0].1));
    }
}
/// nothing is listed under the key
proof fn lemma_none(o: PendingCertificateManager, s: PendingCertificateManager, t: HeaderDigest, r: Seq<Certificate>, g: Set<HeaderDigest>, cur: HeaderDigest, x: HeaderDigest, y: HeaderDigest)
    requires o.wf(), mid(o, s, t, r, g, x, Set::empty()), lists_of(o, s, g), !s.missing_for_pending@.contains_key(kof(cur)),
    ensures mid(o, s, t, r, g.insert(cur), y, Set::empty()), lists_of(o, s, g.insert(cur)),
{
    assert forall|d: HeaderDigest, m: HeaderDigest| #[trigger] s.waits(d, m) <==> s.has(d) && o.waits(d, m) && !g.insert(cur).contains(m) && !(m == y && Set::<HeaderDigest>::empty().contains(d)) by {
        if m == cur && s.waits(d, m) { assert(o.waits(d, m)); assert(o.listed(kof(m), d)); assert(o.missing_for_pending@.contains_key(kof(m))); assert(!g.contains(m)); assert(kof(m).1 == m); }
    }
    assert forall|k: Key| #[trigger] s.missing_for_pending@.contains_key(k) <==> o.missing_for_pending@.contains_key(k) && !g.insert(cur).contains(k.1) by {
        if s.missing_for_pending@.contains_key(k) && k.1 == cur { assert(o.missing_for_pending@.contains_key(k)); let e = choose|e: HeaderDigest| o.missing_for_pending@[k]@.contains(e); if o.missing_for_pending@[k]@.contains(e) { assert(o.listed(k, e)); } else { assert(o.missing_for_pending@[k]@ =~= Set::<HeaderDigest>::empty()); } }
    }
}
/// the list of the key is taken out
proof fn lemma_enter(o: PendingCertificateManager, a: PendingCertificateManager, b: PendingCertificateManager, t: HeaderDigest, r: Seq<Certificate>, g: Set<HeaderDigest>, cur: HeaderDigest, x: HeaderDigest)
    requires o.wf(), mid(o, a, t, r, g, x, Set::empty()), lists_of(o, a, g), a.missing_for_pending@.contains_key(kof(cur)), b.pending@ == a.pending@, b.missing_for_pending@ == a.missing_for_pending@.remove(kof(cur)),
    ensures mid(o, b, t, r, g, cur, Set::empty()), lists_of(o, b, g.insert(cur)), !g.contains(cur), a.missing_for_pending@[kof(cur)] == o.missing_for_pending@[kof(cur)],
{
    lemma_same(o, a, b, t, r, g, x, cur);
    assert(kof(cur).1 == cur);
    assert forall|k: Key| #[trigger] b.missing_for_pending@.contains_key(k) <==> o.missing_for_pending@.contains_key(k) && !g.insert(cur).contains(k.1) by {
        if o.missing_for_pending@.contains_key(k) && k.1 == cur { let e = choose|e: HeaderDigest| o.missing_for_pending@[k]@.contains(e); if o.missing_for_pending@[k]@.contains(e) { assert(o.listed(k, e)); } else { assert(o.missing_for_pending@[k]@ =~= Set::<HeaderDigest>::empty()); } }
        assert(a.missing_for_pending@.contains_key(k) <==> o.missing_for_pending@.contains_key(k) && !g.contains(k.1));
    }
    assert forall|k: Key| #[trigger] b.missing_for_pending@.contains_key(k) implies b.missing_for_pending@[k] == o.missing_for_pending@[k] by { assert(a.missing_for_pending@.contains_key(k)); }
}
proof fn lemma_same(o: PendingCertificateManager, a: PendingCertificateManager, b: PendingCertificateManager, t: HeaderDigest, r: Seq<Certificate>, g: Set<HeaderDigest>, x: HeaderDigest, y: HeaderDigest)
    requires mid(o, a, t, r, g, x, Set::empty()), b.pending@ == a.pending@, ensures mid(o, b, t, r, g, y, Set::empty()),
{
    assert forall|d: HeaderDigest| #[trigger] b.has(d) == a.has(d) by { }
    assert forall|d: HeaderDigest, m: HeaderDigest| #[trigger] b.waits(d, m) == a.waits(d, m) by { }
}
proof fn lemma_lists(o: PendingCertificateManager, a: PendingCertificateManager, b: PendingCertificateManager, g: Set<HeaderDigest>, cur: HeaderDigest)
    requires lists_of(o, a, g), !a.missing_for_pending@.contains_key(kof(cur)), b.missing_for_pending@ == a.missing_for_pending@.remove(kof(cur)), ensures lists_of(o, b, g), b.missing_for_pending@ == a.missing_for_pending@,
{
    assert(b.missing_for_pending@ =~= a.missing_for_pending@);
}
/// the list is done with
proof fn lemma_leave(o: PendingCertificateManager, s: PendingCertificateManager, t: HeaderDigest, r: Seq<Certificate>, g: Set<HeaderDigest>, cur: HeaderDigest, vis: Set<HeaderDigest>, y: HeaderDigest)
    requires o.wf(), mid(o, s, t, r, g, cur, vis), vis == o.missing_for_pending@[kof(cur)]@,
    ensures mid(o, s, t, r, g.insert(cur), y, Set::empty()),
{
    assert forall|d: HeaderDigest, m: HeaderDigest| #[trigger] s.waits(d, m) <==> s.has(d) && o.waits(d, m) && !g.insert(cur).contains(m) && !(m == y && Set::<HeaderDigest>::empty().contains(d)) by {
        if m == cur && o.waits(d, m) { assert(o.listed(kof(m), d)); }
    }
}
/// one more of the list: `d` no longer waits for `cur`
proof fn lemma_visit(o: PendingCertificateManager, a: PendingCertificateManager, b: PendingCertificateManager, t: HeaderDigest, r: Seq<Certificate>, g: Set<HeaderDigest>, cur: HeaderDigest, vis: Set<HeaderDigest>, d: HeaderDigest, pc: PendingCertificate)
    requires o.wf(), mid(o, a, t, r, g, cur, vis), a.has(d), o.waits(d, cur), pc.certificate == a.cert(d), pc.missing_parent_digests@ == a.pending@[d].missing_parent_digests@.remove(cur), pc.missing_parent_digests@ != Set::<HeaderDigest>::empty(), b.pending@ == a.pending@.insert(d, pc),
    ensures mid(o, b, t, r, g, cur, vis.insert(d)),
{
    assert forall|e: HeaderDigest| #[trigger] b.has(e) == a.has(e) by { }
    assert forall|e: HeaderDigest| #[trigger] b.has(e) implies b.cert(e) == o.cert(e) && b.pending@[e].missing_parent_digests@ != Set::<HeaderDigest>::empty() by { assert(a.has(e)); }
    assert forall|e: HeaderDigest, m: HeaderDigest| #[trigger] b.waits(e, m) <==> b.has(e) && o.waits(e, m) && !g.contains(m) && !(m == cur && vis.insert(d).contains(e)) by { assert(b.has(e) == a.has(e)); assert(a.waits(e, m) <==> a.has(e) && o.waits(e, m) && !g.contains(m) && !(m == cur && vis.contains(e))); }
}
/// ... and was waiting for nothing else
proof fn lemma_free(o: PendingCertificateManager, a: PendingCertificateManager, b: PendingCertificateManager, t: HeaderDigest, r: Seq<Certificate>, g: Set<HeaderDigest>, cur: HeaderDigest, vis: Set<HeaderDigest>, d: HeaderDigest, c: Certificate, q: Seq<Key>)
    requires o.wf(), mid(o, a, t, r, g, cur, vis), a.has(d), o.waits(d, cur), c == a.cert(d), a.pending@[d].missing_parent_digests@.remove(cur) == Set::<HeaderDigest>::empty(), b.pending@ == a.pending@.remove(d), queue(q, g.insert(cur), t, r),
    ensures mid(o, b, t, r.push(c), g, cur, vis.insert(d)), queue(q.push(kd(c)), g.insert(cur), t, r.push(c)), c.dig() == d, c.sure(), kd(c) == kof(d),
{
    assert(o.entry_ok(d)); ax_cert(c);
    let n = r.len() as int; let rr = r.push(c);
    assert forall|e: HeaderDigest| #[trigger] out(rr, e) <==> out(r, e) || e == d by {
        if out(r, e) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).dig() == e; assert(rr[i].dig() == e); }
        if out(rr, e) { let i = choose|i: int| 0 <= i < rr.len() && (#[trigger] rr[i]).dig() == e; if i < n { assert(r[i].dig() == e); } }
        if e == d { assert(rr[n].dig() == e); }
    }
    assert forall|i: int, j: int| 0 <= i < j < rr.len() implies (#[trigger] rr[i]).dig() != (#[trigger] rr[j]).dig() by { if j == n { assert(!out(r, d)); assert(r[i].dig() != d); } }
    assert forall|e: HeaderDigest| #[trigger] b.has(e) <==> o.has(e) && !out(rr, e) by { assert(a.has(e) <==> o.has(e) && !out(r, e)); assert(b.has(e) <==> a.has(e) && e != d); }
    assert forall|e: HeaderDigest| #[trigger] b.has(e) implies b.cert(e) == o.cert(e) && b.pending@[e].missing_parent_digests@ != Set::<HeaderDigest>::empty() by { assert(a.has(e)); }
    assert forall|e: HeaderDigest, m: HeaderDigest| #[trigger] b.waits(e, m) <==> b.has(e) && o.waits(e, m) && !g.contains(m) && !(m == cur && vis.insert(d).contains(e)) by { assert(a.waits(e, m) <==> a.has(e) && o.waits(e, m) && !g.contains(m) && !(m == cur && vis.contains(e))); assert(b.has(e) <==> a.has(e) && e != d); }
    assert forall|i: int, m: HeaderDigest| 0 <= i < rr.len() && #[trigger] o.waits(rr[i].dig(), m) implies (g.contains(m) || (m == cur && vis.insert(d).contains(rr[i].dig()))) && (m == t || out(rr.take(i), m)) by {
        assert(rr.take(i) =~= r.take(i));
        if i == n {
            assert(r.take(i) =~= r);
            if m != cur { assert(!a.pending@[d].missing_parent_digests@.remove(cur).contains(m)); assert(!a.waits(d, m)); assert(g.contains(m)); }
            assert(g.insert(cur).contains(m)); assert(who(t, r, m));
        } else { assert(rr[i] == r[i]); assert(o.waits(r[i].dig(), m)); }
    }
    let qq = q.push(kd(c));
    assert forall|i: int| 0 <= i < qq.len() implies #[trigger] qq[i] == kof(qq[i].1) by { if i < q.len() { assert(qq[i] == q[i]); } }
    assert forall|e: HeaderDigest| #[trigger] who(t, rr, e) <==> g.insert(cur).contains(e) || inq(qq, e) by {
        assert(who(t, r, e) <==> g.insert(cur).contains(e) || inq(q, e));
        if inq(q, e) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).1 == e; assert(qq[i].1 == e); }
        if inq(qq, e) { let i = choose|i: int| 0 <= i < qq.len() && (#[trigger] qq[i]).1 == e; if i < q.len() { assert(q[i].1 == e); assert(inq(q, e)); } }
        if e == d { assert(qq[q.len() as int].1 == e); }
    }
}
/// when the queue is empty
proof fn lemma_end(o: PendingCertificateManager, s: PendingCertificateManager, t: HeaderDigest, r: Seq<Certificate>, g: Set<HeaderDigest>, x: HeaderDigest)
    requires o.wf(), mid(o, s, t, r, g, x, Set::empty()), lists_of(o, s, g), queue(Seq::empty(), g, t, r),
    ensures released(o, s, t, r), s.wf(), !s.missing_for_pending@.contains_key(kof(t)), forall|k: Key| #[trigger] s.missing_for_pending@.contains_key(k) ==> o.missing_for_pending@.contains_key(k),
{
    assert forall|d: HeaderDigest| #[trigger] who(t, r, d) <==> g.contains(d) by { assert(!inq(Seq::empty(), d)); }
    assert(g.contains(t)) by { assert(who(t, r, t)); }
    assert forall|d: HeaderDigest, m: HeaderDigest| #[trigger] s.waits(d, m) <==> s.has(d) && o.waits(d, m) && m != t && !out(r, m) by { assert(who(t, r, m) <==> g.contains(m)); }
    assert forall|d: HeaderDigest| #[trigger] s.has(d) implies s.entry_ok(d) by { assert(o.has(d)); assert(o.entry_ok(d)); assert forall|m: HeaderDigest| s.pending@[d].missing_parent_digests@.contains(m) implies s.cert(d).pars().contains(m) by { assert(s.waits(d, m)); assert(o.waits(d, m)); } }
    assert forall|d: HeaderDigest, m: HeaderDigest| #[trigger] s.waits(d, m) implies s.listed(kof(m), d) by { assert(o.waits(d, m)); assert(o.listed(kof(m), d)); assert(s.missing_for_pending@.contains_key(kof(m))); }
    assert forall|k: Key, d: HeaderDigest| #[trigger] s.listed(k, d) implies k == kof(k.1) && s.waits(d, k.1) by {
        assert(o.listed(k, d)); assert(o.waits(d, k.1)); assert(!g.contains(k.1));
        if out(r, d) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).dig() == d; assert(o.waits(r[i].dig(), k.1)); }
        assert(s.has(d));
    }
    assert(kof(t).1 == t);
}
/// the first `n`
pub open spec fn seen(s: Seq<&HeaderDigest>, n: nat) -> Set<HeaderDigest> decreases n { if n == 0 { Set::empty() } else { seen(s, (n - 1) as nat).insert(*s[n - 1]) } }
proof fn lemma_seen(s: Seq<&HeaderDigest>, n: nat) requires n <= s.len() ensures forall|d: HeaderDigest| #[trigger] seen(s, n).contains(d) <==> exists|i: int| 0 <= i < n && *(#[trigger] s[i]) == d decreases n {
    if n > 0 { lemma_seen(s, (n - 1) as nat); assert forall|d: HeaderDigest| #[trigger] seen(s, n).contains(d) <==> exists|i: int| 0 <= i < n && *(#[trigger] s[i]) == d by {
        assert(seen(s, n).contains(d) <==> seen(s, (n - 1) as nat).contains(d) || d == *s[n - 1]);
        if exists|i: int| 0 <= i < n && *(#[trigger] s[i]) == d { let i = choose|i: int| 0 <= i < n && *(#[trigger] s[i]) == d; if i < n - 1 { assert(seen(s, (n - 1) as nat).contains(d)); } }
    } }
}
proof fn lemma_all(s: Seq<&HeaderDigest>, n: nat, all: Set<HeaderDigest>)
    requires n < s.len(), lref(s, all), ensures n + 1 == s.len() ==> seen(s, n).insert(*s[n as int]) == all,
{
    lemma_seen(s, (n + 1) as nat);
    if n + 1 == s.len() { assert(seen(s, (n + 1) as nat) =~= all) by {
        assert forall|d: HeaderDigest| seen(s, (n + 1) as nat).contains(d) <==> all.contains(d) by { }
    } }
}
proof fn lemma_next(o: PendingCertificateManager, a: PendingCertificateManager, t: HeaderDigest, r: Seq<Certificate>, g: Set<HeaderDigest>, cur: HeaderDigest, s: Seq<&HeaderDigest>, i: int, all: Set<HeaderDigest>)
    requires o.wf(), 0 <= i < s.len(), lref(s, all), mid(o, a, t, r, g, cur, seen(s, i as nat)), all == o.missing_for_pending@[kof(cur)]@, o.missing_for_pending@.contains_key(kof(cur)), !g.contains(cur),
    ensures a.has(*s[i]), o.waits(*s[i], cur), !seen(s, i as nat).contains(*s[i]),
{
    lemma_seen(s, i as nat); let d = *s[i];
    assert(all.contains(d)); assert(o.listed(kof(cur), d)); assert(kof(cur).1 == cur); assert(o.waits(d, cur));
    if out(r, d) { let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).dig() == d; assert(o.waits(r[j].dig(), cur)); }
}
impl PendingCertificateManager {
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn update_pending" ret=r
//@vsub? /for (\w+) in &(\w+) \{/ => for \1 in vx_hs_ref(&\2) {
//@desugar opt.ok_or
//@attr #[verifier::loop_isolation(false)]
//@head
    let ghost mut g: Set<HeaderDigest> = Set::empty();
//@beforeloop 0
    proof { lemma_start(*old(self), digest, digest); assert(certificates_to_process@ =~= seq![kof(digest)]); }
    let ghost mut qp = certificates_to_process@;
//@loop 0
    invariant old(self).wf(), qp == certificates_to_process@, mid(*old(self), *self, digest, ready_certificates@, g, digest, Set::empty()), lists_of(*old(self), *self, g), queue(certificates_to_process@, g, digest, ready_certificates@),
    ensures certificates_to_process@.len() == 0,
    decreases self.missing_for_pending@.dom().len(), certificates_to_process@.len()
//@loophead 0
    let ghost q1 = certificates_to_process@; let ghost s0 = *self; let ghost g0 = g; let ghost cur = next_digest; let ghost r0 = ready_certificates@;
    let ghost q0 = qp;
    proof { assert(q0.skip(1) == q1); qp = q1; lemma_pop(q0, g, digest, r0); g = g.insert(cur); }
//@before? /continue;/
    proof { lemma_same(*old(self), s0, *self, digest, r0, g0, digest, digest); lemma_lists(*old(self), s0, *self, g0, cur); lemma_none(*old(self), *self, digest, r0, g0, cur, digest, digest); }
//@beforeloop 1
    let ghost all = pending_digests@; let ghost mut vdone: Set<HeaderDigest> = Set::empty();
    proof { lemma_enter(*old(self), s0, *self, digest, r0, g0, cur, digest); }
//@forvec 1
//@loop 1 iter=it
    invariant old(self).wf(), old(self).missing_for_pending@.contains_key(kof(cur)), all == old(self).missing_for_pending@[kof(cur)]@, !g0.contains(cur), g == g0.insert(cur), cur == next_digest, lref(it.seq(), all), mid(*old(self), *self, digest, ready_certificates@, g0, cur, vdone), vdone == seen(it.seq(), it.index() as nat), it.index() == it.seq().len() ==> vdone == all, lists_of(*old(self), *self, g), queue(certificates_to_process@, g, digest, ready_certificates@),
//@loophead 1
    let ghost a1 = *self; let ghost d1 = *pending_digest; let ghost r1 = ready_certificates@; let ghost qq1 = certificates_to_process@; let ghost vis = vdone;
    proof { lemma_next(*old(self), *self, digest, r1, g0, cur, it.seq(), it.index(), all); }
//@loopend 1
    proof {
        vdone = vis.insert(d1);
        lemma_all(it.seq(), it.index() as nat, all);
        if ready_certificates@.len() > r1.len() {
            assert(self.pending@ =~= a1.pending@.remove(d1));
            let c = ready_certificates@.last(); assert(ready_certificates@ =~= r1.push(c)); 
            lemma_free(*old(self), a1, *self, digest, r1, g0, cur, vis, d1, c, qq1);
        } else { lemma_visit(*old(self), a1, *self, digest, r1, g0, cur, vis, d1, self.pending@[d1]); }
        assert(seen(it.seq(), (it.index() + 1) as nat) =~= vis.insert(d1));
    }
//@afterloop 1
    proof { lemma_leave(*old(self), *self, digest, ready_certificates@, g0, cur, all, digest); qp = certificates_to_process@; }
//@afterloop 0
    proof { assert(certificates_to_process@ =~= Seq::empty()); lemma_end(*old(self), *self, digest, ready_certificates@, g, digest); }
//@spec
    requires old(self).wf(), round == rnd(digest),
    ensures r matches Ok(v) && final(self).wf() && released(*old(self), *final(self), digest, v@) && !final(self).missing_for_pending@.contains_key(kof(digest)) && forall|k: Key| #[trigger] final(self).missing_for_pending@.contains_key(k) ==> old(self).missing_for_pending@.contains_key(k),
//@end
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn next_for_gc_round" ret=r
//@sub? /self\s*\.missing_for_pending\s*\.first_key_value\(\)/ => vx_first(&self.missing_for_pending)
//@desugar opt.map
//@before? /if let Some\(pending\) = self\.pending\.get_mut\(&digest\)/
    proof { lemma_least(*old(self), (round, digest)); }
//@spec
    requires old(self).wf(),
    ensures *final(self) == *old(self),
        match r { Some(k) => old(self).missing_for_pending@.contains_key(k) && k == kof(k.1) && k.0 <= gc_round && forall|q: Key| #[trigger] old(self).missing_for_pending@.contains_key(q) ==> k.0 <= q.0, None => forall|q: Key| #[trigger] old(self).missing_for_pending@.contains_key(q) ==> q.0 > gc_round },
//@end
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn is_pending" ret=r
//@spec
    ensures r == self.has(*digest),
//@end
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn num_pending" ret=r
//@spec
    ensures r == self.pending@.dom().len(),
//@end
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn filter_unknown_digests"
//@sub? /(\w+)\.retain\(/ => vx_r::vx_retain(\1, 
//@clos vx_retain.0? &HeaderDigest -> (b: bool)
    ensures b == !self.has(*$0),
//@spec
    ensures final(unknown)@ == old(unknown)@.filter(self.fresh()),
//@end
}
/// the first listed parent itself waits for nothing
proof fn lemma_least(o: PendingCertificateManager, k: Key)
    requires o.wf(), o.missing_for_pending@.contains_key(k), forall|q: Key| #[trigger] o.missing_for_pending@.contains_key(q) ==> k.0 <= q.0,
    ensures !o.has(k.1), k == kof(k.1),
{
    let e = choose|e: HeaderDigest| o.missing_for_pending@[k]@.contains(e);
    if !o.missing_for_pending@[k]@.contains(e) { assert(o.missing_for_pending@[k]@ =~= Set::<HeaderDigest>::empty()); }
    assert(o.listed(k, e));
    if o.has(k.1) {
        assert(o.entry_ok(k.1)); ax_cert(o.cert(k.1));
        let ms = o.pending@[k.1].missing_parent_digests@;
        let m = choose|m: HeaderDigest| ms.contains(m);
        if !ms.contains(m) { assert(ms =~= Set::<HeaderDigest>::empty()); }
        assert(o.cert(k.1).pars().contains(m)); assert(o.waits(k.1, m)); assert(o.listed(kof(m), k.1)); assert(o.missing_for_pending@.contains_key(kof(m)));
    }
}
// ---------------------------------------------------------------- the world of the manager
pub mod vx_w {
use vstd::prelude::*;
use super::*;
pub struct Store { pub x: u64 }
pub struct ConsensusBus { pub x: u64 }
#[derive(Clone, Copy)] pub struct Committee { pub x: u64 }
pub struct CertificatesAggregatorManager { pub x: u64 }
/// what the store holds (rows it drops by age are never asked for)
pub uninterp spec fn stored(s: Store) -> Set<HeaderDigest>;
/// the round of the last commit
pub uninterp spec fn cr(b: ConsensusBus) -> Round;
/// certificates handed to consensus, in order
pub uninterp spec fn log(b: ConsensusBus) -> Seq<Certificate>;
/// certificates whose ancestors are being fetched
pub uninterp spec fn asked(b: ConsensusBus) -> Set<HeaderDigest>;
/// certificates counted as parents for the next round
pub uninterp spec fn heard(p: CertificatesAggregatorManager) -> Seq<Certificate>;
}
pub use vx_w::*;
pub struct Parameters { pub gc_depth: Round }
pub struct Cfg { pub parameters: Parameters }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct Genesis<K> { k: core::marker::PhantomData<K> }
pub uninterp spec fn gen_keys(g: Genesis<HeaderDigest>) -> Set<HeaderDigest>;
impl Genesis<HeaderDigest> { #[verifier::external_body] pub fn contains_key(&self, d: &HeaderDigest) -> (r: bool) ensures r == gen_keys(*self).contains(*d) { unimplemented!() } }
/// `base`: what the store held when the manager began
pub struct ConsensusConfig { pub cfg: Cfg, pub com: Committee, pub gen: Genesis<HeaderDigest>, pub store: Store, pub base: Ghost<Set<HeaderDigest>> }
impl ConsensusConfig {
    pub open spec fn same(self, o: Self) -> bool { self.cfg == o.cfg && self.com == o.com && self.gen == o.gen && self.base == o.base }
    pub fn config(&self) -> (r: &Cfg) ensures *r == self.cfg { &self.cfg }
    pub fn committee(&self) -> (r: &Committee) ensures *r == self.com { &self.com }
    pub fn genesis(&self) -> (r: &Genesis<HeaderDigest>) ensures *r == self.gen { &self.gen }
    pub fn node_storage(&mut self) -> (r: &mut Store) ensures *r == old(self).store, final(self).store == *final(r), final(self).same(*old(self)) { &mut self.store }
}
pub open spec fn ndigs(s: Seq<Certificate>) -> Set<HeaderDigest> { s.map_values(|c: Certificate| c.dig()).to_set() }
impl Store {
    /// all or, with an error, anything
    #[verifier::external_body] pub fn write_all<'a>(&mut self, cs: VIter<&'a Certificate>) -> (r: Result<(), StoreError>)
        ensures r is Ok ==> forall|d: HeaderDigest| #[trigger] stored(*final(self)).contains(d) <==> stored(*old(self)).contains(d) || exists|i: int| 0 <= i < cs@.len() && (#[trigger] cs@[i]).dig() == d { unimplemented!() }
    #[verifier::external_body] pub fn multi_contains<'a>(&self, ds: VIter<&'a HeaderDigest>) -> (r: Result<Vec<bool>, StoreError>)
        ensures r matches Ok(v) ==> v@.len() == ds@.len() && forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == stored(*self).contains(*ds@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, d: &HeaderDigest) -> (r: Result<bool, StoreError>) ensures r matches Ok(b) ==> b == stored(*self).contains(*d) { unimplemented!() }
    #[verifier::external_body] pub fn last_two_rounds_certs(&self) -> (r: Result<Vec<Certificate>, StoreError>) { unimplemented!() }
}
pub enum CertificateFetcherCommand { Ancestors(Arc<Certificate>), Kick }
/// the round of commits only grows
pub open spec fn later(a: ConsensusBus, b: ConsensusBus) -> bool { cr(a) <= cr(b) }
impl ConsensusBus {
    pub fn app(&self) -> (r: &Self) ensures r == self { self }
    #[verifier::external_body] pub fn committed_round(&self) -> (r: Round) ensures r == cr(*self), r < u32::MAX { unimplemented!() }
    #[verifier::external_body] pub fn send_new(&mut self, c: Certificate) -> (r: Result<(), SendError>) ensures later(*old(self), *final(self)), asked(*final(self)) == asked(*old(self)), r is Ok ==> log(*final(self)) == log(*old(self)).push(c), r is Err ==> log(*final(self)) == log(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn send_fetch(&mut self, c: CertificateFetcherCommand) -> (r: Result<(), SendError>) ensures later(*old(self), *final(self)), log(*final(self)) == log(*old(self)), asked(*final(self)) == (match c { CertificateFetcherCommand::Ancestors(x) => if r is Ok { asked(*old(self)).insert(x.dig()) } else { asked(*old(self)) }, _ => asked(*old(self)) }) { unimplemented!() }
}
/// C02
impl CertificatesAggregatorManager {
    #[verifier::external_body] pub fn append_certificate(&mut self, c: Certificate, com: &Committee) -> (r: CertManagerResult<()>) ensures r is Ok ==> heard(*final(self)) == heard(*old(self)).push(c) { unimplemented!() }
    #[verifier::external_body] pub fn garbage_collect(&mut self, r: &Round) ensures heard(*final(self)) == heard(*old(self)) { unimplemented!() }
}
pub struct Notifier {} pub struct Noticer {}
impl Notifier { pub fn subscribe(&self) -> Noticer { Noticer {} } }
impl ConsensusConfig {
    pub fn shutdown(&self) -> Notifier { Notifier {} }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl ConsensusBus { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// an error ends the process
pub trait VxExpect<T> { fn vx_expect(self, m: &str) -> T; }
impl<T, E> VxExpect<T> for Result<T, E> { #[verifier::external_body] fn vx_expect(self, m: &str) -> T { unimplemented!() } }
pub struct VxRx<T> { pub p: core::marker::PhantomData<T> }
impl<T> VxRx<T> { #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<T>) { unimplemented!() } }
pub mod oneshot { use vstd::prelude::*; pub struct Sender<T> { pub p: core::marker::PhantomData<T> } impl<T> Sender<T> { #[verifier::external_body] pub fn send(self, v: T) -> (r: Result<(), T>) { unimplemented!() } } }
#[verifier::external_body] pub fn vx_pick(n: usize) -> (r: usize) ensures r < n { unimplemented!() }
//@item file=crates/consensus/primary/src/state_sync/cert_manager.rs path="enum CertificateManagerCommand"
//@end
impl CertificatesAggregatorManager { #[verifier::external_body] pub fn new(b: ConsensusBus) -> Self { unimplemented!() } }
pub struct GarbageCollector { pub x: u64 }
impl GarbageCollector { #[verifier::external_body] pub fn new(c: ConsensusConfig, b: ConsensusBus) -> Self { unimplemented!() } }
impl GarbageCollector { #[verifier::external_body] pub fn ready(&self) -> (r: Result<(), GarbageCollectorError>) { unimplemented!() } }
//@fn file=crates/consensus/primary/src/consensus/utils.rs path="fn gc_round" ret=r
//@spec
    ensures r == (if commit_round >= gc_depth { commit_round - gc_depth } else { 0 }),
//@end
//@item file=crates/consensus/primary/src/state_sync/cert_manager.rs path="struct CertificateManager"
//@sub? /<DB>/ => 
//@end
/// why a parent need not be among the accepted
pub open spec fn excused(c: Certificate, p: HeaderDigest, g: int, gen: Set<HeaderDigest>) -> bool { c.rd() <= g + 1 || (c.rd() == 1 && gen.contains(p)) }
/// every certificate handed on is verified, and its parents were handed on before (or stored before the start), are garbage, or the genesis
pub open spec fn causal(l: Seq<Certificate>, base: Set<HeaderDigest>, g: int, gen: Set<HeaderDigest>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).sure()
    &&& forall|i: int, p: HeaderDigest| 0 <= i < l.len() && #[trigger] l[i].pars().contains(p) ==> base.contains(p) || out(l.take(i), p) || excused(l[i], p, g, gen)
}
impl CertificateManager {
    pub open spec fn gcr(self) -> int { if cr(self.consensus_bus) >= self.config.cfg.parameters.gc_depth { cr(self.consensus_bus) - self.config.cfg.parameters.gc_depth } else { 0 } }
    pub open spec fn lg(self) -> Seq<Certificate> { log(self.consensus_bus) }
    pub open spec fn base(self) -> Set<HeaderDigest> { self.config.base@ }
    pub open spec fn gens(self) -> Set<HeaderDigest> { gen_keys(self.config.gen) }
    pub open spec fn st(self) -> Set<HeaderDigest> { stored(self.config.store) }
    pub open spec fn sound(self) -> bool { causal(self.lg(), self.base(), self.gcr(), self.gens()) }
    /// the store is what was there and what was handed on; who waits misses only certificates not accepted, and its other parents are
    pub open spec fn wf(self) -> bool {
        &&& self.sound() && self.pending.wf()
        &&& forall|d: HeaderDigest| #[trigger] self.st().contains(d) <==> self.base().contains(d) || out(self.lg(), d)
        &&& forall|d: HeaderDigest, p: HeaderDigest| self.pending.has(d) && #[trigger] self.pending.cert(d).pars().contains(p) ==> self.pending.waits(d, p) || self.st().contains(p) || excused(self.pending.cert(d), p, self.gcr(), self.gens())
        &&& forall|d: HeaderDigest, p: HeaderDigest| #[trigger] self.pending.waits(d, p) ==> !self.st().contains(p)
    }
    /// accepted, or waiting
    pub open spec fn dealt(self, d: HeaderDigest) -> bool { self.pending.has(d) || out(self.lg(), d) }
    /// `self` comes after `o`
    pub open spec fn after(self, o: Self) -> bool { self.config.same(o.config) && later(o.consensus_bus, self.consensus_bus) && o.lg().is_prefix_of(self.lg()) && self.gcr() >= o.gcr() }
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn gc_round" ret=r
//@spec
    ensures r == self.gcr(), r < u32::MAX,
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn get_missing_parents" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /&self,/ => &mut self,
//@sub? /self\s*\.consensus_bus\s*\.certificate_fetcher\(\)\s*\.send\(/ => self.consensus_bus.send_fetch(
//@sub? /in (certificate\.header\(\)\.parents\(\)) \{/ => in \1.iter() {
//@chain
//@vsub? /let mut vx_col0 = Vec::new\(\)/ => let mut vx_col0: HashSet<HeaderDigest> = HashSet::new()
//@vsub? /vx_col0\.push\(/ => vx_col0.insert(
//@forvec 0
//@forvec 1
//@loop 0 iter=it
    invariant *self == *old(self), setlike(it.seq(), certificate.pars()), forall|i: int| 0 <= i < it.index() ==> self.gens().contains(*(#[trigger] it.seq()[i])), it.index() == it.seq().len() ==> certificate.pars().subset_of(self.gens()),
//@loopend 0
    proof { lemma_gens(it.seq(), certificate.pars(), self.gens(), it.index() + 1); }
//@loop 1 iter=it
    invariant self.lg() == old(self).lg(), self.consensus_bus == old(self).consensus_bus, self.config == old(self).config, self.pending == old(self).pending, self.parents == old(self).parents, zipped(it.seq(), certificate.pars(), self.st()), forall|p: HeaderDigest| #[trigger] vx_col0@.contains(p) <==> absent(it.seq(), it.index() as nat, p), it.index() == it.seq().len() ==> missed(vx_col0@, certificate.pars(), self.st()),
//@loopend 1
    proof { lemma_absent(it.seq(), certificate.pars(), self.st(), it.index() as nat); lemma_missed(it.seq(), vx_col0@, certificate.pars(), self.st(), (it.index() + 1) as nat); }
//@spec
    ensures final(self).after(*old(self)), final(self).lg() == old(self).lg(), final(self).config == old(self).config, final(self).pending == old(self).pending, final(self).parents == old(self).parents,
        r matches Ok(m) ==> (certificate.rd() == 1 ==> certificate.pars().subset_of(old(self).gens()) && m@ == Set::<HeaderDigest>::empty()) && (certificate.rd() != 1 ==> missed(m@, certificate.pars(), old(self).st())),
        r matches Ok(m) ==> (m@ != Set::<HeaderDigest>::empty() ==> asked(final(self).consensus_bus).contains(certificate.dig())),
        r matches Err(e) ==> !fatal(e) && !(e is Pending),
//@end
}
/// the parents, each once
pub open spec fn setlike(s: Seq<&HeaderDigest>, m: Set<HeaderDigest>) -> bool { s.len() == sorted_keys(m).len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == sorted_keys(m)[i] }
/// ... and whether the store holds them
pub open spec fn zipped(s: Seq<(&HeaderDigest, &bool)>, m: Set<HeaderDigest>, st: Set<HeaderDigest>) -> bool { s.len() == sorted_keys(m).len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).0 == sorted_keys(m)[i] && *s[i].1 == st.contains(sorted_keys(m)[i]) }
pub open spec fn absent(s: Seq<(&HeaderDigest, &bool)>, n: nat, p: HeaderDigest) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] s[i]).1 == false && *s[i].0 == p }
pub open spec fn missed(v: Set<HeaderDigest>, m: Set<HeaderDigest>, st: Set<HeaderDigest>) -> bool { forall|p: HeaderDigest| #[trigger] v.contains(p) <==> m.contains(p) && st.contains(p) == false }
proof fn lemma_gens(s: Seq<&HeaderDigest>, m: Set<HeaderDigest>, g: Set<HeaderDigest>, n: int) requires setlike(s, m), forall|i: int| 0 <= i < n ==> g.contains(*(#[trigger] s[i])), ensures n == s.len() ==> m.subset_of(g) {
    if n == s.len() { assert forall|d: HeaderDigest| m.contains(d) implies g.contains(d) by { let i = sorted_keys(m).index_of(d); assert(sorted_keys(m).contains(d)); assert(*s[i] == d); } }
}
proof fn lemma_absent(s: Seq<(&HeaderDigest, &bool)>, m: Set<HeaderDigest>, st: Set<HeaderDigest>, n: nat) requires n < s.len(),
    ensures forall|p: HeaderDigest| #[trigger] absent(s, n + 1, p) <==> absent(s, n, p) || (*s[n as int].1 == false && *s[n as int].0 == p)
{
    assert forall|p: HeaderDigest| #[trigger] absent(s, n + 1, p) <==> absent(s, n, p) || (*s[n as int].1 == false && *s[n as int].0 == p) by {
        if absent(s, n, p) { let i = choose|i: int| 0 <= i < n && *(#[trigger] s[i]).1 == false && *s[i].0 == p; assert(*s[i].1 == false); }
        if absent(s, n + 1, p) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] s[i]).1 == false && *s[i].0 == p; if i < n { assert(*s[i].1 == false); } }
    }
}
proof fn lemma_missed(s: Seq<(&HeaderDigest, &bool)>, v: Set<HeaderDigest>, m: Set<HeaderDigest>, st: Set<HeaderDigest>, n: nat) requires zipped(s, m, st), forall|p: HeaderDigest| #[trigger] v.contains(p) <==> absent(s, n, p), ensures n == s.len() ==> missed(v, m, st) {
    if n == s.len() {
    assert forall|p: HeaderDigest| #[trigger] v.contains(p) <==> m.contains(p) && st.contains(p) == false by {
        if absent(s, s.len(), p) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).1 == false && *s[i].0 == p; assert(m.contains(sorted_keys(m)[i])); }
        if m.contains(p) && st.contains(p) == false { let i = sorted_keys(m).index_of(p); assert(sorted_keys(m).contains(p)); assert(*s[i].0 == p); assert(*s[i].1 == false); assert(absent(s, s.len(), p)); }
    } }
}
pub open spec fn fatal(e: CertManagerError) -> bool { e is FatalAppendParent || e is FatalForwardAcceptedCertificate || e is FatalStoreAcceptedCertificates }
/// every certificate handed on is counted as a parent as well
pub open spec fn told(o: CertificateManager, s: CertificateManager) -> bool { heard(s.parents) == heard(o.parents) + s.lg().skip(o.lg().len() as int) }
/// none that waited is lost
pub open spec fn kept(o: CertificateManager, s: CertificateManager) -> bool { forall|d: HeaderDigest| #[trigger] o.dealt(d) ==> s.dealt(d) }
proof fn lemma_told(o: CertificateManager, a: CertificateManager, b: CertificateManager, x: Seq<Certificate>)
    requires told(o, a), o.lg().is_prefix_of(a.lg()), b.lg() == a.lg() + x, heard(b.parents) == heard(a.parents) + x, ensures told(o, b),
{ assert(b.lg().skip(a.lg().len() as int) =~= x); assert(heard(b.parents) =~= heard(o.parents) + (a.lg().skip(o.lg().len() as int) + b.lg().skip(a.lg().len() as int))); assert(b.lg().skip(o.lg().len() as int) =~= a.lg().skip(o.lg().len() as int) + b.lg().skip(a.lg().len() as int)); }
proof fn lemma_grown(a: Seq<Certificate>, b: Seq<Certificate>) requires a.is_prefix_of(b), ensures forall|d: HeaderDigest| #[trigger] out(a, d) ==> out(b, d) {
    assert forall|d: HeaderDigest| #[trigger] out(a, d) implies out(b, d) by { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).dig() == d; assert(b[i] == a[i]); }
}
proof fn lemma_kept(o: CertificateManager, a: CertificateManager, b: CertificateManager)
    requires kept(o, a), a.lg().is_prefix_of(b.lg()), forall|d: HeaderDigest| #[trigger] a.pending.has(d) ==> b.pending.has(d) || out(b.lg(), d), ensures kept(o, b), kept(a, b),
{ lemma_grown(a.lg(), b.lg()); }
/// only the round of the last commit moved
proof fn lemma_later(o: CertificateManager, s: CertificateManager)
    requires o.wf(), s.after(o), s.lg() == o.lg(), s.config == o.config, s.pending == o.pending, heard(s.parents) == heard(o.parents), ensures s.wf(), told(o, s), kept(o, s),
{
    lemma_causal(o.lg(), s.lg(), s.base(), o.gcr(), s.gcr(), s.gens());
    assert forall|d: HeaderDigest| #[trigger] s.st().contains(d) <==> s.base().contains(d) || out(s.lg(), d) by { assert(o.st().contains(d) <==> o.base().contains(d) || out(o.lg(), d)); }
    assert forall|d: HeaderDigest, p: HeaderDigest| s.pending.has(d) && #[trigger] s.pending.cert(d).pars().contains(p) implies s.pending.waits(d, p) || s.st().contains(p) || excused(s.pending.cert(d), p, s.gcr(), s.gens()) by { assert(o.pending.has(d)); assert(o.pending.cert(d).pars().contains(p)); }
    assert forall|d: HeaderDigest, p: HeaderDigest| #[trigger] s.pending.waits(d, p) implies !s.st().contains(p) by { assert(o.pending.waits(d, p)); }
    assert(heard(s.parents) =~= heard(o.parents) + s.lg().skip(o.lg().len() as int));
}
/// one more that waits
proof fn lemma_waits(o: CertificateManager, s: CertificateManager, c: Certificate, m: Set<HeaderDigest>)
    requires o.wf(), s.pending.wf(), s.config == o.config, s.consensus_bus == o.consensus_bus, s.parents == o.parents, added(o.pending, s.pending, c, m), !o.pending.has(c.dig()), missed(m, c.pars(), o.st()),
    ensures s.wf(), s.dealt(c.dig()), kept(o, s),
{
    assert(s.pending.has(c.dig()));
    assert forall|d: HeaderDigest, p: HeaderDigest| s.pending.has(d) && #[trigger] s.pending.cert(d).pars().contains(p) implies s.pending.waits(d, p) || s.st().contains(p) || excused(s.pending.cert(d), p, s.gcr(), s.gens()) by {
        if d != c.dig() { assert(o.pending.has(d)); assert(s.pending.pending@[d] == o.pending.pending@[d]); assert(o.pending.cert(d).pars().contains(p)); if o.pending.waits(d, p) { assert(s.pending.waits(d, p)); } else if o.st().contains(p) { assert(s.st().contains(p)); } }
        else { if !o.st().contains(p) { assert(m.contains(p)); } else { assert(s.st().contains(p)); } }
    }
    assert forall|d: HeaderDigest, p: HeaderDigest| #[trigger] s.pending.waits(d, p) implies !s.st().contains(p) by {
        if d != c.dig() { assert(o.pending.has(d)); assert(s.pending.pending@[d] == o.pending.pending@[d]); assert(o.pending.waits(d, p)); } else { assert(m.contains(p)); }
    }
    assert forall|d: HeaderDigest| #[trigger] s.st().contains(d) <==> s.base().contains(d) || out(s.lg(), d) by { assert(o.st().contains(d) <==> o.base().contains(d) || out(o.lg(), d)); }
    assert forall|d: HeaderDigest| #[trigger] o.dealt(d) implies s.dealt(d) by { }
}
// ---- acceptance
proof fn lemma_out(a: Seq<Certificate>, b: Seq<Certificate>) ensures forall|d: HeaderDigest| #[trigger] out(a + b, d) <==> out(a, d) || out(b, d) {
    assert forall|d: HeaderDigest| #[trigger] out(a + b, d) <==> out(a, d) || out(b, d) by {
        if out(a, d) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).dig() == d; assert((a + b)[i].dig() == d); }
        if out(b, d) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).dig() == d; assert((a + b)[a.len() + i].dig() == d); }
        if out(a + b, d) { let i = choose|i: int| 0 <= i < (a + b).len() && (#[trigger] (a + b)[i]).dig() == d; if i < a.len() { assert(a[i].dig() == d); } else { assert(b[i - a.len()].dig() == d); } }
    }
}
/// as far as it got, and with a later collection round
proof fn lemma_causal(l: Seq<Certificate>, m: Seq<Certificate>, base: Set<HeaderDigest>, g: int, h: int, gen: Set<HeaderDigest>) requires causal(l, base, g, gen), m.is_prefix_of(l), g <= h, ensures causal(m, base, h, gen) {
    assert(m =~= l.take(m.len() as int));
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).sure() by { assert(m[i] == l[i]); }
    assert forall|i: int, p: HeaderDigest| 0 <= i < m.len() && #[trigger] m[i].pars().contains(p) implies base.contains(p) || out(m.take(i), p) || excused(m[i], p, h, gen) by { assert(m[i] == l[i]); assert(l[i].pars().contains(p)); assert(m.take(i) =~= l.take(i)); }
}
/// `c` may be accepted now
pub open spec fn due(o: CertificateManager, c: Certificate, g: int) -> bool { c.sure() && forall|p: HeaderDigest| #[trigger] c.pars().contains(p) ==> o.st().contains(p) || excused(c, p, g, o.gens()) }
proof fn lemma_due(o: CertificateManager, c: Certificate, m: Set<HeaderDigest>) requires c.sure(), c.rd() == 1 ==> c.pars().subset_of(o.gens()), c.rd() != 1 ==> missed(m, c.pars(), o.st()), ensures m == Set::<HeaderDigest>::empty() ==> due(o, c, o.gcr()) {
    if m == Set::<HeaderDigest>::empty() { assert forall|p: HeaderDigest| #[trigger] c.pars().contains(p) implies o.st().contains(p) || excused(c, p, o.gcr(), o.gens()) by { assert(!m.contains(p)); } }
}
/// the certificate `hd` (if any) for `t`, then what it released: in causal order
proof fn lemma_order(o: CertificateManager, pm: PendingCertificateManager, hd: Seq<Certificate>, t: HeaderDigest, r: Seq<Certificate>, g: int)
    requires o.wf(), o.gcr() <= g, released(o.pending, pm, t, r), hd.len() <= 1, hd.len() == 1 ==> hd[0].dig() == t && due(o, hd[0], g), hd.len() == 0 ==> rnd(t) <= g,
    ensures causal(o.lg() + (hd + r), o.base(), g, o.gens()),
{
    let l0 = o.lg(); let l = l0 + (hd + r); let n = l0.len() as int; let k = hd.len() as int;
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).sure() by {
        if i < n { assert(l[i] == l0[i]); } else if i < n + k { assert(l[i] == hd[i - n]); } else { let c = r[i - n - k]; assert(l[i] == c); assert(o.pending.has(c.dig())); assert(o.pending.entry_ok(c.dig())); }
    }
    assert forall|i: int, p: HeaderDigest| 0 <= i < l.len() && #[trigger] l[i].pars().contains(p) implies o.base().contains(p) || out(l.take(i), p) || excused(l[i], p, g, o.gens()) by {
        if i < n { assert(l[i] == l0[i]); assert(l0[i].pars().contains(p)); assert(l.take(i) =~= l0.take(i)); }
        else if i < n + k { assert(l[i] == hd[i - n]); assert(i == n); assert(l.take(i) =~= l0); assert(hd[0].pars().contains(p)); if o.st().contains(p) { assert(o.base().contains(p) || out(l0, p)); } }
        else {
            let j = i - n - k; let c = r[j]; assert(l[i] == c); assert(o.pending.has(c.dig())); assert(o.pending.cert(c.dig()) == c); assert(o.pending.cert(c.dig()).pars().contains(p));
            assert(l.take(i) =~= l0 + (hd + r.take(j))); lemma_out(l0, hd + r.take(j)); lemma_out(hd, r.take(j));
            if o.pending.waits(c.dig(), p) {
                assert(o.pending.waits(r[j].dig(), p)); assert(p == t || out(r.take(j), p));
                if p == t { if k == 1 { assert(hd[0].dig() == t); assert(out(hd, p)); } else { assert(o.pending.entry_ok(c.dig())); ax_cert(c); assert(c.rd() == rnd(p) + 1); } }
            } else if o.st().contains(p) { assert(o.base().contains(p) || out(l0, p)); }
        }
    }
}
/// and the manager is as it should be again
proof fn lemma_settled(o: CertificateManager, s: CertificateManager, hd: Seq<Certificate>, t: HeaderDigest, r: Seq<Certificate>, g: int)
    requires o.wf(), o.gcr() <= g, released(o.pending, s.pending, t, r), hd.len() <= 1, hd.len() == 1 ==> hd[0].dig() == t && due(o, hd[0], g), hd.len() == 0 ==> rnd(t) <= g,
        s.pending.wf(), s.after(o), g <= s.gcr(), s.lg() == o.lg() + (hd + r), forall|d: HeaderDigest| #[trigger] s.st().contains(d) <==> o.st().contains(d) || out(hd + r, d),
    ensures s.wf(), hd.len() == 1 ==> out(s.lg(), t), forall|d: HeaderDigest| #[trigger] o.pending.has(d) ==> s.pending.has(d) || out(s.lg(), d),
{
    lemma_order(o, s.pending, hd, t, r, g);
    lemma_causal(s.lg(), s.lg(), s.base(), g, s.gcr(), s.gens());
    lemma_out(o.lg(), hd + r); lemma_out(hd, r);
    if hd.len() == 1 { assert(hd[0].dig() == t); assert(out(hd, t)); }
    assert forall|d: HeaderDigest| #[trigger] s.st().contains(d) <==> s.base().contains(d) || out(s.lg(), d) by { assert(o.st().contains(d) <==> o.base().contains(d) || out(o.lg(), d)); }
    assert forall|d: HeaderDigest, p: HeaderDigest| s.pending.has(d) && #[trigger] s.pending.cert(d).pars().contains(p) implies s.pending.waits(d, p) || s.st().contains(p) || excused(s.pending.cert(d), p, s.gcr(), s.gens()) by {
        assert(o.pending.has(d)); assert(o.pending.cert(d) == s.pending.cert(d)); assert(o.pending.cert(d).pars().contains(p));
        if o.pending.waits(d, p) && !s.pending.waits(d, p) { assert(p == t || out(r, p)); if p == t && hd.len() == 0 { assert(o.pending.entry_ok(d)); ax_cert(o.pending.cert(d)); } }
        else if o.st().contains(p) { assert(s.st().contains(p)); }
    }
    assert forall|d: HeaderDigest, p: HeaderDigest| #[trigger] s.pending.waits(d, p) implies !s.st().contains(p) by {
        assert(o.pending.waits(d, p)); assert(!o.st().contains(p));
        if out(hd, p) { let i = choose|i: int| 0 <= i < hd.len() && (#[trigger] hd[i]).dig() == p; assert(i == 0); assert(p == t); }
    }
    assert forall|d: HeaderDigest| #[trigger] o.pending.has(d) implies s.pending.has(d) || out(s.lg(), d) by { assert(s.pending.has(d) <==> o.pending.has(d) && !out(r, d)); }
}
/// it was cut short
proof fn lemma_cut(o: CertificateManager, s: CertificateManager, pm: PendingCertificateManager, hd: Seq<Certificate>, t: HeaderDigest, r: Seq<Certificate>, g: int)
    requires o.wf(), o.gcr() <= g, released(o.pending, pm, t, r), hd.len() <= 1, hd.len() == 1 ==> hd[0].dig() == t && due(o, hd[0], g), hd.len() == 0 ==> rnd(t) <= g,
        s.after(o), g <= s.gcr(), s.lg().is_prefix_of(o.lg() + (hd + r)),
    ensures s.sound(),
{
    lemma_order(o, pm, hd, t, r, g); lemma_causal(o.lg() + (hd + r), s.lg(), s.base(), g, s.gcr(), s.gens());
}
impl CertificateManager {
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn accept_verified_certificates" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /self\.consensus_bus\s*\.new_certificates\(\)\s*\.send\(/ => self.consensus_bus.send_new(
//@sub? /\.inspect_err\(\|e\| \{[^{}]*\}\)/ => 
//@desugar res.map_err
//@vsub? /in certificates\.into_iter\(\)/ => in certificates.vx_all()
//@forvec 0
//@head
    let ghost cs = certificates@;
//@loop 0 iter=it
    invariant it.seq() == cs, self.pending == old(self).pending, self.after(*old(self)), self.lg() == old(self).lg() + cs.take(it.index()), heard(self.parents) == heard(old(self).parents) + cs.take(it.index()), forall|d: HeaderDigest| #[trigger] self.st().contains(d) <==> old(self).st().contains(d) || out(cs, d),
//@loophead 0
    let ghost s1 = self.st();
//@loopend 0
    proof { assert(self.st() == s1); assert(cs.take(it.index()).push(cs[it.index()]) =~= cs.take(it.index() + 1)); assert(self.lg() =~= old(self).lg() + cs.take(it.index() + 1)); assert(heard(self.parents) =~= heard(old(self).parents) + cs.take(it.index() + 1)); }
//@spec
    ensures final(self).pending == old(self).pending, final(self).after(*old(self)), final(self).lg().is_prefix_of(old(self).lg() + certificates@),
        r is Ok ==> final(self).lg() == old(self).lg() + certificates@ && heard(final(self).parents) == heard(old(self).parents) + certificates@ && forall|d: HeaderDigest| #[trigger] final(self).st().contains(d) <==> old(self).st().contains(d) || out(certificates@, d),
        r matches Err(e) ==> fatal(e),
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn process_verified_certificates" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /self\s*\.consensus_bus\s*\.app\(\)\s*\.metrics\(\)[^;]*;/ => 
//@vsub? /let mut result = Ok\(\(\)\);/ => let mut result: CertManagerResult<()> = Ok(());
//@forwhile 0
//@vsub? /let cert = vx_v0\[vx_i0\];/ => let cert = vx_v0[vx_i0].clone(); let ghost s0 = *self; let ghost c = cert; let ghost gr = self.gcr();
//@loop 0
    invariant
        vx_v0 == certs, vx_i0 <= certs@.len(), self.wf(), self.after(*old(self)), told(*old(self), *self), kept(*old(self), *self), forall|j: int| 0 <= j < vx_i0 ==> self.dealt((#[trigger] certs@[j]).dig()),
        result is Ok ==> forall|j: int| 0 <= j < vx_i0 ==> out(self.lg(), (#[trigger] certs@[j]).dig()),
        result matches Err(e) ==> e is Pending,
    decreases certs@.len() - vx_i0
//@before? /let missing_parents = self\.get_missing_parents/
    let ghost sa = *self;
    proof { assert forall|x: CertificateManager| #![trigger x.wf()] x.after(sa) && x.lg() == sa.lg() && x.config == sa.config && x.pending == sa.pending && heard(x.parents) == heard(sa.parents) implies x.wf() && told(sa, x) && kept(sa, x) by { lemma_later(sa, x); } }
//@after? /let missing_parents = self\.get_missing_parents\(&cert\)\?;/
    proof { lemma_later(sa, *self); lemma_due(*self, c, missing_parents@); }
//@before? /self\.pending\.insert_pending\(/
    let ghost sb = *self; let ghost mp = missing_parents@;
//@after? /self\.pending\.insert_pending\(cert, missing_parents\)\?;/
    proof { lemma_waits(sb, *self, c, mp); }
//@before? /let mut unlocked = self\.pending\.update_pending\(/
    let ghost sc = *self; proof { ax_cert(c); assert(due(sc, c, sc.gcr())); }
//@after? /let mut unlocked = self\.pending\.update_pending\(cert\.round\(\), digest\)\?;/
    let ghost rel = unlocked@; let ghost sd = *self;
//@before? /self\.accept_verified_certificates\(unlocked\)/
    proof {
        assert forall|x: CertificateManager| #![trigger x.sound()] x.after(sc) && x.lg().is_prefix_of(sc.lg() + (seq![c] + rel)) implies x.sound() by { lemma_cut(sc, x, sd.pending, seq![c], c.dig(), rel, sc.gcr()); }
    }
//@after? /self\.accept_verified_certificates\(unlocked\)\?;/
    proof { lemma_settled(sc, *self, seq![c], c.dig(), rel, sc.gcr()); lemma_told(*old(self), sc, *self, seq![c] + rel); lemma_kept(*old(self), s0, *self); lemma_grown(s0.lg(), self.lg()); }
//@spec
    requires old(self).wf(),
    ensures final(self).after(*old(self)), final(self).sound(), !(r matches Err(e) && fatal(e)) ==> final(self).wf() && told(*old(self), *final(self)) && kept(*old(self), *final(self)),
        (r is Ok || r->Err_0 is Pending) ==> forall|j: int| 0 <= j < certs@.len() ==> final(self).dealt((#[trigger] certs@[j]).dig()),
        r is Ok ==> forall|j: int| 0 <= j < certs@.len() ==> out(final(self).lg(), (#[trigger] certs@[j]).dig()),
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn process_gc_round" ret=r async=drop
//@sub? /\.await\b/ => 
//@beforeloop 0
    proof { lemma_later(*old(self), *self); }
//@loop 0
    invariant self.wf(), self.after(*old(self)), told(*old(self), *self), kept(*old(self), *self), gc_round == old(self).gcr(),
    ensures forall|q: Key| #[trigger] self.pending.missing_for_pending@.contains_key(q) ==> q.0 > gc_round,
    decreases self.pending.missing_for_pending@.dom().len()
//@loophead 0
    let ghost sc = *self;
//@after? /let unlocked = self\.pending\.update_pending\(round, digest\)\?;/
    let ghost rel = unlocked@; let ghost sd = *self;
//@before? /self\.accept_verified_certificates\(unlocked\)/
    proof {
        assert forall|x: CertificateManager| #![trigger x.sound()] x.after(sc) && x.lg().is_prefix_of(sc.lg() + (Seq::<Certificate>::empty() + rel)) implies x.sound() by { lemma_cut(sc, x, sd.pending, Seq::empty(), digest, rel, sc.gcr()); }
    }
//@after? /self\.accept_verified_certificates\(unlocked\)\?;/
    proof { lemma_settled(sc, *self, Seq::empty(), digest, rel, sc.gcr()); assert(Seq::<Certificate>::empty() + rel =~= rel); lemma_told(*old(self), sc, *self, rel); assert(self.pending.missing_for_pending@.dom().subset_of(sc.pending.missing_for_pending@.dom().remove(kof(digest)))); vstd::set_lib::lemma_len_subset(self.pending.missing_for_pending@.dom(), sc.pending.missing_for_pending@.dom().remove(kof(digest))); lemma_kept(*old(self), sc, *self); }
//@spec
    requires old(self).wf(),
    ensures final(self).after(*old(self)), final(self).sound(), !(r matches Err(e) && fatal(e)) ==> final(self).wf() && told(*old(self), *final(self)) && kept(*old(self), *final(self)),
        r matches Err(e) ==> fatal(e),
        r is Ok ==> forall|d: HeaderDigest, p: HeaderDigest| #[trigger] final(self).pending.waits(d, p) ==> rnd(p) > old(self).gcr(),
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn recover_state" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /\.expect\(/ => .vx_expect(
//@vsub? /in last_round_certificates \{/ => in vx_into_iter(last_round_certificates) {
//@forvec 0
//@loop 0 iter=it
    invariant self.consensus_bus == old(self).consensus_bus, self.config == old(self).config, self.pending == old(self).pending,
//@spec
    ensures final(self).consensus_bus == old(self).consensus_bus, final(self).config == old(self).config, final(self).pending == old(self).pending,
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn new" ret=r
//@sub? /ConsensusConfig<DB>/ => ConsensusConfig
//@spec
    requires config.base@ == stored(config.store), log(consensus_bus).len() == 0,
    ensures r.wf(), r.config == config, r.lg().len() == 0, forall|d: HeaderDigest| !#[trigger] r.pending.has(d),
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn run" ret=r async=drop mutself=ref
//@select
//@sub? /\.await\b/ => 
//@sub? /impl TnReceiver</ => VxRx<
//@attr
    #[verifier::exec_allows_no_decreases_clause]
//@beforeloop 0
    proof { lemma_parents(*old(self), *self); }
//@loop 0
    invariant self.wf(), self.after(*old(self)), kept(*old(self), *self),
//@spec
    requires old(self).wf(),
    ensures final(self).after(*old(self)), final(self).sound(),
//@end
}
proof fn lemma_parents(o: CertificateManager, s: CertificateManager) requires o.wf(), s.consensus_bus == o.consensus_bus, s.config == o.config, s.pending == o.pending, ensures s.wf(), s.after(o), kept(o, s) {
    assert forall|d: HeaderDigest| #[trigger] s.st().contains(d) <==> s.base().contains(d) || out(s.lg(), d) by { assert(o.st().contains(d) <==> o.base().contains(d) || out(o.lg(), d)); }
    assert forall|d: HeaderDigest, p: HeaderDigest| s.pending.has(d) && #[trigger] s.pending.cert(d).pars().contains(p) implies s.pending.waits(d, p) || s.st().contains(p) || excused(s.pending.cert(d), p, s.gcr(), s.gens()) by { assert(o.pending.has(d)); assert(o.pending.cert(d).pars().contains(p)); }
    assert forall|d: HeaderDigest, p: HeaderDigest| #[trigger] s.pending.waits(d, p) implies !s.st().contains(p) by { assert(o.pending.waits(d, p)); }
}
}
fn main() {}
