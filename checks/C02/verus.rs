// C02: headers, votes, certificates
#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use std::sync::Arc;
verus! {
//@include lib/verus/result.rs
//@include lib/verus/question.rs
//@include lib/verus/viter.rs
//@include lib/verus/btree.rs
//@include lib/verus/hashmap.rs
//@known IndexMap BlockNumHash Committee Authority HashSet Arc DagError HeaderError CertificateError CertManagerError MAX_HEADER_NUM_OF_BATCHES
broadcast use {vx_btree::group_btree, vx_b::group_b, vx_q::ax_question};
pub type Round = u32; pub type Epoch = u32; pub type VotingPower = u64; pub type TimestampSec = u64; pub type WorkerId = u16;
macro_rules! vx_id { ($n:ident, $t:ty) => { verus! {
    #[derive(Clone, Copy)] pub struct $n(pub $t);
    impl vstd::std_specs::cmp::PartialEqSpecImpl for $n { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
    impl $n { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
} } }
vx_id!(HeaderDigest, u64); vx_id!(AuthorityIdentifier, u64); vx_id!(BlsPublicKey, u64); vx_id!(BlsSignature, u64); vx_id!(BlockHash, u64); vx_id!(BlockNumHash, u64);
pub struct IndexMap<K, V> { pub e: Vec<(K, V)> }
impl<K, V> View for IndexMap<K, V> { type V = Seq<(K, V)>; open spec fn view(&self) -> Seq<(K, V)> { self.e@ } }
impl<K, V> IndexMap<K, V> {
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.e.len() }
    #[verifier::external_body] pub fn values<'a>(&'a self) -> (r: VIter<&'a V>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *r@[i] == self@[i].1 { unimplemented!() }
}
// ---------------------------------------------------------------- headers
//@item file=crates/types/src/primary/header.rs path="struct HeaderInner"
//@end
//@item file=crates/types/src/primary/header.rs path="struct Header"
//@end
//@item file=crates/types/src/primary/header.rs path="struct HeaderBuilder"
//@end
//@item file=crates/types/src/primary/mod.rs path="const MAX_HEADER_NUM_OF_BATCHES"
//@end
/// what a header says
pub ghost struct HF { pub author: AuthorityIdentifier, pub round: Round, pub epoch: Epoch, pub created_at: u64, pub payload: Seq<(BlockHash, WorkerId)>, pub parents: Set<HeaderDigest>, pub exe: BlockNumHash, pub seed: BlsSignature }
pub open spec fn said(i: HeaderInner) -> HF { HF { author: i.author, round: i.round, epoch: i.epoch, created_at: i.created_at, payload: i.payload@, parents: i.parents@, exe: i.latest_execution_block, seed: i.seed_signature } }
impl HeaderInner { pub open spec fn wf(self) -> bool { self.digest == vx_b::hd(said(self)) } }
impl Header {
    /// the cached digest is that of the fields
    pub open spec fn wf(self) -> bool { self.inner.wf() }
    pub open spec fn f(self) -> HF { said(*self.inner) }
    pub open spec fn dig(self) -> HeaderDigest { vx_b::hd(self.f()) }
}
pub mod vx_b {
use vstd::prelude::*;
use super::*;
/// the header digest: a function of the fields (the preimage is decided by C04)
pub uninterp spec fn hd(f: HF) -> HeaderDigest;
pub uninterp spec fn author0() -> AuthorityIdentifier;
pub uninterp spec fn exe0() -> BlockNumHash;
pub uninterp spec fn sig0() -> BlsSignature;
/// how far a digest is from the genesis: parents are nearer (digests do not run in a circle)
pub uninterp spec fn depth(d: HeaderDigest) -> nat;
pub broadcast axiom fn ax_depth(f: HF, p: HeaderDigest) ensures #![trigger f.parents.contains(p), hd(f)] f.parents.contains(p) ==> depth(p) < depth(hd(f));
// ---- BLS, by the contracts of C19
pub uninterp spec fn sig_ok(s: BlsSignature, m: HeaderDigest, k: BlsPublicKey) -> bool;
pub uninterp spec fn agg(s: Seq<BlsSignature>) -> Option<BlsSignature>;
pub uninterp spec fn agg_ok(s: BlsSignature, m: HeaderDigest, ks: Seq<BlsPublicKey>) -> bool;
/// valid signatures aggregate to one that verifies
pub broadcast axiom fn ax_agg(s: Seq<BlsSignature>, m: HeaderDigest, ks: Seq<BlsPublicKey>)
    ensures #![trigger agg(s), agg_ok(agg(s)->0, m, ks)] s.len() == ks.len() && s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> sig_ok(#[trigger] s[i], m, ks[i])) ==> agg(s) is Some && agg_ok(agg(s)->0, m, ks);
/// ordered iteration is ascending
pub broadcast axiom fn ax_asc_key(s: Set<BlsPublicKey>) ensures #![trigger sorted_keys(s)] forall|i: int, j: int| 0 <= i < j < sorted_keys(s).len() ==> (#[trigger] sorted_keys(s)[i]).0 < (#[trigger] sorted_keys(s)[j]).0;
pub broadcast axiom fn ax_asc_u32(s: Set<u32>) ensures #![trigger sorted_keys(s)] forall|i: int, j: int| 0 <= i < j < sorted_keys(s).len() ==> (#[trigger] sorted_keys(s)[i]) < (#[trigger] sorted_keys(s)[j]);
pub broadcast group group_b { ax_asc_key, ax_asc_u32, ax_depth }
}
pub use vx_b::{hd, sig_ok, agg, agg_ok};
#[verifier::external_body] pub fn vx_hash(i: &HeaderInner) -> (r: HeaderDigest) ensures r == hd(said(*i)) { unimplemented!() }
#[verifier::external_body] pub fn now() -> (r: u64) { unimplemented!() }
impl HeaderDigest { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl BlsSignature { #[verifier::external_body] pub fn default() -> (r: Self) ensures r == vx_b::sig0() { unimplemented!() } }
//@verus-only
pub enum HeaderError { InvalidEpoch { theirs: Epoch, ours: Epoch }, UnknownAuthority(String), UnkownWorkerId, TooManyParents(usize, usize), TooManyBatches(usize, usize), Other }
pub type HeaderResult<T> = Result<T, HeaderError>;
//@end-only
impl Header {
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn new" ret=r
//@sub? /Hash::digest\(&inner\)/ => vx_hash(&inner)
//@spec
    ensures r.wf(), r.f() == (HF { author, round, epoch, created_at: r.f().created_at, payload: payload@, parents: parents@, exe: latest_execution_block, seed: seed_signature }),
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn digest" ret=r
//@spec
    ensures r == self.inner.digest,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn validate" ret=r
//@sub? /debug_assert_eq!\([^;]*\);/ => 
//@desugar opt.ok_or
//@forvec 0
//@loop 0 iter=it
    invariant cepoch(*committee) == self.f().epoch, forall|i: int| 0 <= i < it.index() ==> (#[trigger] self.f().payload[i]).1 < nworkers(*committee),
        it.seq().len() == self.f().payload.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.f().payload[i].1,
//@loophead 0
    proof { assert(*it.seq()[it.index()] == self.f().payload[it.index()].1); }
//@spec
    ensures r is Ok <==> valid(self.f(), *committee),
        r matches Err(e) ==> vx_why(self.f(), *committee, e),
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn author" ret=r
//@spec
    ensures *r == self.f().author,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn round" ret=r
//@spec
    ensures r == self.f().round,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn epoch" ret=r
//@spec
    ensures r == self.f().epoch,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn parents" ret=r
//@spec
    ensures r@ == self.f().parents,
//@end
}
/// a header the committee may certify
pub open spec fn valid(h: HF, c: Committee) -> bool {
    &&& h.epoch == cepoch(c)
    &&& h.parents.len() <= csize(c)
    &&& h.payload.len() <= MAX_HEADER_NUM_OF_BATCHES
    &&& members(c).contains_key(h.author)
    &&& forall|i: int| 0 <= i < h.payload.len() ==> (#[trigger] h.payload[i]).1 < nworkers(c)
}
pub open spec fn vx_why(h: HF, c: Committee, e: HeaderError) -> bool { e is InvalidEpoch <==> h.epoch != cepoch(c) }
impl Clone for Header { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl HeaderBuilder {
    pub open spec fn f(self) -> HF { HF { author: self.author, round: self.round, epoch: self.epoch, created_at: self.created_at, payload: self.payload@, parents: self.parents@, exe: self.latest_execution_block, seed: self.seed_signature } }
    // derived
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.f() == blank() { unimplemented!() }
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn build" ret=r
//@sub? /Hash::digest\(&inner\)/ => vx_hash(&inner)
//@spec
    ensures r.wf(), r.f() == self.f(),
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn author" ret=r
//@spec
    ensures r.f() == (HF { author, ..self.f() }),
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn round" ret=r
//@spec
    ensures r.f() == (HF { round, ..self.f() }),
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn epoch" ret=r
//@spec
    ensures r.f() == (HF { epoch, ..self.f() }),
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn created_at" ret=r
//@spec
    ensures r.f() == (HF { created_at, ..self.f() }),
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn payload" ret=r
//@spec
    ensures r.f() == (HF { payload: payload@, ..self.f() }),
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn parents" ret=r
//@spec
    ensures r.f() == (HF { parents: parents@, ..self.f() }),
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn latest_execution_block" ret=r
//@spec
    ensures r.f() == (HF { exe: latest_execution_block, ..self.f() }),
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn seed_signature" ret=r
//@spec
    ensures r.f() == (HF { seed: seed_signature, ..self.f() }),
//@end
}
/// every field at its default
pub open spec fn blank() -> HF { HF { author: vx_b::author0(), round: 0, epoch: 0, created_at: 0, payload: Seq::empty(), parents: Set::empty(), exe: vx_b::exe0(), seed: vx_b::sig0() } }
// ---------------------------------------------------------------- the committee, by the contracts of C01
#[derive(Clone, Copy)] pub struct Authority { pub aid: AuthorityIdentifier, pub key: BlsPublicKey }
impl Authority {
    pub fn id(&self) -> (r: AuthorityIdentifier) ensures r == self.aid { self.aid }
    pub fn protocol_key(&self) -> (r: &BlsPublicKey) ensures *r == self.key { &self.key }
    pub fn voting_power(&self) -> (r: VotingPower) ensures r == 1 { 1 }
}
pub mod vx_com {
use vstd::prelude::*;
use super::*;
#[derive(Clone, Copy)] pub struct Committee { pub x: u64 }
pub uninterp spec fn members(c: Committee) -> Map<AuthorityIdentifier, BlsPublicKey>;
pub uninterp spec fn cepoch(c: Committee) -> Epoch;
pub uninterp spec fn nworkers(c: Committee) -> usize;
}
pub use vx_com::*;
pub open spec fn csize(c: Committee) -> nat { members(c).dom().len() }
pub open spec fn keys(c: Committee) -> Set<BlsPublicKey> { members(c).values() }
pub open spec fn quorum(n: nat) -> nat { 2 * n / 3 + 1 }
impl Committee {
    /// several members, each with a key of its own
    pub open spec fn wf(self) -> bool { 1 < csize(self) <= 0x7fff && members(self).is_injective() }
    #[verifier::external_body] pub fn size(&self) -> (r: usize) ensures r == csize(*self) { unimplemented!() }
    #[verifier::external_body] pub fn epoch(&self) -> (r: Epoch) ensures r == cepoch(*self) { unimplemented!() }
    #[verifier::external_body] pub fn number_of_workers(&self) -> (r: usize) ensures r == nworkers(*self) { unimplemented!() }
    #[verifier::external_body] pub fn authority(&self, id: &AuthorityIdentifier) -> (r: Option<Authority>) ensures r == (if members(*self).contains_key(*id) { Some(Authority { aid: *id, key: members(*self)[*id] }) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn authorities(&self) -> (r: Vec<Authority>)
        ensures r@.len() == sorted_keys(members(*self).dom()).len(), forall|i: int| #![trigger r@[i]] #![trigger sorted_keys(members(*self).dom())[i]] 0 <= i < r@.len() ==> r@[i] == (Authority { aid: sorted_keys(members(*self).dom())[i], key: members(*self)[sorted_keys(members(*self).dom())[i]] }) { unimplemented!() }
    #[verifier::external_body] pub fn bls_keys(&self) -> (r: BTreeSet<BlsPublicKey>) ensures r@ == keys(*self) { unimplemented!() }
    #[verifier::external_body] pub fn voting_power_by_id(&self, id: &AuthorityIdentifier) -> (r: VotingPower) ensures r == (if members(*self).contains_key(*id) { 1u64 } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn quorum_threshold(&self) -> (r: VotingPower) requires self.wf() ensures r == quorum(csize(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn validity_threshold(&self) -> (r: VotingPower) requires self.wf() ensures r == (csize(*self) + 2) / 3 { unimplemented!() }
}
#[verifier::external_body] pub fn quorum_threshold(n: u64) -> (r: u64) requires 0 < n <= 0x7fff ensures r == quorum(n as nat) { unimplemented!() }
pub proof fn lemma_keys(c: Committee)
    requires c.wf(),
    ensures keys(c).len() == csize(c), forall|k: BlsPublicKey| #[trigger] keys(c).contains(k) <==> exists|a: AuthorityIdentifier| members(c).contains_key(a) && #[trigger] members(c)[a] == k,
{
    let m = members(c);
    lemma_inj(m, m.dom());
    assert(m.dom().map(|a: AuthorityIdentifier| m[a]) =~= m.values());
}
proof fn lemma_inj(m: Map<AuthorityIdentifier, BlsPublicKey>, s: Set<AuthorityIdentifier>)
    requires m.is_injective(), s.subset_of(m.dom()),
    ensures s.map(|a: AuthorityIdentifier| m[a]).len() == s.len(),
    decreases s.len(),
{
    let f = |a: AuthorityIdentifier| m[a];
    if s.len() == 0 { assert(s =~= Set::empty()); assert(s.map(f) =~= Set::empty()); }
    else {
        let a = s.choose(); let t = s.remove(a);
        lemma_inj(m, t);
        assert(s.map(f) =~= t.map(f).insert(m[a])) by {
            assert forall|k: BlsPublicKey| s.map(f).contains(k) implies t.map(f).insert(m[a]).contains(k) by { let x = choose|x: AuthorityIdentifier| s.contains(x) && k == f(x); if x != a { assert(t.contains(x) && k == f(x)); } }
            assert forall|k: BlsPublicKey| t.map(f).insert(m[a]).contains(k) implies s.map(f).contains(k) by { if t.map(f).contains(k) { let x = choose|x: AuthorityIdentifier| t.contains(x) && k == f(x); assert(s.contains(x)); } else { assert(s.contains(a) && k == f(a)); } }
        }
        if t.map(f).contains(m[a]) { let x = choose|x: AuthorityIdentifier| t.contains(x) && m[a] == f(x); assert(m[x] == m[a] && x != a); assert(false); }
    }
}

// ---------------------------------------------------------------- certificates
/// a compressed set of 32-bit numbers
pub struct RoaringBitmap { pub x: u64 }
pub mod vx_roar { use vstd::prelude::*; use super::*; pub uninterp spec fn bits(b: RoaringBitmap) -> Set<u32>; }
pub struct NonSortedIntegers {}
impl View for RoaringBitmap { type V = Set<u32>; open spec fn view(&self) -> Set<u32> { vx_roar::bits(*self) } }
impl RoaringBitmap {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Set::<u32>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from_sorted_iter(v: Vec<u32>) -> (r: Result<Self, NonSortedIntegers>)
        ensures (forall|i: int, j: int| 0 <= i < j < v@.len() ==> v@[i] < v@[j]) ==> r is Ok && r->Ok_0@ == v@.to_set() { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: VIter<u32>) ensures r@ == sorted_keys(self@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, i: u32) -> (r: bool) ensures r == self@.contains(i) { unimplemented!() }
}
impl Clone for RoaringBitmap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub mod roaring { pub use super::RoaringBitmap; }
//@item file=crates/types/src/primary/certificate.rs path="enum SignatureVerificationState" attr="#[derive(Clone, Copy)]"
//@end
//@item file=crates/types/src/primary/certificate.rs path="struct Certificate"
//@end
//@verus-only
pub enum CertificateError { InvalidEpoch, Inquorate { stake: VotingPower, threshold: VotingPower }, Unsigned, InvalidSignature, RecoverBlsAggregateSignatureBytes, TooOld(HeaderDigest, Round, Round), TooNew(HeaderDigest, Round, Round), Header(HeaderError), Other }
pub type CertificateResult<T> = Result<T, CertificateError>;
pub enum DagError { UnknownAuthority(String), CertificateRequiresQuorum, InvalidSignature, InvalidHeaderDigest, AuthorityReuse(String), InvalidBitmap(String), Other }
pub type DagResult<T> = Result<T, DagError>;
impl vstd::std_specs::convert::FromSpecImpl<HeaderError> for CertificateError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: HeaderError) -> Self { CertificateError::Header(e) } }
impl From<HeaderError> for CertificateError { fn from(e: HeaderError) -> (r: Self) ensures r == CertificateError::Header(e) { CertificateError::Header(e) } }
//@end-only
impl Clone for Certificate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// `BlsAggregateSignature`, by the contracts of C19
pub struct BlsAggregateSignature(pub BlsSignature);
pub struct BlstError {}
impl BlsAggregateSignature {
    #[verifier::external_body] pub fn aggregate(v: &Vec<BlsSignature>, check: bool) -> (r: Result<Self, BlstError>) ensures check ==> (match agg(v@) { Some(s) => r is Ok && r->Ok_0.0 == s, None => r is Err }) { unimplemented!() }
    pub fn to_signature(&self) -> (r: BlsSignature) ensures r == self.0 { self.0 }
    pub fn from_signature(s: &BlsSignature) -> (r: Self) ensures r.0 == *s { BlsAggregateSignature(*s) }
    #[verifier::external_body] pub fn verify_secure(&self, m: &IntentMessage, ks: &Vec<BlsPublicKey>) -> (r: bool) ensures r == agg_ok(self.0, m.0, ks@) { unimplemented!() }
}
impl BlsSignature { #[verifier::external_body] pub fn verify_secure(&self, m: &IntentMessage, k: &BlsPublicKey) -> (r: bool) ensures r == sig_ok(*self, m.0, *k) { unimplemented!() } }
/// a digest under the consensus intent
pub struct IntentMessage(pub HeaderDigest);
pub fn to_intent_message(d: HeaderDigest) -> (r: IntentMessage) ensures r.0 == d { IntentMessage(d) }
pub fn vx_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
/// the keys at the positions in `bits`, in order
pub open spec fn chosen(ks: Seq<BlsPublicKey>, bits: Set<u32>, n: nat) -> Seq<BlsPublicKey> decreases n {
    if n == 0 { Seq::empty() } else if bits.contains((n - 1) as u32) { chosen(ks, bits, (n - 1) as nat).push(ks[n - 1]) } else { chosen(ks, bits, (n - 1) as nat) }
}
pub open spec fn signers(bits: Set<u32>, com: Set<BlsPublicKey>) -> Seq<BlsPublicKey> { chosen(sorted_keys(com), bits, sorted_keys(com).len()) }
/// the genesis header of a member
pub open spec fn gen_hdr(c: Committee, a: AuthorityIdentifier) -> HF { HF { author: a, epoch: cepoch(c), ..blank() } }
impl Certificate {
    pub open spec fn f(self) -> HF { self.header.f() }
    pub open spec fn dig(self) -> HeaderDigest { self.header.inner.digest }
    /// equality: header digest, round, epoch and author
    pub open spec fn same(self, o: Self) -> bool { self.dig() == o.dig() && self.f().round == o.f().round && self.f().epoch == o.f().epoch && self.f().author == o.f().author }
    pub open spec fn wf(self) -> bool { self.header.wf() }
    pub open spec fn sig(self) -> Option<BlsSignature> { match self.signature_verification_state { SignatureVerificationState::Genesis => None, SignatureVerificationState::VerifiedDirectly(s) => Some(s), SignatureVerificationState::VerifiedIndirectly(s) => Some(s), SignatureVerificationState::Unverified(s) => Some(s), SignatureVerificationState::Unsigned(s) => Some(s) } }
    pub open spec fn trusted(self) -> bool { self.signature_verification_state is VerifiedDirectly || self.signature_verification_state is VerifiedIndirectly || self.signature_verification_state is Genesis }
    pub open spec fn unsure(self) -> bool { self.signature_verification_state is Unverified }
    /// a quorum of the committee signed this header
    pub open spec fn attested(self, com: Set<BlsPublicKey>) -> bool {
        &&& signers(self.signed_authorities@, com).len() >= quorum(com.len())
        &&& self.sig() is Some && agg_ok(self.sig()->0, self.dig(), signers(self.signed_authorities@, com))
    }
    pub open spec fn is_gen(self, c: Committee) -> bool { self.f().round == 0 && exists|a: AuthorityIdentifier| #[trigger] members(c).contains_key(a) && self.dig() == hd(gen_hdr(c, a)) && self.f().author == a && self.f().epoch == cepoch(c) }
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn into_header" ret=r
//@spec
    ensures r == self.header,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn round" ret=r
//@spec
    ensures r == self.f().round,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn epoch" ret=r
//@spec
    ensures r == self.f().epoch,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn origin" ret=r
//@spec
    ensures *r == self.f().author,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn header" ret=r
//@spec
    ensures *r == self.header,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Hash for Certificate :: fn digest" ret=r
//@spec
    ensures r == self.dig(),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn aggregated_signature" ret=r
//@spec
    ensures r == self.sig(),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn signature_verification_state" ret=r
//@spec
    ensures *r == self.signature_verification_state,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn set_signature_verification_state"
//@spec
    ensures *final(self) == (Certificate { signature_verification_state: state, ..*old(self) }),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn signed_authorities" ret=r
//@spec
    ensures *r == self.signed_authorities,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn is_verified" ret=r
//@spec
    ensures r == self.trusted(),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl PartialEq for Certificate :: fn eq" ret=r rename=vx_eq
//@sub? /\b(\w+) &= ([^;]*);/ => \1 = vx_and(\1, \2);
//@spec
    ensures r == self.same(*other),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn validate_received" ret=r
//@desugar opt.ok_or
//@spec
    ensures r is Ok <==> old(self).sig() is Some,
        r is Ok ==> *final(self) == (Certificate { signature_verification_state: SignatureVerificationState::Unverified(old(self).sig()->0), ..*old(self) }),
        r is Err ==> *final(self) == *old(self),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn signed_by" ret=r
//@chain
//@vsub /\.iter\(\)\.collect::<Vec<_>>\(\)/ => .iter().vx_vec()
//@forvec 0
//@loop 0 iter=it
    invariant committee@.len() <= 0x7fff, it.seq().len() == sorted_keys(committee@).len() == committee@.len(),
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> it.seq()[i].0 == i && *it.seq()[i].1 == sorted_keys(committee@)[i],
        auth_indexes@ == sorted_keys(self.signed_authorities@), auth_iter <= auth_indexes@.len(),
        forall|j: int| 0 <= j < auth_iter ==> #[trigger] auth_indexes@[j] < it.index(), forall|j: int| auth_iter <= j < auth_indexes@.len() ==> #[trigger] auth_indexes@[j] >= it.index(),
        vx_col0@ == chosen(sorted_keys(committee@), self.signed_authorities@, it.index() as nat), weight == vx_col0@.len(), weight <= it.index(),
//@loophead 0
    proof {
        let b = self.signed_authorities@; let n = it.index(); let ks = sorted_keys(committee@);
        assert(chosen(ks, b, (n + 1) as nat) == (if b.contains(n as u32) { chosen(ks, b, n as nat).push(ks[n]) } else { chosen(ks, b, n as nat) }));
        if b.contains(n as u32) { let j = choose|j: int| 0 <= j < auth_indexes@.len() && auth_indexes@[j] == n as u32; assert(auth_indexes@.contains(n as u32)); assert(j >= auth_iter); if j > auth_iter { assert(auth_indexes@[auth_iter as int] < auth_indexes@[j]); } }
        else { if auth_iter < auth_indexes@.len() { assert(auth_indexes@.contains(auth_indexes@[auth_iter as int])); } }
    }
//@spec
    requires committee@.len() <= 0x7fff,
    ensures r.1@ == signers(self.signed_authorities@, committee@), r.0 == r.1@.len(), r.0 <= committee@.len(),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn verify_signature" ret=r
//@sub? /&(\w+)\[\.\.\]/ => &\1
//@spec
    ensures r is Ok <==> old(self).trusted() || (old(self).unsure() && agg_ok(old(self).sig()->0, old(self).dig(), pks@)),
        r is Ok && old(self).trusted() ==> *final(self) == *old(self),
        r is Ok && !old(self).trusted() ==> *final(self) == (Certificate { signature_verification_state: SignatureVerificationState::VerifiedDirectly(old(self).sig()->0), ..*old(self) }),
        r is Err ==> *final(self) == *old(self),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn verify_cert" ret=r
//@spec
    requires committee@.len() <= 0x7fff, committee@.len() > 0,
    ensures r is Ok <==> old(self).attested(committee@),
        r is Ok ==> *final(self) == (Certificate { signature_verification_state: SignatureVerificationState::VerifiedDirectly(old(self).sig()->0), ..*old(self) }),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn genesis" ret=r
//@chain
//@vsub /\b(\w+)\s*\.authorities\(\)\s*\.iter\(\)/ => vx_into_iter(\1.authorities())
//@vsub /let mut vx_col0 = Vec::new\(\)/ => let mut vx_col0: Vec<Certificate> = Vec::new()
//@forvec 0
//@loop 0 iter=it
    invariant it.seq().len() == vx_auths(*committee).len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> it.seq()[i].aid == vx_auths(*committee)[i],
        vx_col0@.len() == it.index(), forall|i: int| #![trigger vx_col0@[i]] 0 <= i < it.index() ==> vx_col0@[i].wf() && vx_col0@[i].f() == gen_hdr(*committee, vx_auths(*committee)[i]),
//@spec
    ensures r@.len() == vx_auths(*committee).len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i].wf() && r@[i].f() == gen_hdr(*committee, vx_auths(*committee)[i]),
//@end
    // derived
    #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() }
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn validate_and_verify" ret=r
//@sub? /CertificateError::from\(/ => CertificateError::Header(
//@vsub /\b(\w+)::genesis\((\w+)\)\.contains\(self\)/ => { let vx_g = \1::genesis(\2); let vx_r = vx_g.contains(self); proof { lemma_gen(*self, *\2, vx_g@, vx_r); } vx_r }
//@spec
    requires committee.wf(), old(self).wf(),
    ensures r is Ok <==> accepts(*old(self), *committee),
        r is Ok ==> (*final(self) == *old(self) && (old(self).is_gen(*committee) || old(self).trusted()))
            || (old(self).unsure() && *final(self) == (Certificate { signature_verification_state: SignatureVerificationState::VerifiedDirectly(old(self).sig()->0), ..*old(self) })),
        r is Err ==> *final(self) == *old(self),
//@head
    proof { lemma_keys(*committee); }
//@end
}
proof fn lemma_gen(c: Certificate, com: Committee, g: Seq<Certificate>, r: bool)
    requires c.f().round == 0, r == vx_has(g, c), g.len() == vx_auths(com).len(), forall|i: int| #![trigger g[i]] 0 <= i < g.len() ==> g[i].wf() && g[i].f() == gen_hdr(com, vx_auths(com)[i]),
    ensures r == c.is_gen(com),
{
    if r { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).same(c); assert(members(com).dom().contains(vx_auths(com)[i])); assert(members(com).contains_key(vx_auths(com)[i])); }
    if c.is_gen(com) {
        let a = choose|a: AuthorityIdentifier| #[trigger] members(com).contains_key(a) && c.dig() == hd(gen_hdr(com, a)) && c.f().author == a && c.f().epoch == cepoch(com);
        assert(vx_auths(com).contains(a)); let i = choose|i: int| 0 <= i < vx_auths(com).len() && vx_auths(com)[i] == a; assert(g[i].same(c));
    }
}
/// the members in order
pub open spec fn vx_auths(c: Committee) -> Seq<AuthorityIdentifier> { sorted_keys(members(c).dom()) }
impl Certificate {
    /// the certificates are searched with `==`
    pub fn vx_x(&self) {}
}
pub trait VxHas { spec fn vx_h(&self) -> Seq<Certificate>; fn contains(&self, c: &Certificate) -> (r: bool) ensures r == vx_has(self.vx_h(), *c); }
pub open spec fn vx_has(g: Seq<Certificate>, c: Certificate) -> bool { exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).same(c) }
impl VxHas for Vec<Certificate> { open spec fn vx_h(&self) -> Seq<Certificate> { self@ } #[verifier::external_body] fn contains(&self, c: &Certificate) -> (r: bool) { unimplemented!() } }
/// this epoch's, and either its genesis or a valid header with a quorum of signers whose joint signature verifies (or is already known to)
pub open spec fn accepts(c: Certificate, com: Committee) -> bool {
    c.f().epoch == cepoch(com) && (c.is_gen(com) || (valid(c.f(), com) && signers(c.signed_authorities@, keys(com)).len() >= quorum(csize(com))
        && (c.trusted() || (c.unsure() && agg_ok(c.sig()->0, c.dig(), signers(c.signed_authorities@, keys(com)))))))
}
//@fn file=crates/types/src/primary/certificate.rs path="fn validate_fetched_certificate" ret=r
//@desugar opt.ok_or
//@spec
    ensures r is Ok <==> certificate.sig() is Some,
        r is Ok ==> r->Ok_0 == (Certificate { signature_verification_state: SignatureVerificationState::Unverified(certificate.sig()->0), ..certificate }),
//@end

// ---------------------------------------------------------------- forming a certificate
/// `Vec::clone` of copyable elements
#[verifier::external_body] pub fn vx_vclone<T>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_bt<K, V>(v: Vec<(K, V)>) -> (r: BTreeMap<K, V>) ensures r@ == map_of(v@) { unimplemented!() }
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body] pub fn first_key_value(&self) -> (r: Option<(&K, &V)>)
        ensures r is None <==> self.ks().len() == 0, r matches Some(p) ==> *p.0 == self.ks()[0] && *p.1 == self@[self.ks()[0]] { unimplemented!() }
    #[verifier::external_body] pub fn pop_first(&mut self) -> (r: Option<(K, V)>)
        ensures r is None <==> old(self).ks().len() == 0, r is None ==> final(self)@ == old(self)@,
            r matches Some(p) ==> p.0 == old(self).ks()[0] && p.1 == old(self)@[p.0] && final(self)@ == old(self)@.remove(p.0) { unimplemented!() }
}
/// pairs compared by both parts
#[verifier::external_body] pub fn vx_pair_eq(a: (&BlsPublicKey, &BlsSignature), b: (&BlsPublicKey, &BlsSignature)) -> (r: bool) ensures r == (*a.0 == *b.0 && *a.1 == *b.1) { unimplemented!() }
/// members' keys in order
pub open spec fn vx_sk(c: Committee) -> Seq<BlsPublicKey> { sorted_keys(keys(c)) }
/// the votes of members, by key
pub open spec fn keyed(c: Committee, v: Seq<(AuthorityIdentifier, BlsSignature)>) -> Seq<(BlsPublicKey, BlsSignature)> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { let k = keyed(c, v.drop_last()); if members(c).contains_key(v.last().0) { k.push((members(c)[v.last().0], v.last().1)) } else { k } }
}
/// the keys of `s` in order
pub open spec fn kept(ks: Seq<BlsPublicKey>, s: Set<BlsPublicKey>, n: nat) -> Seq<BlsPublicKey> decreases n {
    if n == 0 { Seq::empty() } else if s.contains(ks[n - 1]) { kept(ks, s, (n - 1) as nat).push(ks[n - 1]) } else { kept(ks, s, (n - 1) as nat) }
}
pub open spec fn voters(c: Committee, s: Set<BlsPublicKey>) -> Seq<BlsPublicKey> { kept(vx_sk(c), s, vx_sk(c).len()) }
/// the signatures in order of the signing keys
pub open spec fn in_order(ks: Seq<BlsPublicKey>, votes: Map<BlsPublicKey, BlsSignature>) -> Seq<BlsSignature> { Seq::new(ks.len(), |i: int| votes[ks[i]]) }
pub open spec fn vx_ag(com: Committee, votes: Map<BlsPublicKey, BlsSignature>) -> Option<BlsSignature> { agg(in_order(voters(com, votes.dom()), votes)) }
/// what a certificate over these votes says
pub open spec fn formed(c: Certificate, com: Committee, h: Header, votes: Map<BlsPublicKey, BlsSignature>) -> bool {
    &&& c.header == h
    &&& signers(c.signed_authorities@, keys(com)) == voters(com, votes.dom())
    &&& votes.dom().len() > 0 ==> c.sig() == vx_ag(com, votes)
}
proof fn lemma_kept(ks: Seq<BlsPublicKey>, s: Set<BlsPublicKey>, n: nat)
    requires ks.no_duplicates(), n <= ks.len(),
    ensures kept(ks, s, n).no_duplicates(), forall|k: BlsPublicKey| #[trigger] kept(ks, s, n).contains(k) <==> s.contains(k) && exists|i: int| 0 <= i < n && #[trigger] ks[i] == k,
    decreases n,
{
    if n > 0 {
        let p = kept(ks, s, (n - 1) as nat); lemma_kept(ks, s, (n - 1) as nat);
        let q = kept(ks, s, n);
        if s.contains(ks[n - 1]) {
            assert(q == p.push(ks[n - 1]));
            if p.contains(ks[n - 1]) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] ks[i] == ks[n - 1]; assert(false); }
            assert forall|k: BlsPublicKey| #[trigger] q.contains(k) <==> s.contains(k) && exists|i: int| 0 <= i < n && #[trigger] ks[i] == k by {
                if q.contains(k) { let j = choose|j: int| 0 <= j < q.len() && q[j] == k; if j < p.len() { assert(p.contains(k)); } else { assert(ks[n - 1] == k); } }
                if s.contains(k) && exists|i: int| 0 <= i < n && #[trigger] ks[i] == k { let i = choose|i: int| 0 <= i < n && #[trigger] ks[i] == k; if i == n - 1 { assert(q[p.len() as int] == k); } else { assert(p.contains(k)); let j = choose|j: int| 0 <= j < p.len() && p[j] == k; assert(q[j] == k); } }
            }
            assert(q.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < p.len() && j == p.len() { assert(p.contains(p[i])); } if j < p.len() && i == p.len() { assert(p.contains(p[j])); } } }
        } else {
            assert forall|k: BlsPublicKey| #[trigger] q.contains(k) <==> s.contains(k) && exists|i: int| 0 <= i < n && #[trigger] ks[i] == k by {
                assert(q.contains(k) == p.contains(k));
                if s.contains(k) && exists|i: int| 0 <= i < n && #[trigger] ks[i] == k { let i = choose|i: int| 0 <= i < n && #[trigger] ks[i] == k; assert(i < n - 1); }
            }
        }
    }
}
pub proof fn lemma_voters(c: Committee, s: Set<BlsPublicKey>)
    requires s.subset_of(keys(c)),
    ensures voters(c, s).no_duplicates(), voters(c, s).to_set() == s, voters(c, s).len() == s.len(),
{
    let ks = vx_sk(c); let v = voters(c, s);
    lemma_kept(ks, s, ks.len());
    assert forall|k: BlsPublicKey| v.to_set().contains(k) == s.contains(k) by { if s.contains(k) { assert(ks.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(v.contains(k)); } }
    assert(v.to_set() =~= s);
    v.unique_seq_to_set();
}
proof fn lemma_chosen(ks: Seq<BlsPublicKey>, b: Set<u32>, s: Set<BlsPublicKey>, n: nat)
    requires n <= ks.len() <= 0x7fff, forall|j: int| 0 <= j < n ==> b.contains(j as u32) == s.contains(#[trigger] ks[j]),
    ensures chosen(ks, b, n) == kept(ks, s, n),
    decreases n,
{ if n > 0 { lemma_chosen(ks, b, s, (n - 1) as nat); assert(b.contains((n - 1) as u32) == s.contains(ks[n - 1])); } }
proof fn lemma_map_dom<K, V>(s: Seq<(K, V)>)
    ensures forall|k: K| #[trigger] map_of(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last(); lemma_map_dom(p);
        assert(map_of(s) == map_of(p).insert(s.last().0, s.last().1));
        assert forall|k: K| (#[trigger] map_of(s).contains_key(k)) == (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k) by {
            if map_of(s).contains_key(k) { if k == s.last().0 { assert(s[s.len() - 1].0 == k); } else { assert(map_of(p).contains_key(k)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k; assert(s[i].0 == k); } }
            if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; if i < p.len() { assert(p[i].0 == k); } }
        }
    }
}
proof fn lemma_inc(ks: Seq<BlsPublicKey>, c: Seq<u32>, s: Set<BlsPublicKey>, n: nat)
    requires n <= ks.len() <= 0x7fff, forall|i: int, j: int| 0 <= i < j < c.len() ==> c[i] < c[j], forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] < n,
        forall|j: int| 0 <= j < n ==> c.contains(j as u32) == s.contains(#[trigger] ks[j]),
    ensures kept(ks, s, n).len() == c.len(), forall|t: int| 0 <= t < c.len() ==> #[trigger] kept(ks, s, n)[t] == ks[c[t] as int],
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        assert(c.contains(m as u32) == s.contains(ks[m as int]));
        if s.contains(ks[m as int]) {
            let t = choose|t: int| 0 <= t < c.len() && c[t] == m as u32;
            if t < c.len() - 1 { assert(c[t] < c[c.len() - 1]); assert(false); }
            let d = c.drop_last();
            assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] < m by { assert(c[i] < c[c.len() - 1]); }
            assert forall|j: int| 0 <= j < m implies d.contains(j as u32) == s.contains(#[trigger] ks[j]) by {
                if c.contains(j as u32) { let u = choose|u: int| 0 <= u < c.len() && c[u] == j as u32; assert(u != c.len() - 1); assert(d[u] == j as u32); }
                if d.contains(j as u32) { let u = choose|u: int| 0 <= u < d.len() && d[u] == j as u32; assert(c[u] == j as u32); }
            }
            lemma_inc(ks, d, s, m);
            assert(kept(ks, s, n) == kept(ks, s, m).push(ks[m as int]));
        } else {
            assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] < m by { if c[i] == m as u32 { assert(c.contains(m as u32)); } }
            lemma_inc(ks, c, s, m);
            assert(kept(ks, s, n) == kept(ks, s, m));
        }
    } else { if c.len() > 0 { assert(c[0] < 0); } }
}
pub open spec fn part(a: Map<BlsPublicKey, BlsSignature>, b: Map<BlsPublicKey, BlsSignature>) -> bool { forall|k: BlsPublicKey| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k] }
proof fn lemma_done(com: Committee, v0: Map<BlsPublicKey, BlsSignature>, left: Map<BlsPublicKey, BlsSignature>, c: Seq<u32>, sg: Seq<(BlsPublicKey, BlsSignature)>)
    requires com.wf(), sg.len() == c.len(), part(left, v0),
        forall|t: int| #![trigger c[t]] #![trigger sg[t]] 0 <= t < c.len() ==> c[t] < vx_sk(com).len() && v0.contains_key(sg[t].0) && sg[t].0 == vx_sk(com)[c[t] as int] && sg[t].1 == v0[sg[t].0],
        forall|s: int, t: int| 0 <= s < t < c.len() ==> c[s] < c[t],
        forall|k: BlsPublicKey| v0.contains_key(k) ==> #[trigger] left.contains_key(k) || exists|t: int| 0 <= t < sg.len() && (#[trigger] sg[t]).0 == k,
        v0.dom().subset_of(keys(com)) ==> forall|j: int| 0 <= j < vx_sk(com).len() ==> !left.contains_key(#[trigger] vx_sk(com)[j]),
    ensures (left.dom().len() == 0) == v0.dom().subset_of(keys(com)),
        left.dom().len() == 0 ==> chosen(vx_sk(com), c.to_set(), vx_sk(com).len()) == voters(com, v0.dom()) && c.len() == v0.dom().len() && c.len() == voters(com, v0.dom()).len() && forall|t: int| 0 <= t < sg.len() ==> (#[trigger] sg[t]).1 == v0[voters(com, v0.dom())[t]],
{
    let ks = vx_sk(com);
    lemma_keys(com);
    if v0.dom().subset_of(keys(com)) {
        assert forall|k: BlsPublicKey| !left.dom().contains(k) by { if left.contains_key(k) { assert(v0.contains_key(k)); assert(v0.dom().contains(k)); assert(ks.contains(k)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; } }
        assert(left.dom() =~= Set::empty());
    }
    if left.dom().len() == 0 {
        assert(left.dom() =~= Set::empty());
        assert forall|k: BlsPublicKey| v0.dom().contains(k) implies keys(com).contains(k) by { assert(v0.contains_key(k)); assert(!left.contains_key(k)); let t = choose|t: int| 0 <= t < sg.len() && (#[trigger] sg[t]).0 == k; assert(ks[c[t] as int] == k); }
        assert forall|j: int| 0 <= j < ks.len() implies c.contains(j as u32) == v0.dom().contains(#[trigger] ks[j]) by {
            if c.contains(j as u32) { let t = choose|t: int| 0 <= t < c.len() && c[t] == j as u32; assert(sg[t].0 == ks[j]); }
            if v0.contains_key(ks[j]) { assert(!left.contains_key(ks[j])); let t = choose|t: int| 0 <= t < sg.len() && (#[trigger] sg[t]).0 == ks[j]; assert(ks[c[t] as int] == ks[j]); assert(c[t] == j as u32); }
        }
        lemma_inc(ks, c, v0.dom(), ks.len());
        lemma_chosen(ks, c.to_set(), v0.dom(), ks.len());
        lemma_voters(com, v0.dom());
        assert forall|t: int| 0 <= t < sg.len() implies (#[trigger] sg[t]).1 == v0[voters(com, v0.dom())[t]] by { assert(voters(com, v0.dom())[t] == ks[c[t] as int]); }
    }
}
proof fn lemma_auths(c: Committee, s: Seq<(BlsPublicKey, Authority)>)
    requires c.wf(), s.len() == vx_auths(c).len(), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].0 == members(c)[vx_auths(c)[i]],
    ensures map_of(s).dom() == keys(c),
{
    lemma_map_dom(s); lemma_keys(c);
    assert forall|k: BlsPublicKey| map_of(s).dom().contains(k) == keys(c).contains(k) by {
        if map_of(s).contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(members(c).dom().contains(vx_auths(c)[i])); assert(members(c).contains_key(vx_auths(c)[i])); assert(members(c)[vx_auths(c)[i]] == k); }
        if keys(c).contains(k) { let a = choose|a: AuthorityIdentifier| members(c).contains_key(a) && #[trigger] members(c)[a] == k; assert(vx_auths(c).contains(a)); let i = choose|i: int| 0 <= i < vx_auths(c).len() && vx_auths(c)[i] == a; assert(s[i].0 == k); }
    }
    assert(map_of(s).dom() =~= keys(c));
}
/// the smallest vote is the next member's, if the next member voted
proof fn lemma_first(c: Committee, v: Set<BlsPublicKey>, i: int)
    requires 0 <= i < vx_sk(c).len(), v.contains(vx_sk(c)[i]), forall|k: BlsPublicKey| #[trigger] v.contains(k) ==> exists|j: int| i <= j < vx_sk(c).len() && #[trigger] vx_sk(c)[j] == k,
    ensures sorted_keys(v)[0] == vx_sk(c)[i],
{
    let f = sorted_keys(v)[0]; let ks = vx_sk(c);
    assert(sorted_keys(v).contains(ks[i])); let p = choose|p: int| 0 <= p < sorted_keys(v).len() && sorted_keys(v)[p] == ks[i];
    assert(v.contains(f)); let j = choose|j: int| i <= j < ks.len() && #[trigger] ks[j] == f;
    if p > 0 { assert(f.0 < ks[i].0); if j > i { assert(ks[i].0 < ks[j].0); } assert(false); }
}
impl Certificate {
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn new_internal" ret=r
//@sub? /\.map\((\|[^|]*\| \w+ as u32)\);/ => .map(\1).collect::<Vec<u32>>();
//@sub? /\|_\|/ => |_e|
//@chain
//@vsub /\b(\w+)\.authorities\(\)\.into_iter\(\)/ => vx_into_iter(\1.authorities())
//@vsub /let mut vx_col0 = Vec::new\(\)/ => let mut vx_col0: Vec<(BlsPublicKey, Authority)> = Vec::new()
//@vsub /let mut vx_col1 = Vec::new\(\)/ => let mut vx_col1: Vec<u32> = Vec::new()
//@vsub /let mut vx_col2 = Vec::new\(\)/ => let mut vx_col2: Vec<BlsSignature> = Vec::new()
//@vsub /let mut sigs = Vec::new\(\)/ => let mut sigs: Vec<(BlsPublicKey, BlsSignature)> = Vec::new()
//@vsub /let mut weight = 0;/ => let mut weight: VotingPower = 0;
//@vsub /vx_col0 \}/ => vx_bt(vx_col0) }
//@vsub /\b(\w+)\.first_key_value\(\)\.expect\(("[^"]*")\)\s*==\s*(\(&\w+\.0, &\w+\.1\))/ => vx_pair_eq(\1.first_key_value().expect(\2), \3)
//@sub? /&(\w+)\[\.\.\]/ => &\1
//@forvec 0
//@forvec 1
//@forvec 3
//@loop 0 iter=it
    invariant committee.wf(), votes@ == v0, it.seq().len() == vx_auths(*committee).len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> it.seq()[i] == (Authority { aid: vx_auths(*committee)[i], key: members(*committee)[vx_auths(*committee)[i]] }),
        vx_col0@.len() == it.index(), forall|i: int| #![trigger vx_col0@[i]] 0 <= i < it.index() ==> vx_col0@[i].0 == members(*committee)[vx_auths(*committee)[i]],
//@before /vx_bt\(vx_col0\)/
    proof { lemma_auths(*committee, vx_col0@); }
//@loop 1 iter=it
    invariant committee.wf(), auths@.dom() == keys(*committee), keys(*committee).len() <= 0x7fff,
        it.seq().len() == vx_sk(*committee).len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> it.seq()[i].0 == i && *it.seq()[i].1.0 == vx_sk(*committee)[i],
        vx_sk(*committee).len() == keys(*committee).len(),
        sigs@.len() == vx_col1@.len() == weight, weight <= it.index(),
        forall|t: int| #![trigger vx_col1@[t]] #![trigger sigs@[t]] 0 <= t < vx_col1@.len() ==> vx_col1@[t] < it.index() && v0.contains_key(sigs@[t].0) && sigs@[t].0 == vx_sk(*committee)[vx_col1@[t] as int] && sigs@[t].1 == v0[sigs@[t].0],
        forall|s: int, t: int| 0 <= s < t < vx_col1@.len() ==> vx_col1@[s] < vx_col1@[t],
        part(votes@, v0), forall|k: BlsPublicKey| v0.contains_key(k) ==> #[trigger] votes@.contains_key(k) || exists|t: int| 0 <= t < sigs@.len() && (#[trigger] sigs@[t]).0 == k,
        v0.dom().subset_of(keys(*committee)) ==> forall|j: int| 0 <= j < it.index() ==> !votes@.contains_key(#[trigger] vx_sk(*committee)[j]),
//@loophead 1
    let ghost vs0 = votes@; let ghost sg0 = sigs@;
    proof {
        let i = it.index(); let ks = vx_sk(*committee);
        if v0.dom().subset_of(keys(*committee)) && votes@.contains_key(ks[i]) {
            assert forall|k: BlsPublicKey| #[trigger] votes@.dom().contains(k) implies exists|j: int| i <= j < ks.len() && #[trigger] ks[j] == k by { assert(votes@.contains_key(k)); assert(v0.contains_key(k)); assert(ks.contains(k)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; }
            lemma_first(*committee, votes@.dom(), i);
        }
    }
//@beforeloop 2
    let ghost vs1 = votes@;
    proof {
        assert(sigs@ == sg0.push(*sig_last)); assert(vs1 =~= vs0.remove(sig_last.0)); assert(v0.contains_key(sig_last.0)) by { assert(vs0.contains_key(sig_last.0)); assert(part(vs0, v0)); }
        assert forall|k: BlsPublicKey| #[trigger] vs1.contains_key(k) implies v0.contains_key(k) && v0[k] == vs1[k] by { assert(vs0.contains_key(k) && vs0[k] == vs1[k]); } assert(part(vs1, v0));
        assert forall|k: BlsPublicKey| v0.contains_key(k) implies #[trigger] votes@.contains_key(k) || exists|t: int| 0 <= t < sigs@.len() && (#[trigger] sigs@[t]).0 == k by {
            if vs0.contains_key(k) { if k == sig_last.0 { assert(sigs@[sg0.len() as int].0 == k); } } else { let t = choose|t: int| 0 <= t < sg0.len() && (#[trigger] sg0[t]).0 == k; assert(sigs@[t].0 == k); }
        }
    }
//@loop 2 never=1
    invariant votes@ == vs1, !vs1.contains_key(sig_last.0),
    decreases votes@.dom().len(),
//@loop 3 iter=it
    invariant it.seq().len() == sigs@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == sigs@[i],
        vx_col2@.len() == it.index(), forall|i: int| #![trigger vx_col2@[i]] 0 <= i < it.index() ==> vx_col2@[i] == sigs@[i].1,
//@before /let signed_authorities\s*=/
    proof { lemma_done(*committee, v0, votes@, filtered_votes@, sigs@); }
    let ghost sg = sigs@;
//@before /let bls_signature =/
    proof { if votes@.dom().len() == 0 { assert(sigs@ =~= in_order(voters(*committee, v0.dom()), v0)); } }
//@head
    let ghost v0 = votes@;
    proof { lemma_keys(*committee); }
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::spinoff_prover]
//@spec
    requires committee.wf(),
    ensures r is Ok <==> votes@.dom().subset_of(keys(*committee)) && (check_stake ==> votes@.dom().len() >= quorum(csize(*committee))) && (votes@.dom().len() > 0 ==> vx_ag(*committee, votes@) is Some),
        r matches Ok(c) ==> formed(c, *committee, header, votes@) && (check_stake ==> c.unsure()),
//@end
}

impl Certificate {
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn new_unverified" ret=r
//@desugar opt.map /committee\s*\.authority/
//@sub? /\b(\w+)\s*\.into_iter\(\)/ => vx_into_iter(\1)
//@chain
//@vsub /let mut vx_col0 = Vec::new\(\)/ => let mut vx_col0: Vec<(BlsPublicKey, BlsSignature)> = Vec::new()
//@vsub /vx_col0 \}/ => vx_bt(vx_col0) }
//@forvec 0
//@loop 0 iter=it
    invariant it.seq() == v0, vx_col0@ == keyed(*committee, v0.take(it.index())),
//@loophead 0
    proof { let n = it.index(); let t = v0.take(n + 1); assert(t.drop_last() =~= v0.take(n)); assert(t.last() == v0[n]); }
//@before /vx_bt\(vx_col0\)/
    proof { assert(v0.take(v0.len() as int) =~= v0); lemma_keyed(*committee, v0); }
//@head
    let ghost v0 = votes@;
//@spec
    requires committee.wf(),
    ensures r is Ok <==> { let v = map_of(keyed(*committee, votes@)); v.dom().len() >= quorum(csize(*committee)) && vx_ag(*committee, v) is Some },
        r matches Ok(c) ==> formed(c, *committee, header, map_of(keyed(*committee, votes@))) && c.unsure(),
//@end
}
proof fn lemma_keyed(c: Committee, v: Seq<(AuthorityIdentifier, BlsSignature)>)
    ensures map_of(keyed(c, v)).dom().subset_of(keys(c)),
    decreases v.len(),
{
    if v.len() > 0 {
        lemma_keyed(c, v.drop_last());
        let k = keyed(c, v.drop_last()); let a = v.last().0;
        if members(c).contains_key(a) { assert(keyed(c, v).drop_last() =~= k); assert(members(c).dom().contains(a)); assert(keys(c).contains(members(c)[a])); }
    }
}
// ---------------------------------------------------------------- collecting votes
//@item file=crates/types/src/primary/vote.rs path="struct Vote"
//@end
impl Vote {
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn header_digest" ret=r
//@spec
    ensures r == self.header_digest,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn round" ret=r
//@spec
    ensures r == self.round,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn epoch" ret=r
//@spec
    ensures r == self.epoch,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn origin" ret=r
//@spec
    ensures *r == self.origin,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn author" ret=r
//@spec
    ensures *r == self.author,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn signature" ret=r
//@spec
    ensures *r == self.signature,
//@end
}
pub mod vx_hs {
use vstd::prelude::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: core::marker::PhantomData<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> HashSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
}
}
pub use vx_hs::HashSet;
//@item file=crates/consensus/primary/src/aggregators/votes.rs path="struct VotesAggregator"
//@end
pub open spec fn a_vote(v: (AuthorityIdentifier, BlsSignature), c: Committee, d: HeaderDigest) -> bool { members(c).contains_key(v.0) && sig_ok(v.1, d, members(c)[v.0]) }
impl VotesAggregator {
    /// the votes for a digest: each from another member, each properly signed, each counted once
    pub open spec fn wf(self, c: Committee, d: HeaderDigest) -> bool {
        &&& forall|i: int| 0 <= i < self.verified_votes@.len() ==> a_vote(#[trigger] self.verified_votes@[i], c, d) && self.authorities_seen@.contains(self.verified_votes@[i].0)
        &&& forall|i: int, j: int| 0 <= i < j < self.verified_votes@.len() ==> (#[trigger] self.verified_votes@[i]).0 != (#[trigger] self.verified_votes@[j]).0
        &&& self.weight == self.verified_votes@.len()
    }
//@fn file=crates/consensus/primary/src/aggregators/votes.rs path="impl VotesAggregator :: fn new" ret=r
//@spec
    ensures r.weight == 0, r.verified_votes@.len() == 0, r.authorities_seen@ == Set::<AuthorityIdentifier>::empty(), forall|c: Committee, d: HeaderDigest| r.wf(c, d),
//@end
//@fn file=crates/consensus/primary/src/aggregators/votes.rs path="impl VotesAggregator :: fn append" ret=r
//@desugar opt.ok_or
//@sub? /\bself\.verified_votes\.clone\(\)/ => vx_vclone(&self.verified_votes)
//@before /self\.weight \+=/
    proof { assert(a_vote(self.verified_votes@[self.verified_votes@.len() - 1], *committee, header.dig())); assert forall|i: int| 0 <= i < self.verified_votes@.len() implies a_vote(#[trigger] self.verified_votes@[i], *committee, header.dig()) by { if i < old(self).verified_votes@.len() { assert(self.verified_votes@[i] == old(self).verified_votes@[i]); } }
        lemma_votes(*committee, self.verified_votes@, header.dig()); lemma_quorum(*committee, self.verified_votes@, header.dig()); lemma_keys(*committee); }
//@spec
    requires committee.wf(), header.wf(), old(self).wf(*committee, header.dig()),
    ensures final(self).wf(*committee, header.dig()),
        final(self).authorities_seen@ == old(self).authorities_seen@.insert(vote.author),
        good_vote(*old(self), vote, *committee, *header) <==> final(self).verified_votes@ == old(self).verified_votes@.push((vote.author, vote.signature)),
        !good_vote(*old(self), vote, *committee, *header) <==> final(self).verified_votes@ == old(self).verified_votes@,
        r is Ok <==> good_vote(*old(self), vote, *committee, *header),
        r matches Ok(None) ==> final(self).weight < quorum(csize(*committee)),
        r matches Ok(Some(c)) ==> final(self).weight >= quorum(csize(*committee)) && c.header == *header && c.signature_verification_state is VerifiedDirectly && c.attested(keys(*committee)),
//@end
}
proof fn lemma_votes(c: Committee, v: Seq<(AuthorityIdentifier, BlsSignature)>, d: HeaderDigest)
    requires c.wf(), forall|i: int| 0 <= i < v.len() ==> a_vote(#[trigger] v[i], c, d), forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0,
    ensures v.len() <= csize(c), map_of(keyed(c, v)).dom().len() == v.len(), map_of(keyed(c, v)).dom().subset_of(keys(c)),
        forall|k: BlsPublicKey| #[trigger] map_of(keyed(c, v)).contains_key(k) ==> sig_ok(map_of(keyed(c, v))[k], d, k) && exists|i: int| 0 <= i < v.len() && k == members(c)[(#[trigger] v[i]).0],
    decreases v.len(),
{
    let m = map_of(keyed(c, v));
    lemma_keyed(c, v); lemma_keys(c);
    if v.len() > 0 {
        let w = v.drop_last(); let n = map_of(keyed(c, w)); let a = v.last().0;
        assert forall|i: int| 0 <= i < w.len() implies a_vote(#[trigger] w[i], c, d) by { assert(a_vote(v[i], c, d)); }
        lemma_votes(c, w, d);
        assert(a_vote(v[v.len() - 1], c, d));
        let k0 = members(c)[a];
        assert(keyed(c, v).drop_last() =~= keyed(c, w)); assert(m == n.insert(k0, v.last().1));
        if n.contains_key(k0) { let i = choose|i: int| 0 <= i < w.len() && k0 == members(c)[(#[trigger] w[i]).0]; assert(a_vote(w[i], c, d)); assert(v[i].0 != v[v.len() - 1].0); assert(members(c)[v[i].0] == members(c)[a]); assert(false); }
        assert(m.dom() =~= n.dom().insert(k0));
        assert forall|k: BlsPublicKey| #[trigger] m.contains_key(k) implies sig_ok(m[k], d, k) && exists|i: int| 0 <= i < v.len() && k == members(c)[(#[trigger] v[i]).0] by {
            if k == k0 { assert(k == members(c)[v[v.len() - 1].0]); } else { assert(n.contains_key(k)); let i = choose|i: int| 0 <= i < w.len() && k == members(c)[(#[trigger] w[i]).0]; assert(k == members(c)[v[i].0]); }
        }
    } else { assert(m.dom() =~= Set::empty()); }
    vstd::set_lib::lemma_len_subset(m.dom(), keys(c));
}
/// enough votes make a certificate everyone accepts
proof fn lemma_quorum(c: Committee, v: Seq<(AuthorityIdentifier, BlsSignature)>, d: HeaderDigest)
    requires c.wf(), forall|i: int| 0 <= i < v.len() ==> a_vote(#[trigger] v[i], c, d), forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0, v.len() > 0,
    ensures ({ let m = map_of(keyed(c, v)); let ks = voters(c, m.dom()); vx_ag(c, m) is Some && agg_ok(vx_ag(c, m)->0, d, ks) && ks.len() == v.len() && m.dom().len() == v.len() }),
{
    let m = map_of(keyed(c, v)); let ks = voters(c, m.dom()); let ss = in_order(ks, m);
    lemma_votes(c, v, d); lemma_voters(c, m.dom());
    assert forall|i: int| 0 <= i < ss.len() implies sig_ok(#[trigger] ss[i], d, ks[i]) by { assert(ks.contains(ks[i])); assert(ks.to_set().contains(ks[i])); assert(m.contains_key(ks[i])); }
    vx_b::ax_agg(ss, d, ks);
}
/// from a member not heard of before, for this header, properly signed
pub open spec fn good_vote(g: VotesAggregator, v: Vote, c: Committee, h: Header) -> bool { !g.authorities_seen@.contains(v.author) && v.header_digest == h.dig() && a_vote((v.author, v.signature), c, h.dig()) }

/// a certificate formed here is accepted by every member that receives it
pub proof fn thm_everyone_accepts(c: Certificate, com: Committee)
    requires com.wf(), c.attested(keys(com)), valid(c.f(), com),
    ensures accepts(Certificate { signature_verification_state: SignatureVerificationState::Unverified(c.sig()->0), ..c }, com),
{ lemma_keys(com); }
/// two certificates of one committee have more than a third of it in common
pub proof fn thm_overlap(a: Certificate, b: Certificate, com: Committee)
    requires com.wf(), signers(a.signed_authorities@, keys(com)).len() >= quorum(csize(com)), signers(b.signed_authorities@, keys(com)).len() >= quorum(csize(com)),
    ensures ({ let x = signers(a.signed_authorities@, keys(com)).to_set(); let y = signers(b.signed_authorities@, keys(com)).to_set(); x.subset_of(keys(com)) && y.subset_of(keys(com)) && 3 * x.intersect(y).len() > csize(com) - 1 }),
{
    let ks = vx_sk(com); let n = csize(com);
    lemma_keys(com);
    let x = signers(a.signed_authorities@, keys(com)).to_set(); let y = signers(b.signed_authorities@, keys(com)).to_set();
    lemma_chosen_set(ks, a.signed_authorities@, ks.len()); lemma_chosen_set(ks, b.signed_authorities@, ks.len());
    signers(a.signed_authorities@, keys(com)).unique_seq_to_set(); signers(b.signed_authorities@, keys(com)).unique_seq_to_set();
    assert forall|k: BlsPublicKey| x.union(y).contains(k) implies keys(com).contains(k) by { assert(ks.contains(k)); }
    assert(x.subset_of(keys(com)) && y.subset_of(keys(com)));
    vstd::set_lib::lemma_set_intersect_union_lens(x, y);
    vstd::set_lib::lemma_len_subset(x.union(y), keys(com));
}
proof fn lemma_chosen_set(ks: Seq<BlsPublicKey>, b: Set<u32>, n: nat)
    requires ks.no_duplicates(), n <= ks.len(),
    ensures chosen(ks, b, n).no_duplicates(), forall|k: BlsPublicKey| #[trigger] chosen(ks, b, n).contains(k) ==> exists|i: int| 0 <= i < n && #[trigger] ks[i] == k,
    decreases n,
{
    if n > 0 {
        let p = chosen(ks, b, (n - 1) as nat); let q = chosen(ks, b, n);
        lemma_chosen_set(ks, b, (n - 1) as nat);
        if b.contains((n - 1) as u32) {
            assert(q == p.push(ks[n - 1]));
            if p.contains(ks[n - 1]) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] ks[i] == ks[n - 1]; assert(false); }
            assert(q.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < p.len() && j == p.len() { assert(p.contains(p[i])); } if j < p.len() && i == p.len() { assert(p.contains(p[j])); } } }
            assert forall|k: BlsPublicKey| #[trigger] q.contains(k) implies exists|i: int| 0 <= i < n && #[trigger] ks[i] == k by { let j = choose|j: int| 0 <= j < q.len() && q[j] == k; if j < p.len() { assert(p.contains(k)); let i = choose|i: int| 0 <= i < n - 1 && #[trigger] ks[i] == k; } else { assert(ks[n - 1] == k); } }
        } else {
            assert forall|k: BlsPublicKey| #[trigger] q.contains(k) implies exists|i: int| 0 <= i < n && #[trigger] ks[i] == k by { assert(p.contains(k)); let i = choose|i: int| 0 <= i < n - 1 && #[trigger] ks[i] == k; }
        }
    }
}
// ---------------------------------------------------------------- certificates of a round
//@item file=crates/consensus/primary/src/aggregators/certificates.rs path="struct CertificatesAggregator"
//@end
//@item file=crates/consensus/primary/src/aggregators/certificates.rs path="struct CertificatesAggregatorManager"
//@end
#[verifier::external_body] pub fn vx_drain<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
/// how many of them are members
pub open spec fn ranked(s: Set<AuthorityIdentifier>, c: Committee) -> nat { s.intersect(members(c).dom()).len() }
/// a certificate of each
pub open spec fn covers(v: Seq<Certificate>, s: Set<AuthorityIdentifier>) -> bool { forall|a: AuthorityIdentifier| #[trigger] s.contains(a) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).f().author == a }
proof fn lemma_covers(v: Seq<Certificate>, s: Set<AuthorityIdentifier>, c: Certificate)
    requires covers(v, s),
    ensures covers(v.push(c), s.insert(c.f().author)),
{
    let w = v.push(c);
    assert forall|a: AuthorityIdentifier| #[trigger] s.insert(c.f().author).contains(a) implies exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).f().author == a by {
        if a == c.f().author { assert(w[v.len() as int].f().author == a); } else { assert(s.contains(a)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).f().author == a; assert(w[i].f().author == a); }
    }
}
impl CertificatesAggregator {
    /// one certificate an author; the weight is the number of members heard of; nothing is handed out before a quorum
    pub open spec fn wf(self, c: Committee) -> bool {
        &&& self.weight == ranked(self.authorities_seen@, c)
        &&& forall|i: int| 0 <= i < self.certificates@.len() ==> self.authorities_seen@.contains((#[trigger] self.certificates@[i]).f().author)
        &&& forall|i: int, j: int| 0 <= i < j < self.certificates@.len() ==> (#[trigger] self.certificates@[i]).f().author != (#[trigger] self.certificates@[j]).f().author
        &&& self.weight < quorum(csize(c)) ==> covers(self.certificates@, self.authorities_seen@)
    }
//@fn file=crates/consensus/primary/src/aggregators/certificates.rs path="impl CertificatesAggregator :: fn new" ret=r
//@tail out
    proof { assert forall|c: Committee| out.wf(c) by { assert(out.authorities_seen@.intersect(members(c).dom()) =~= Set::empty()); } }
//@spec
    ensures r.certificates@.len() == 0, r.authorities_seen@ == Set::<AuthorityIdentifier>::empty(), forall|c: Committee| r.wf(c),
//@end
//@fn file=crates/consensus/primary/src/aggregators/certificates.rs path="impl CertificatesAggregator :: fn append" ret=r
//@sub? /\b(self\.certificates)\.drain\(\.\.\)\.collect\(\)/ => vx_drain(&mut \1)
//@head
    proof { lemma_ranked(self.authorities_seen@, certificate.f().author, *committee); if self.authorities_seen@.contains(certificate.f().author) { assert(self.authorities_seen@.insert(certificate.f().author) =~= self.authorities_seen@); } }
//@before /\bself\.weight \+=/
    proof {
        if old(self).weight < quorum(csize(*committee)) { lemma_covers(old(self).certificates@, old(self).authorities_seen@, certificate); }
    }
//@spec
    requires committee.wf(), old(self).wf(*committee),
    ensures final(self).wf(*committee), final(self).authorities_seen@ == old(self).authorities_seen@.insert(certificate.f().author),
        // a second certificate of an author changes nothing
        old(self).authorities_seen@.contains(certificate.f().author) ==> r is None && final(self).certificates@ == old(self).certificates@ && final(self).weight == old(self).weight,
        !old(self).authorities_seen@.contains(certificate.f().author) ==> (r is Some <==> final(self).weight >= quorum(csize(*committee))),
        r matches Some(v) ==> v@ == old(self).certificates@.push(certificate) && final(self).certificates@.len() == 0
            // the first time, a certificate of each of a quorum of members
            && (old(self).weight < quorum(csize(*committee)) ==> covers(v@, final(self).authorities_seen@)),
        r is None && !old(self).authorities_seen@.contains(certificate.f().author) ==> final(self).certificates@ == old(self).certificates@.push(certificate),
//@end
}
proof fn lemma_ranked(s: Set<AuthorityIdentifier>, a: AuthorityIdentifier, c: Committee)
    ensures !s.contains(a) ==> ranked(s.insert(a), c) == ranked(s, c) + (if members(c).contains_key(a) { 1nat } else { 0 }), ranked(s, c) <= csize(c), ranked(s.insert(a), c) <= csize(c),
{
    let d = members(c).dom();
    if members(c).contains_key(a) { assert(s.insert(a).intersect(d) =~= s.intersect(d).insert(a)); } else { assert(s.insert(a).intersect(d) =~= s.intersect(d)); }
    vstd::set_lib::lemma_len_subset(s.intersect(d), d); vstd::set_lib::lemma_len_subset(s.insert(a).intersect(d), d);
}

// ---------------------------------------------------------------- the channels
impl VIter<u32> { #[verifier::external_body] pub fn max(self) -> (r: Option<u32>) { unimplemented!() } }
pub struct SendError {}
pub struct StoreError {}
pub struct JoinErr {}
//@verus-only
pub enum CertManagerError { Certificate(CertificateError), JoinError, CertificateManagerOneshot, Send(SendError), Storage(StoreError), Other }
pub type CertManagerResult<T> = Result<T, CertManagerError>;
impl vstd::std_specs::convert::FromSpecImpl<CertificateError> for CertManagerError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: CertificateError) -> Self { CertManagerError::Certificate(e) } }
impl From<CertificateError> for CertManagerError { fn from(e: CertificateError) -> (r: Self) ensures r == CertManagerError::Certificate(e) { CertManagerError::Certificate(e) } }
impl vstd::std_specs::convert::FromSpecImpl<SendError> for CertManagerError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: SendError) -> Self { CertManagerError::Send(e) } }
impl From<SendError> for CertManagerError { fn from(e: SendError) -> (r: Self) ensures r == CertManagerError::Send(e) { CertManagerError::Send(e) } }
impl vstd::std_specs::convert::FromSpecImpl<StoreError> for CertManagerError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: StoreError) -> Self { CertManagerError::Storage(e) } }
impl From<StoreError> for CertManagerError { fn from(e: StoreError) -> (r: Self) ensures r == CertManagerError::Storage(e) { CertManagerError::Storage(e) } }
//@end-only
pub struct ConsensusBus { pub x: u64 }
pub struct ToProposer { pub x: u64 }
impl ConsensusBus { #[verifier::external_body] pub fn parents(&self) -> (r: ToProposer) { unimplemented!() } }
impl ToProposer {
    /// the proposer takes parents of the round they are sent for, each of another author
    #[verifier::external_body] pub fn send(&self, m: (Vec<Certificate>, Round)) -> (r: Result<(), SendError>)
        requires forall|i: int| 0 <= i < m.0@.len() ==> (#[trigger] m.0@[i]).f().round == m.1, forall|i: int, j: int| 0 <= i < j < m.0@.len() ==> (#[trigger] m.0@[i]).f().author != (#[trigger] m.0@[j]).f().author { unimplemented!() }
}
pub open spec fn in_round(g: CertificatesAggregator, r: Round) -> bool { forall|i: int| 0 <= i < g.certificates@.len() ==> (#[trigger] g.certificates@[i]).f().round == r }
#[verifier::external_body]
pub fn vx_entry<'a, F: FnOnce() -> Box<CertificatesAggregator>>(m: &'a mut BTreeMap<Round, Box<CertificatesAggregator>>, k: Round, f: F) -> (r: &'a mut Box<CertificatesAggregator>)
    requires f.requires(()),
    ensures old(m)@.contains_key(k) ==> *r == old(m)@[k], !old(m)@.contains_key(k) ==> f.ensures((), *r), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
impl CertificatesAggregatorManager {
    pub open spec fn wf(self, c: Committee) -> bool { forall|r: Round| #[trigger] self.aggregators@.contains_key(r) ==> self.aggregators@[r].wf(c) && in_round(*self.aggregators@[r], r) }
//@fn file=crates/consensus/primary/src/aggregators/certificates.rs path="impl CertificatesAggregatorManager :: fn new" ret=r
//@spec
    ensures forall|c: Committee| r.wf(c), r.aggregators@ == Map::<Round, Box<CertificatesAggregator>>::empty(),
//@end
//@fn file=crates/consensus/primary/src/aggregators/certificates.rs path="impl CertificatesAggregatorManager :: fn append_certificate" ret=r async=drop
//@sub? /\b(self\s*\.aggregators)\s*\.entry\((\w+)\)\s*\.or_insert_with\(\|\| Box::new\(CertificatesAggregator::new\(\)\)\)/ => vx_entry(&mut \1, \2, || -> (b: Box<CertificatesAggregator>) ensures b.certificates@.len() == 0, b.authorities_seen@ == Set::<AuthorityIdentifier>::empty(), forall|c: Committee| b.wf(c) { Box::new(CertificatesAggregator::new()) })
//@sub? /\.await\b/ => 
//@spec
    requires committee.wf(), old(self).wf(*committee),
    ensures final(self).wf(*committee), forall|q: Round| q != certificate.f().round ==> final(self).aggregators@.contains_key(q) == old(self).aggregators@.contains_key(q) && final(self).aggregators@[q] == old(self).aggregators@[q],
        final(self).aggregators@.contains_key(certificate.f().round), final(self).aggregators@[certificate.f().round].authorities_seen@.contains(certificate.f().author),
//@end
}
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn retain<F: Fn(&K, &V) -> bool>(&mut self, f: F)
        requires forall|k: K| #[trigger] old(self)@.contains_key(k) ==> f.requires((&k, &old(self)@[k])),
        ensures
            forall|k: K| #[trigger] old(self)@.contains_key(k) ==> f.ensures((&k, &old(self)@[k]), final(self)@.contains_key(k)),
            forall|k: K| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k],
    { unimplemented!() }
}
impl CertificatesAggregatorManager {
//@fn file=crates/consensus/primary/src/aggregators/certificates.rs path="impl CertificatesAggregatorManager :: fn garbage_collect"
//@sub? /\|(\w+), _\|/ => |\1, _e|
//@clos retain.0 &Round ; &Box<CertificatesAggregator> -> (b: bool)
    ensures b == (*$0 > *gc_round),
//@spec
    ensures forall|r: Round| #[trigger] final(self).aggregators@.contains_key(r) <==> old(self).aggregators@.contains_key(r) && r > *gc_round,
        forall|r: Round| #[trigger] final(self).aggregators@.contains_key(r) ==> final(self).aggregators@[r] == old(self).aggregators@[r],
        forall|c: Committee| old(self).wf(c) ==> #[trigger] final(self).wf(c),
//@end
}
// ---------------------------------------------------------------- certificates from peers
pub trait Database {}
pub struct NetCfg { pub s: SyncCfg }
pub struct SyncCfg { pub certificate_verification_round_interval: Round, pub certificate_verification_chunk_size: usize }
impl NetCfg { pub fn sync_config(&self) -> (r: &SyncCfg) ensures *r == self.s { &self.s } }
pub struct CertStore { pub x: u64 }
pub mod vx_st { use vstd::prelude::*; use super::*; pub uninterp spec fn stored(s: CertStore) -> Set<HeaderDigest>; }
impl CertStore { #[verifier::external_body] pub fn contains(&self, d: &HeaderDigest) -> (r: Result<bool, StoreError>) ensures r matches Ok(b) ==> b == vx_st::stored(*self).contains(*d) { unimplemented!() } }
pub struct ConsensusConfig<DB> { pub com: Committee, pub net: NetCfg, pub store: CertStore, pub d: core::marker::PhantomData<DB> }
impl<DB> ConsensusConfig<DB> {
    pub fn committee(&self) -> (r: &Committee) ensures *r == self.com { &self.com }
    pub fn network_config(&self) -> (r: &NetCfg) ensures *r == self.net { &self.net }
    pub fn node_storage(&self) -> (r: &CertStore) ensures *r == self.store { &self.store }
}
pub struct TaskSpawner { pub x: u64 }
//@item file=crates/consensus/primary/src/state_sync/cert_validator.rs path="struct CertificateValidator"
//@end
impl<DB> Clone for CertificateValidator<DB> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// what the certificate manager may be given: a quorum's signature over it was checked, or it is the genesis
pub open spec fn direct(c: Certificate, com: Committee) -> bool {
    c.f().epoch == cepoch(com) && (c.is_gen(com) || (valid(c.f(), com) && c.attested(keys(com)) && c.signature_verification_state is VerifiedDirectly))
}
pub open spec fn cites(s: Seq<Certificate>, j: int, i: int) -> bool { s[j].f().parents.contains(s[i].dig()) }
/// checked itself, or cited (at most `fuel` steps) by one that was
pub open spec fn vouched(s: Seq<Certificate>, i: int, com: Committee, fuel: nat) -> bool decreases fuel {
    direct(s[i], com) || (fuel > 0 && exists|j: int| 0 <= j < s.len() && #[trigger] cites(s, j, i) && vouched(s, j, com, (fuel - 1) as nat))
}
pub open spec fn vouch(s: Seq<Certificate>, i: int, com: Committee) -> bool { exists|n: nat| vouched(s, i, com, n) }
pub open spec fn all_vouched(s: Seq<Certificate>, com: Committee) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] vouch(s, i, com) }
/// each checked, or marked as cited by another
pub open spec fn settled(s: Seq<Certificate>, com: Committee) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].wf() && (direct(s[i], com) || exists|j: int| 0 <= j < s.len() && #[trigger] cites(s, j, i)) }
proof fn lemma_climb(s: Seq<Certificate>, com: Committee, top: nat, i: int)
    requires settled(s, com), 0 <= i < s.len(), forall|j: int| 0 <= j < s.len() ==> vx_b::depth((#[trigger] s[j]).dig()) <= top,
    ensures vouch(s, i, com),
    decreases top - vx_b::depth(s[i].dig()),
{
    if direct(s[i], com) { assert(vouched(s, i, com, 0)); }
    else {
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] cites(s, j, i);
        assert(s[j].wf()); assert(s[j].dig() == hd(s[j].f()));
        vx_b::ax_depth(s[j].f(), s[i].dig());
        lemma_climb(s, com, top, j);
        let n = choose|n: nat| vouched(s, j, com, n);
        assert(vouched(s, i, com, n + 1));
    }
}
proof fn lemma_top(s: Seq<Certificate>) -> (top: nat)
    ensures forall|j: int| 0 <= j < s.len() ==> vx_b::depth((#[trigger] s[j]).dig()) <= top,
    decreases s.len(),
{ if s.len() == 0 { 0 } else { let t = lemma_top(s.drop_last()); let d = vx_b::depth(s.last().dig()); assert forall|j: int| 0 <= j < s.len() implies vx_b::depth((#[trigger] s[j]).dig()) <= (if t > d { t } else { d }) by { if j < s.len() - 1 { assert(s.drop_last()[j] == s[j]); } } if t > d { t } else { d } } }
pub proof fn thm_vouched(s: Seq<Certificate>, com: Committee)
    requires settled(s, com),
    ensures all_vouched(s, com),
{ let top = lemma_top(s); assert forall|i: int| 0 <= i < s.len() implies #[trigger] vouch(s, i, com) by { lemma_climb(s, com, top, i); } }

/// `vec![x]`
#[verifier::external_body] pub fn vx_one<T>(t: T) -> (r: Vec<T>) ensures r@ == seq![t] { unimplemented!() }
pub fn vx_ix(v: &Vec<(usize, Certificate)>, n: usize) -> (r: usize) requires n < v@.len() ensures r == v@[n as int].0 { v[n].0 }
/// the n-th item of `iter_mut`
#[verifier::external_body] pub fn vx_at<'a>(v: &'a mut Vec<(usize, Certificate)>, n: usize) -> (r: &'a mut Certificate) requires n < old(v)@.len() ensures *r == old(v)@[n as int].1, final(v)@ == old(v)@.update(n as int, (old(v)@[n as int].0, *final(r))) { unimplemented!() }
#[verifier::external_body] pub fn vx_nth<'a>(v: &'a mut Vec<Certificate>, n: usize) -> (r: &'a mut Certificate) requires n < old(v)@.len() ensures *r == old(v)@[n as int], final(v)@ == old(v)@.update(n as int, *final(r)) { unimplemented!() }
/// a task's result, or the news that it never finished
#[verifier::external_body] pub fn vx_join<T>(t: T) -> (r: Result<T, JoinErr>) ensures r matches Ok(x) ==> x == t { unimplemented!() }
/// `[T]::chunks`: the elements in order, a few at a time
pub open spec fn flat<T>(c: Seq<Vec<T>>) -> Seq<T> decreases c.len() { if c.len() == 0 { Seq::empty() } else { flat(c.drop_last()) + c.last()@ } }
pub trait VxChunks<T> { spec fn vx_c(&self) -> Seq<T>; fn chunks(&self, n: usize) -> (r: VIter<Vec<T>>) requires n > 0 ensures flat(r@) == self.vx_c(); fn to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vx_c(); }
impl<T> VxChunks<T> for Vec<T> { open spec fn vx_c(&self) -> Seq<T> { self@ } #[verifier::external_body] fn chunks(&self, n: usize) -> (r: VIter<Vec<T>>) { unimplemented!() } #[verifier::external_body] fn to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
#[verifier::external_body] pub fn vx_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
#[verifier::external_body] pub fn vx_extend_set(v: &mut HashSet<HeaderDigest>, w: VIter<&HeaderDigest>) ensures forall|d: HeaderDigest| #[trigger] final(v)@.contains(d) <==> old(v)@.contains(d) || exists|i: int| 0 <= i < w@.len() && *(#[trigger] w@[i]) == d { unimplemented!() }
/// `b` is `a` after checking: the same certificates, all accepted
pub open spec fn checked(a: Seq<(usize, Certificate)>, b: Seq<(usize, Certificate)>, com: Committee) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> b[i].0 == a[i].0 && kin(a[i].1, b[i].1) && direct(b[i].1, com)
}
/// differ in the verification state only
pub open spec fn kin(a: Certificate, b: Certificate) -> bool { b.header == a.header && b.signed_authorities == a.signed_authorities && b.sig() == a.sig() }
pub open spec fn fresh(a: Seq<(usize, Certificate)>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).1.wf() && a[i].1.unsure() }
impl<DB> CertificateValidator<DB> where DB: Database {
    pub open spec fn com(self) -> Committee { self.config.com }
    pub open spec fn wf(self) -> bool { self.com().wf() && self.config.net.s.certificate_verification_chunk_size > 0 }
    #[verifier::external_body] pub fn gc_round(&self) -> (r: Round) { unimplemented!() }
    /// to the certificate manager
    #[verifier::external_body] pub fn forward_verified_certs(&self, highest_round: Round, certificates: Vec<Certificate>) -> (r: CertManagerResult<()>) requires all_vouched(certificates@, self.com()) { unimplemented!() }
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn validate_and_verify" ret=r
//@sub? /(CertificateError::TooOld\([^;]*?\))\s*\.into\(\)/ => CertManagerError::Certificate(\1)
//@spec
    requires self.wf(), old(certificate).wf(), old(certificate).unsure(),
    ensures r is Ok ==> kin(*old(certificate), *final(certificate)) && direct(*final(certificate), self.com()),
        r is Err ==> *final(certificate) == *old(certificate),
//@head
    proof { lemma_keys(self.com()); }
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn process_certificate" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /vec!\[(\w+)\.clone\(\)\]/ => vx_one(\1.clone())
//@spec
    requires self.wf(), old(certificate).wf(), external ==> old(certificate).unsure(), !external ==> direct(*old(certificate), self.com()),
//@before /self\s*\.forward_verified_certs/
    proof { let s = seq![*certificate]; assert(vouched(s, 0, self.com(), 0)); assert(vouch(s, 0, self.com())); assert(all_vouched(s, self.com())); }
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn process_own_certificate" ret=r async=drop
//@sub? /\.await\b/ => 
//@spec
    requires self.wf(), old(certificate).wf(), direct(*old(certificate), self.com()),
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn process_peer_certificate" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /\.inspect\(\|_\| \{[^{}]*\}\)/ => 
//@spec
    requires self.wf(), old(certificate).wf(), old(certificate).unsure(),
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn requires_direct_verification" ret=r
//@spec
    ensures !all_parents@.contains(cert.dig()) ==> r,
        self.config.net.s.certificate_verification_round_interval > 0 && cert.f().round % self.config.net.s.certificate_verification_round_interval == 0 ==> r,
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn mark_verified_indirectly" ret=r
//@desugar opt.ok_or
//@spec
    ensures r is Ok ==> kin(*old(cert), *final(cert)), r is Err ==> *final(cert) == *old(cert), old(cert).sig() is Some ==> r is Ok,
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn spawn_verification_task" ret=r
//@sub? /tokio::task::JoinHandle<(.*)>\s*\{/ => \1 {
//@sub? /tokio::task::spawn_blocking\(move \|\| (\{.*\})\)\s*\}/ => \1 }
//@sub? /for \((\w+), (\w+)\) in (\w+)\.iter_mut\(\) \{/ => let mut vx_n: usize = 0; while vx_n < \3.len() { let \1 = vx_ix(&\3, vx_n); let \2 = vx_at(&mut \3, vx_n); vx_n += 1;
//@loop 0
    invariant self.wf(), validator == *self, vx_n <= certs@.len(), certs@.len() == c0.len(), fresh(c0),
        forall|i: int| #![trigger certs@[i]] 0 <= i < vx_n ==> certs@[i].0 == c0[i].0 && kin(c0[i].1, certs@[i].1) && direct(certs@[i].1, self.com()),
        forall|i: int| #![trigger certs@[i]] vx_n <= i < c0.len() ==> certs@[i] == c0[i],
    decreases certs@.len() - vx_n,
//@loophead 0
    proof { assert(c0[vx_n as int].1.wf()); assert(certs@[vx_n as int] == c0[vx_n as int]); }
//@head
    let ghost c0 = certs@;
//@spec
    requires self.wf(), fresh(certs@),
    ensures r matches Ok(v) ==> checked(certs@, v@, self.com()),
//@end

//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn classify_certificates_for_verification" ret=r
//@sub? /&mut \[Certificate\]/ => &mut Vec<Certificate>
//@sub? /HashSet::new\(\)/ => HashSet::<HeaderDigest>::new()
//@sub? /\b(\w+)\.extend\(([^;]*)\);/ => vx_extend_set(&mut \1, \2);
//@sub? /for \((\w+), (\w+)\) in (\w+)\.iter_mut\(\)\.enumerate\(\) \{/ => let mut vx_n: usize = 0; while vx_n < \3.len() { let \1 = vx_n; let \2 = vx_nth(\3, vx_n); vx_n += 1;
//@forvec 0
//@loop 0 iter=it
    invariant it.seq().len() == c0.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < c0.len() ==> *it.seq()[i] == c0[i],
        forall|d: HeaderDigest| #[trigger] all_parents@.contains(d) ==> exists|j: int| 0 <= j < c0.len() && (#[trigger] c0[j]).f().parents.contains(d),
//@loophead 0
    let ghost ap0 = all_parents@; let ghost vx_c = *it.seq()[it.index()];
//@loopend 0
    proof { assert forall|d: HeaderDigest| #[trigger] all_parents@.contains(d) implies exists|j: int| 0 <= j < c0.len() && (#[trigger] c0[j]).f().parents.contains(d) by { if !ap0.contains(d) { assert(vx_c.f().parents.contains(d)); assert(c0[it.index()].f().parents.contains(d)); } } }
//@loop 1
    invariant self.wf(), certificates@.len() == c0.len(), vx_n <= c0.len(), fresh_all(c0),
        forall|d: HeaderDigest| #[trigger] all_parents@.contains(d) ==> exists|j: int| 0 <= j < c0.len() && (#[trigger] c0[j]).f().parents.contains(d),
        forall|i: int| #![trigger certificates@[i]] 0 <= i < c0.len() ==> kin(c0[i], certificates@[i]),
        forall|i: int| #![trigger certificates@[i]] vx_n <= i < c0.len() ==> certificates@[i] == c0[i],
        todo(c0, direct_verification_certs@, vx_n as int),
    decreases c0.len() - vx_n,
//@loophead 1
    let ghost dv0 = direct_verification_certs@; let ghost vx_i = vx_n as int;
    proof { assert(c0[vx_i].unsure()); assert(certificates@[vx_i] == c0[vx_i]); assert(kin(c0[vx_i], certificates@[vx_i])); lemma_todo(c0, dv0, vx_i); }
//@head
    let ghost c0 = certificates@;
//@spec
    requires self.wf(), fresh_all(old(certificates)@),
    ensures final(certificates)@.len() == old(certificates)@.len(),
        forall|i: int| #![trigger final(certificates)@[i]] 0 <= i < old(certificates)@.len() ==> kin(old(certificates)@[i], final(certificates)@[i]),
        r matches Ok(v) ==> fresh(v@) && todo(old(certificates)@, v@, old(certificates)@.len() as int),
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn verify_certificate_chunk" ret=r async=drop
//@sub? /\b(\w+)\.await\b/ => vx_join(\1)
//@sub? /\b(\w+)\.extend\((\w+)\)/ => vx_extend(&mut \1, \2)
//@sub? /: Vec<_>/ => 
//@vsub /let (\w+)\s*=\s*(\w+)\s*\.chunks\(([^;]*?)\)\s*\.map\(/ => let vx_ch = \2.chunks(\3).vx_vec(); let ghost ch = vx_ch@; let \1 = vx_into_iter(vx_ch).map(
//@chain
//@vsub /let mut vx_col0 = Vec::new\(\)/ => let mut vx_col0: Vec<CertManagerResult<Vec<(usize, Certificate)>>> = Vec::new()
//@vsub /let mut verified_certs = Vec::new\(\)/ => let mut verified_certs: Vec<(usize, Certificate)> = Vec::new()
//@sub? /for (\w+) in (\w+) \{/ => for \1 in vx_into_iter(\2) {
//@forvec 0
//@forvec 1
//@loop 0 iter=it
    invariant self.wf(), fresh(certs_for_verification@), flat(it.seq()) == certs_for_verification@, vx_col0@.len() == it.index(),
        forall|i: int| #![trigger vx_col0@[i]] 0 <= i < it.index() ==> (vx_col0@[i] matches Ok(v) ==> checked(it.seq()[i]@, v@, self.com())), ch == it.seq(),
//@loophead 0
    proof { lemma_flat(ch, it.index(), certs_for_verification@); assert forall|k: int| 0 <= k < vx_x0@.len() implies (#[trigger] vx_x0@[k]).1.wf() && vx_x0@[k].1.unsure() by { let j = choose|j: int| 0 <= j < certs_for_verification@.len() && certs_for_verification@[j] == vx_x0@[k]; } }
//@loop 1 iter=it
    invariant it.seq().len() == tasks0.len(), it.seq() == tasks0, ch.len() == tasks0.len(), forall|i: int| #![trigger tasks0[i]] 0 <= i < ch.len() ==> (tasks0[i] matches Ok(v) ==> checked(ch[i]@, v@, self.com())),
        checked(flat(ch.take(it.index())), verified_certs@, self.com()),
//@loophead 1
    proof { let n = it.index(); assert(ch.take(n + 1).drop_last() =~= ch.take(n)); assert(ch.take(n + 1).last() == ch[n]); assert(tasks0[n] == it.seq()[n]); }
//@tail out
    proof { assert(ch.take(ch.len() as int) =~= ch); }
//@before /let mut verified_certs\b/
    let ghost tasks0 = verify_tasks@;
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires self.wf(), fresh(certs_for_verification@),
    ensures r matches Ok(v) ==> checked(certs_for_verification@, v@, self.com()),
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn verify_collection" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /for \((\w+), (\w+)\) in (\w+) \{/ => for (\1, \2) in vx_into_iter(\3) {
//@forvec 0
//@head
    let ghost c0 = certificates@;
//@beforeloop 0
    let ghost c1 = certificates@; let ghost v1 = verified_certs@;
    proof { assert forall|t: int| #![trigger v1[t]] 0 <= t < v1.len() implies v1[t].0 == certs0[t].0 && v1[t].0 < c0.len() && kin(c0[v1[t].0 as int], v1[t].1) && direct(v1[t].1, self.com()) by { assert(certs0[t].1 == c0[certs0[t].0 as int]); } }
//@before /let verified_certs\b/
    let ghost certs0 = certs_for_verification@;
//@loop 0 iter=it
    invariant self.wf(), it.seq() == v1, certificates@.len() == c0.len(),
        forall|t: int| #![trigger v1[t]] 0 <= t < v1.len() ==> v1[t].0 == certs0[t].0 && v1[t].0 < c0.len() && kin(c0[v1[t].0 as int], v1[t].1) && direct(v1[t].1, self.com()),
        forall|s: int, t: int| 0 <= s < t < v1.len() ==> (#[trigger] v1[s]).0 < (#[trigger] v1[t]).0,
        forall|i: int| #![trigger certificates@[i]] 0 <= i < c0.len() ==> kin(c0[i], certificates@[i]),
        forall|t: int| #![trigger v1[t]] 0 <= t < it.index() ==> certificates@[v1[t].0 as int] == v1[t].1,
//@attr #[verifier::loop_isolation(false)]
//@tail out
    proof { assert(out->Ok_0@.len() == c0.len()); lemma_settled(c0, out->Ok_0@, certs0, v1, self.com()); }
//@spec
    requires self.wf(), fresh_all(certificates@),
    ensures r matches Ok(v) ==> v@.len() == certificates@.len() && settled(v@, self.com()) && forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> kin(certificates@[i], v@[i]),
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn process_fetched_certificates_in_parallel" ret=r async=drop
//@sub? /\.await\b/ => 
//@before /self\s*\.forward_verified_certs/
    proof { thm_vouched(certificates@, self.com()); }
//@spec
    requires self.wf(), fresh_all(certificates@),
//@end
}
pub open spec fn fresh_all(a: Seq<Certificate>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).wf() && a[i].unsure() }
/// of the first n certificates, those to be checked directly: all but some that others cite
pub open spec fn todo(c: Seq<Certificate>, v: Seq<(usize, Certificate)>, n: int) -> bool {
    &&& forall|t: int| #![trigger v[t]] 0 <= t < v.len() ==> (v[t]).0 < n && v[t].1 == c[v[t].0 as int]
    &&& forall|s: int, t: int| 0 <= s < t < v.len() ==> (#[trigger] v[s]).0 < (#[trigger] v[t]).0
    &&& forall|i: int| #![trigger c[i]] 0 <= i < n ==> picked(v, i) || cited(c, i)
}
pub open spec fn picked(v: Seq<(usize, Certificate)>, i: int) -> bool { exists|t: int| 0 <= t < v.len() && (#[trigger] v[t]).0 == i }
pub open spec fn cited(c: Seq<Certificate>, i: int) -> bool { exists|j: int| 0 <= j < c.len() && (#[trigger] c[j]).f().parents.contains(c[i].dig()) }
proof fn lemma_flat<T>(c: Seq<Vec<T>>, i: int, s: Seq<T>)
    requires flat(c) == s, 0 <= i < c.len(),
    ensures forall|k: int| 0 <= k < c[i]@.len() ==> s.contains(#[trigger] c[i]@[k]),
    decreases c.len(),
{
    let p = c.drop_last();
    if i < c.len() - 1 {
        lemma_flat(p, i, flat(p));
        assert forall|k: int| 0 <= k < c[i]@.len() implies s.contains(#[trigger] c[i]@[k]) by { assert(p[i] == c[i]); assert(flat(p).contains(p[i]@[k])); let j = choose|j: int| 0 <= j < flat(p).len() && flat(p)[j] == c[i]@[k]; assert(s[j] == c[i]@[k]); }
    } else { assert forall|k: int| 0 <= k < c[i]@.len() implies s.contains(#[trigger] c[i]@[k]) by { assert(s[flat(p).len() + k] == c[i]@[k]); } }
}
proof fn lemma_settled(c0: Seq<Certificate>, v: Seq<Certificate>, td: Seq<(usize, Certificate)>, ck: Seq<(usize, Certificate)>, com: Committee)
    requires fresh_all(c0), v.len() == c0.len(), todo(c0, td, c0.len() as int), ck.len() == td.len(),
        forall|t: int| #![trigger ck[t]] 0 <= t < ck.len() ==> ck[t].0 == td[t].0 && direct(ck[t].1, com) && v[ck[t].0 as int] == ck[t].1,
        forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> kin(c0[i], v[i]),
    ensures settled(v, com),
{
    assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies v[i].wf() && (direct(v[i], com) || exists|j: int| 0 <= j < v.len() && #[trigger] cites(v, j, i)) by {
        assert(c0[i].wf());
        if picked(td, i) { let t = choose|t: int| 0 <= t < td.len() && (#[trigger] td[t]).0 == i; assert(ck[t].0 == i); }
        else { assert(cited(c0, i)); let j = choose|j: int| 0 <= j < c0.len() && (#[trigger] c0[j]).f().parents.contains(c0[i].dig()); assert(v[j].header == c0[j].header); assert(cites(v, j, i)); }
    }
}
proof fn lemma_todo(c: Seq<Certificate>, v: Seq<(usize, Certificate)>, n: int)
    requires todo(c, v, n), 0 <= n < c.len() <= usize::MAX,
    ensures todo(c, v.push((n as usize, c[n])), n + 1), cited(c, n) ==> todo(c, v, n + 1),
{
    let w = v.push((n as usize, c[n]));
    assert forall|i: int| #![trigger c[i]] 0 <= i < n + 1 implies picked(w, i) || cited(c, i) by {
        if i == n { assert(w[v.len() as int].0 == n); } else if picked(v, i) { let t = choose|t: int| 0 <= t < v.len() && (#[trigger] v[t]).0 == i; assert(w[t].0 == i); }
    }
}
fn main() {}
}
