// C06: votes on other members' headers
#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use std::sync::Arc;
verus! {
//@include lib/verus/result.rs
//@include lib/verus/question.rs
//@include lib/verus/viter.rs
//@include lib/verus/btree.rs
//@known IndexMap BlockNumHash Committee Authority Arc HeaderError CertificateError CertManagerError PrimaryNetworkError PrimaryResponse SignatureVerificationState Duration
broadcast use {vx_btree::group_btree, vx_b::group_b, vx_q::ax_question};
pub type Round = u32; pub type Epoch = u32; pub type VotingPower = u64; pub type TimestampSec = u64; pub type WorkerId = u16;
macro_rules! vx_id { ($n:ident, $t:ty) => { verus! {
    #[derive(Clone, Copy)] pub struct $n(pub $t);
    impl vstd::std_specs::cmp::PartialEqSpecImpl for $n { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
    impl $n { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
} } }
vx_id!(HeaderDigest, u64); vx_id!(AuthorityIdentifier, u64); vx_id!(BlsPublicKey, u64); vx_id!(BlsSignature, u64); vx_id!(BlockHash, u64); vx_id!(BlockNumHash, u64); vx_id!(VoteDigest, u64); vx_id!(EpochDigest, u64);
/// the vote digest is the header digest
impl vstd::std_specs::convert::FromSpecImpl<HeaderDigest> for VoteDigest { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(d: HeaderDigest) -> Self { VoteDigest(d.0) } }
impl From<HeaderDigest> for VoteDigest { fn from(d: HeaderDigest) -> (r: Self) { VoteDigest(d.0) } }
/// an authority is named by its key
pub uninterp spec fn aid(k: BlsPublicKey) -> AuthorityIdentifier;
impl vstd::std_specs::convert::FromSpecImpl<BlsPublicKey> for AuthorityIdentifier { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: BlsPublicKey) -> Self { aid(k) } }
impl From<BlsPublicKey> for AuthorityIdentifier { #[verifier::external_body] fn from(k: BlsPublicKey) -> (r: Self) { unimplemented!() } }
pub struct IndexMap<K, V> { pub e: Vec<(K, V)> }
impl<K, V> View for IndexMap<K, V> { type V = Seq<(K, V)>; open spec fn view(&self) -> Seq<(K, V)> { self.e@ } }
// ---------------------------------------------------------------- headers (C02, C04)
//@item file=crates/types/src/primary/header.rs path="struct HeaderInner"
//@end
//@item file=crates/types/src/primary/header.rs path="struct Header"
//@end
/// what a header says
pub ghost struct HF { pub author: AuthorityIdentifier, pub round: Round, pub epoch: Epoch, pub created_at: u64, pub payload: Seq<(BlockHash, WorkerId)>, pub parents: Set<HeaderDigest>, pub exe: BlockNumHash, pub seed: BlsSignature }
pub open spec fn said(i: HeaderInner) -> HF { HF { author: i.author, round: i.round, epoch: i.epoch, created_at: i.created_at, payload: i.payload@, parents: i.parents@, exe: i.latest_execution_block, seed: i.seed_signature } }
impl HeaderInner { pub open spec fn wf(self) -> bool { self.digest == vx_b::hd(said(self)) } }
impl Header {
    /// the cached digest is that of the fields
    pub open spec fn wf(self) -> bool { self.inner.wf() }
    pub open spec fn f(self) -> HF { said(*self.inner) }
    pub open spec fn dig(self) -> HeaderDigest { vx_b::hd(self.f()) }
}
pub mod vx_b {
use vstd::prelude::*;
use super::*;
/// the header digest: a function of the fields, without collisions
pub uninterp spec fn hd(f: HF) -> HeaderDigest;
pub broadcast axiom fn ax_hd(f: HF, g: HF) ensures #![trigger hd(f), hd(g)] hd(f) == hd(g) ==> f.author == g.author && f.round == g.round && f.epoch == g.epoch;
pub uninterp spec fn valid(h: HF, c: Committee) -> bool;
pub uninterp spec fn seed_on(e: Epoch) -> bool;
pub uninterp spec fn seed_ok(e: Epoch, r: Round, prior: EpochDigest, s: BlsSignature, k: BlsPublicKey) -> bool;
/// this node executed the block
pub uninterp spec fn executed(b: BlockNumHash) -> bool;
/// the batches of the header are here, from the workers it names
pub uninterp spec fn have_batches(f: HF) -> bool;
/// the certificate is accepted here (stored, or the genesis of a member)
pub uninterp spec fn accepted(c: Certificate) -> bool;
/// the clock read this
pub uninterp spec fn was_now(t: u64) -> bool;
/// the signature of the holder of the key configuration over the header digest
pub uninterp spec fn signed(k: KeyConfig, d: HeaderDigest) -> BlsSignature;
pub broadcast group group_b { ax_hd }
}
pub use vx_b::*;
impl Clone for Header { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Header {
    /// C02
    #[verifier::external_body] pub fn validate(&self, committee: &Committee) -> (r: HeaderResult<()>) ensures r is Ok <==> valid(self.f(), *committee) { unimplemented!() }
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn digest" ret=r
//@spec
    ensures r == self.inner.digest,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn author" ret=r
//@spec
    ensures *r == self.f().author,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn round" ret=r
//@spec
    ensures r == self.f().round,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn epoch" ret=r
//@spec
    ensures r == self.f().epoch,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn created_at" ret=r
//@spec
    ensures *r == self.f().created_at,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn parents" ret=r
//@spec
    ensures r@ == self.f().parents,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn latest_execution_block" ret=r
//@spec
    ensures r == self.f().exe,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn seed_signature" ret=r
//@desugar bool.then_some
//@spec
    ensures r is Some <==> seed_on(self.f().epoch), r matches Some(s) ==> *s == self.f().seed,
//@end
}
#[verifier::external_body] pub fn seed_signature_active(e: Epoch) -> (r: bool) ensures r == seed_on(e) { unimplemented!() }
#[verifier::external_body] pub fn now() -> (r: u64) ensures was_now(r) { unimplemented!() }
//@item file=crates/types/src/primary/certificate.rs path="enum SignatureVerificationState" attr="#[derive(Clone, Copy)]"
//@end
pub struct RoaringBitmap { pub x: u64 }
pub mod roaring { pub use super::RoaringBitmap; }
//@item file=crates/types/src/primary/certificate.rs path="struct Certificate"
//@end
impl Clone for Certificate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Certificate {
    pub open spec fn f(self) -> HF { self.header.f() }
    pub open spec fn dig(self) -> HeaderDigest { self.header.inner.digest }
    pub open spec fn wf(self) -> bool { self.header.wf() }
    pub open spec fn unsure(self) -> bool { self.signature_verification_state is Unverified }
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn header" ret=r
//@spec
    ensures *r == self.header,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn round" ret=r
//@spec
    ensures r == self.f().round,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn epoch" ret=r
//@spec
    ensures r == self.f().epoch,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn origin" ret=r
//@spec
    ensures *r == self.f().author,
//@end
    #[verifier::external_body] pub fn aggregated_signature(&self) -> (r: Option<BlsSignature>) { unimplemented!() }
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn set_signature_verification_state" ret=r
//@spec
    ensures *final(self) == (Certificate { signature_verification_state: state, ..*old(self) }),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Hash for Certificate :: fn digest" ret=r rename=digest
//@sub? /Self::TypedDigest/ => HeaderDigest
//@spec
    ensures r == self.dig(),
//@end
}
// ---------------------------------------------------------------- the committee (C01)
#[derive(Clone, Copy)] pub struct Authority { pub aid: AuthorityIdentifier, pub key: BlsPublicKey }
impl Authority {
    pub fn id(&self) -> (r: AuthorityIdentifier) ensures r == self.aid { self.aid }
    pub fn protocol_key(&self) -> (r: &BlsPublicKey) ensures *r == self.key { &self.key }
}
pub mod vx_com {
use vstd::prelude::*;
use super::*;
#[derive(Clone, Copy)] pub struct Committee { pub x: u64 }
pub uninterp spec fn members(c: Committee) -> Map<AuthorityIdentifier, BlsPublicKey>;
pub uninterp spec fn cepoch(c: Committee) -> Epoch;
}
pub use vx_com::*;
pub open spec fn csize(c: Committee) -> nat { members(c).dom().len() }
pub open spec fn quorum(n: nat) -> nat { 2 * n / 3 + 1 }
impl Committee {
    pub open spec fn wf(self) -> bool { 1 < csize(self) <= 0x7fff }
    #[verifier::external_body] pub fn size(&self) -> (r: usize) ensures r == csize(*self) { unimplemented!() }
    #[verifier::external_body] pub fn epoch(&self) -> (r: Epoch) ensures r == cepoch(*self) { unimplemented!() }
    #[verifier::external_body] pub fn authority(&self, id: &AuthorityIdentifier) -> (r: Option<Authority>) ensures r == (if members(*self).contains_key(*id) { Some(Authority { aid: *id, key: members(*self)[*id] }) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn voting_power_by_id(&self, id: &AuthorityIdentifier) -> (r: VotingPower) ensures r == (if members(*self).contains_key(*id) { 1u64 } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn quorum_threshold(&self) -> (r: VotingPower) requires self.wf() ensures r == quorum(csize(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn validity_threshold(&self) -> (r: VotingPower) requires self.wf() ensures r == (csize(*self) + 2) / 3 { unimplemented!() }
}
// ---------------------------------------------------------------- errors
//@verus-only
#[verifier::external_body] pub struct StoreError { x: u64 }
pub enum HeaderError { InvalidEpoch { theirs: Epoch, ours: Epoch }, UnknownAuthority(String), NotCommitteeMember, TooManyParents(usize, usize), InvalidParents, WrongNumberOfParents(usize, usize), PeerNotAuthor, UnknownExecutionResult(BlockNumHash), InvalidGenesisParent(HeaderDigest), Storage(StoreError), TooOld { digest: HeaderDigest, header_round: Round, max_round: Round }, TooNew { digest: HeaderDigest, header_round: Round, max_round: Round }, InvalidRound(HeaderDigest), ParentMissingSignature, InvalidSeedSignature, InvalidParentRound, InvalidParentTimestamp { header: TimestampSec, parent: TimestampSec }, DuplicateParents, InvalidTimestamp { created: TimestampSec, received: TimestampSec }, AlreadyVoted(HeaderDigest, Round), AlreadyVotedForLaterRound { theirs: Round, ours: Round }, PendingCertificateOneshot, Other }
pub type HeaderResult<T> = Result<T, HeaderError>;
pub enum CertificateError { Inquorate { stake: VotingPower, threshold: VotingPower }, Other }
pub enum CertManagerError { Certificate(CertificateError), Other }
pub struct Elapsed {}
pub enum PrimaryNetworkError { InvalidHeader(HeaderError), Certificate(CertManagerError), Storage(StoreError), Timeout(Elapsed), Other }
pub type PrimaryNetworkResult<T> = Result<T, PrimaryNetworkError>;
macro_rules! vx_from { ($a:ty, $b:ident, $v:ident) => { verus! {
    impl vstd::std_specs::convert::FromSpecImpl<$a> for $b { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: $a) -> Self { $b::$v(e) } }
    impl From<$a> for $b { fn from(e: $a) -> (r: Self) { $b::$v(e) } }
} } }
vx_from!(HeaderError, PrimaryNetworkError, InvalidHeader); vx_from!(CertManagerError, PrimaryNetworkError, Certificate); vx_from!(StoreError, PrimaryNetworkError, Storage); vx_from!(Elapsed, PrimaryNetworkError, Timeout);
vx_from!(CertificateError, CertManagerError, Certificate); vx_from!(StoreError, HeaderError, Storage);
pub struct PrimaryRPCError { pub x: u64 }
pub enum PrimaryResponse { Vote(Vote), MissingParents(Vec<HeaderDigest>), Error(PrimaryRPCError), RecoverableError(PrimaryRPCError), Other }
impl PrimaryResponse { #[verifier::external_body] pub fn into_error_ref(e: &PrimaryNetworkError) -> (r: Self) ensures r is Error || r is RecoverableError { unimplemented!() } }
impl Clone for PrimaryResponse { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Vote { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@end-only
pub trait VxHas<T> { spec fn vx_h(&self, x: T) -> bool; }
#[verifier::external_body] pub fn vx_contains(v: &Vec<HeaderDigest>, x: &HeaderDigest) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
pub mod vx_vecops {
use vstd::prelude::*;
pub trait VxVecOps<T> { spec fn vx_d(&self) -> Seq<T>;
    fn vx_vec(self) -> (r: Vec<T>) where Self: Sized ensures r@ == self.vx_d();
    fn vx_drain(&mut self) -> (r: VDrain<T>) ensures r.v@ == old(self).vx_d(), final(self).vx_d() == Seq::<T>::empty();
    fn vx_put(&mut self, v: Vec<T>) ensures final(self).vx_d() == v@; }
pub struct VDrain<T> { pub v: Vec<T> }
impl<T> VDrain<T> { pub fn vx_vec(self) -> (r: Vec<T>) ensures r@ == self.v@ { self.v } }
impl<T> VxVecOps<T> for Vec<T> { open spec fn vx_d(&self) -> Seq<T> { self@ }
    fn vx_vec(self) -> (r: Vec<T>) { self }
    #[verifier::external_body] fn vx_drain(&mut self) -> (r: VDrain<T>) { unimplemented!() }
    fn vx_put(&mut self, v: Vec<T>) { *self = v; } }
}
pub use vx_vecops::*;
// ---------------------------------------------------------------- votes
//@item file=crates/types/src/primary/vote.rs path="struct Vote"
//@end
//@item file=crates/types/src/primary/vote.rs path="struct VoteInfo" attr="#[derive(Clone, Copy)]"
//@end
#[derive(Clone, Copy)] pub struct KeyConfig { pub x: u64 }
/// a digest under the consensus intent, encoded
pub struct VxIntent(pub VoteDigest);
pub fn to_intent_message(d: VoteDigest) -> (r: VxIntent) ensures r.0 == d { VxIntent(d) }
pub fn encode(d: &VxIntent) -> (r: VxIntent) ensures r.0 == d.0 { VxIntent(d.0) }
impl KeyConfig { #[verifier::external_body] pub fn request_signature_direct(&self, m: &VxIntent) -> (r: BlsSignature) ensures r == signed(*self, HeaderDigest(m.0.0)) { unimplemented!() } }
/// the record of a header
pub open spec fn info(f: HF) -> VoteInfo { VoteInfo { epoch: f.epoch, round: f.round, vote_digest: VoteDigest(hd(f).0) } }
pub open spec fn vinfo(v: Vote) -> VoteInfo { VoteInfo { epoch: v.epoch, round: v.round, vote_digest: VoteDigest(v.header_digest.0) } }
/// not after, and the same when of one round
pub open spec fn le(a: VoteInfo, b: VoteInfo) -> bool { a.epoch < b.epoch || (a.epoch == b.epoch && (a.round < b.round || (a.round == b.round && a.vote_digest == b.vote_digest))) }
pub open spec fn ole(a: Option<VoteInfo>, b: Option<VoteInfo>) -> bool { match (a, b) { (None, _) => true, (Some(_), None) => false, (Some(x), Some(y)) => le(x, y) } }
/// a vote for the header in the name of `me`
pub open spec fn vote_for(v: Vote, f: HF, me: AuthorityIdentifier, k: KeyConfig) -> bool { v.header_digest == hd(f) && v.round == f.round && v.epoch == f.epoch && v.origin == f.author && v.author == me && v.signature == signed(k, hd(f)) }
impl Vote {
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn new" ret=r
//@sub? /<BLS: BlsSigner>/ => 
//@sub? /&BLS\b/ => &KeyConfig
//@sub? /Digest<\{ crypto::DIGEST_LENGTH \}>/ => VoteDigest
//@spec
    requires header.wf(),
    ensures vote_for(r, header.f(), author, *signature_service),
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn header_digest" ret=r
//@spec
    ensures r == self.header_digest,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn round" ret=r
//@spec
    ensures r == self.round,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn epoch" ret=r
//@spec
    ensures r == self.epoch,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn origin" ret=r
//@spec
    ensures *r == self.origin,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Hash for Vote :: fn digest" ret=r rename=digest
//@spec
    ensures r == VoteDigest(self.header_digest.0),
//@end
}
impl VoteInfo {
//@fn file=crates/types/src/primary/vote.rs path="impl VoteInfo :: fn epoch" ret=r
//@spec
    ensures r == self.epoch,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl VoteInfo :: fn round" ret=r
//@spec
    ensures r == self.round,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl VoteInfo :: fn vote_digest" ret=r
//@spec
    ensures r == self.vote_digest,
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl From<&Vote> for VoteInfo :: fn from" ret=r rename=vx_from_vote
//@spec
    ensures r == vinfo(*vote),
//@end
}
// ---------------------------------------------------------------- the vote store: what is staged, what is on disk
pub mod vx_store {
use vstd::prelude::*;
use super::*;
pub struct Store { pub x: u64 }
/// what reads return
pub uninterp spec fn mem(s: Store) -> Map<AuthorityIdentifier, VoteInfo>;
/// what a crash leaves
pub uninterp spec fn disk(s: Store) -> Map<AuthorityIdentifier, VoteInfo>;
}
pub use vx_store::*;
pub open spec fn at(m: Map<AuthorityIdentifier, VoteInfo>, a: AuthorityIdentifier) -> Option<VoteInfo> { if m.contains_key(a) { Some(m[a]) } else { None } }
/// only records of this store's own history reach the disk
pub open spec fn settled(a: Store, b: Store) -> bool { forall|k: AuthorityIdentifier| #![trigger at(disk(b), k)] at(disk(b), k) == at(disk(a), k) || at(disk(b), k) == at(mem(a), k) || at(disk(b), k) == at(mem(b), k) }
impl Store {
    #[verifier::external_body] pub fn insert_vote(&mut self, k: &AuthorityIdentifier, v: &VoteInfo) -> (r: Result<(), StoreError>)
        ensures settled(*old(self), *final(self)), r is Ok ==> mem(*final(self)) == mem(*old(self)).insert(*k, *v), r is Err ==> mem(*final(self)) == mem(*old(self)) || mem(*final(self)) == mem(*old(self)).insert(*k, *v) { unimplemented!() }
    #[verifier::external_body] pub fn get_vote(&self, k: &AuthorityIdentifier) -> (r: Result<Option<VoteInfo>, StoreError>) ensures r matches Ok(v) ==> v == at(mem(*self), *k) { unimplemented!() }
    /// the barrier: everything staged is on disk, or an error
    #[verifier::external_body] pub fn persist_votes(&mut self) -> (r: Result<(), StoreError>)
        ensures settled(*old(self), *final(self)), mem(*final(self)) == mem(*old(self)), r is Ok ==> disk(*final(self)) == mem(*final(self)) { unimplemented!() }
//@fn file=crates/storage/src/stores/vote_digest_store.rs path="impl VoteDigestStore for DB :: fn write_vote" ret=r
//@sub? /&self\b/ => &mut self
//@sub? /insert::<Votes>/ => insert_vote
//@sub? /&vote\.into\(\)/ => &VoteInfo::vx_from_vote(vote)
//@sub? /eyre::Result<\(\)>/ => Result<(), StoreError>
//@spec
    ensures settled(*old(self), *final(self)), r is Ok ==> mem(*final(self)) == mem(*old(self)).insert(vote.origin, vinfo(*vote)), r is Err ==> mem(*final(self)) == mem(*old(self)) || mem(*final(self)) == mem(*old(self)).insert(vote.origin, vinfo(*vote)),
//@end
//@fn file=crates/storage/src/stores/vote_digest_store.rs path="impl VoteDigestStore for DB :: fn read_vote_info" ret=r
//@sub? /get::<Votes>/ => get_vote
//@sub? /eyre::Result<Option<VoteInfo>>/ => Result<Option<VoteInfo>, StoreError>
//@spec
    ensures r matches Ok(v) ==> v == at(mem(*self), *header_author),
//@end
    /// `notify_read`: the certificate stored under the digest, once it is there
    #[verifier::external_body] pub fn notify_read(&self, d: HeaderDigest) -> (r: Result<Certificate, StoreError>) ensures r matches Ok(c) ==> accepted(c) && c.wf() && c.dig() == d && c.f().round < u32::MAX { unimplemented!() }
}
/// records are those of headers of their author
pub open spec fn store_wf(m: Map<AuthorityIdentifier, VoteInfo>) -> bool { forall|a: AuthorityIdentifier| #[trigger] m.contains_key(a) ==> exists|f: HF| f.author == a && m[a] == #[trigger] info(f) }
// ---------------------------------------------------------------- the node around the handler
pub mod vx_cfg {
use vstd::prelude::*;
use super::*;
#[derive(Clone, Copy)] pub struct Cfg { pub x: u64 }
pub uninterp spec fn com(c: Cfg) -> Committee;
pub uninterp spec fn me(c: Cfg) -> Option<AuthorityIdentifier>;
pub uninterp spec fn keyc(c: Cfg) -> KeyConfig;
pub uninterp spec fn prior(c: Cfg) -> EpochDigest;
pub uninterp spec fn drift(c: Cfg) -> u64;
/// the genesis certificates of the epoch, by digest
pub uninterp spec fn gens(c: Cfg) -> Map<HeaderDigest, Certificate>;
}
pub use vx_cfg::*;
pub struct Duration {}
impl Duration { pub fn from_secs(s: u64) -> Self { Duration {} } }
pub mod tokio { pub mod time { use super::super::*; #[verifier::external_body] pub fn sleep(d: Duration) { unimplemented!() } } }
pub struct SyncConfig { pub max_header_time_drift_tolerance: u64 }
pub struct NetworkConfig { pub s: SyncConfig }
impl NetworkConfig { pub fn sync_config(&self) -> (r: &SyncConfig) ensures *r == self.s { &self.s } }
pub struct Parameters { pub gc_depth: Round }
pub struct Shutdown {}
impl Shutdown { #[verifier::external_body] pub fn notify(&self) { unimplemented!() } }
pub struct ConsensusConfig { pub i: Cfg, pub s: Store }
impl ConsensusConfig {
    #[verifier::external_body] pub fn committee(&self) -> (r: &'static Committee) ensures *r == com(self.i) { unimplemented!() }
    #[verifier::external_body] pub fn authority_id(&self) -> (r: Option<AuthorityIdentifier>) ensures r == me(self.i) { unimplemented!() }
    #[verifier::external_body] pub fn key_config(&self) -> (r: &'static KeyConfig) ensures *r == keyc(self.i) { unimplemented!() }
    #[verifier::external_body] pub fn prior_epoch_record(&self) -> (r: EpochDigest) ensures r == prior(self.i) { unimplemented!() }
    #[verifier::external_body] pub fn parameters(&self) -> (r: &'static Parameters) ensures r.gc_depth <= 0x3fff_ffff { unimplemented!() }
    #[verifier::external_body] pub fn network_config(&self) -> (r: &'static NetworkConfig) ensures r.s.max_header_time_drift_tolerance == drift(self.i) { unimplemented!() }
    #[verifier::external_body] pub fn shutdown(&self) -> (r: &'static Shutdown) { unimplemented!() }
    #[verifier::external_body] pub fn genesis(&self) -> (r: &'static BTreeMap<HeaderDigest, Certificate>) ensures r@ == gens(self.i), forall|d: HeaderDigest| #[trigger] r@.contains_key(d) ==> accepted(r@[d]) && r@[d].wf() && r@[d].dig() == d && r@[d].f().round < u32::MAX { unimplemented!() }
    pub fn node_storage(&mut self) -> (r: &mut Store) ensures *r == old(self).s, final(self).s == *final(r), final(self).i == old(self).i { &mut self.s }
    pub fn vx_storage(&self) -> (r: &Store) ensures *r == self.s { &self.s }
}
pub struct WaitForExecutionElapsed {}
pub struct ConsensusBusApp {}
impl ConsensusBusApp {
    #[verifier::external_body] pub fn committed_round(&self) -> (r: Round) ensures r <= 0x3fff_ffff { unimplemented!() }
    #[verifier::external_body] pub fn wait_for_execution(&self, b: BlockNumHash) -> (r: Result<(), WaitForExecutionElapsed>) ensures r is Ok ==> executed(b) { unimplemented!() }
}
pub struct EpochSeedMessage { pub e: Epoch, pub r: Round, pub p: EpochDigest }
impl EpochSeedMessage {
    pub fn new(e: Epoch, r: Round, p: EpochDigest) -> (s: Self) ensures s == (EpochSeedMessage { e, r, p }) { EpochSeedMessage { e, r, p } }
    #[verifier::external_body] pub fn verify(&self, s: &BlsSignature, k: &BlsPublicKey) -> (r: bool) ensures r == seed_ok(self.e, self.r, self.p, *s, *k) { unimplemented!() }
}
/// the certificates cited, in the order of their digests
pub open spec fn cited(ps: Seq<Certificate>, f: HF) -> bool {
    ps.len() == sorted_keys(f.parents).len() && forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() ==> accepted(ps[i]) && ps[i].wf() && ps[i].f().round < u32::MAX && ps[i].dig() == sorted_keys(f.parents)[i]
}
pub struct HeaderValidator { pub config: ConsensusConfig }
pub struct StateSynchronizer { pub header_validator: HeaderValidator }
pub type VxNotes = Vec<Result<Certificate, StoreError>>;
#[verifier::external_body] pub fn vx_next<T>(v: &mut Vec<T>) -> (r: Option<T>) ensures match r { Some(x) => old(v)@.len() > 0 && x == old(v)@[0] && final(v)@ == old(v)@.skip(1), None => old(v)@.len() == 0 && final(v)@ == old(v)@ } { unimplemented!() }
impl HeaderValidator {
//@fn file=crates/consensus/primary/src/state_sync/header_validator.rs path="impl HeaderValidator :: fn notify_read_parent_certificates" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /FuturesOrdered<_>/ => VxNotes
//@sub? /node_storage\(\)/ => vx_storage()
//@sub? /\b(\w+)\.next\(\)/ => vx_next(&mut \1)
//@sub? /for (\w+) in header\.parents\(\) / => for \1 in header.parents().iter() 
//@chain
//@vsub? /let mut vx_col0 = Vec::new\(\)/ => let mut vx_col0: VxNotes = Vec::new()
//@forvec 0
//@forvec 1
//@loop 0 iter=it
    invariant header.f().round == 1, parents@.len() == it.index(), it.seq().len() == sorted_keys(header.f().parents).len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == sorted_keys(header.f().parents)[i],
        forall|i: int| #![trigger parents@[i]] 0 <= i < parents@.len() ==> accepted(parents@[i]) && parents@[i].wf() && parents@[i].f().round < u32::MAX && parents@[i].dig() == sorted_keys(header.f().parents)[i],
//@loop 1 iter=it
    invariant vx_col0@.len() == it.index(), it.seq().len() == sorted_keys(header.f().parents).len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == sorted_keys(header.f().parents)[i],
        forall|i: int| #![trigger vx_col0@[i]] 0 <= i < vx_col0@.len() ==> (vx_col0@[i] matches Ok(c) ==> accepted(c) && c.wf() && c.f().round < u32::MAX && c.dig() == sorted_keys(header.f().parents)[i]),
//@loop 2
    invariant parents@.len() + cert_notifications@.len() == sorted_keys(header.f().parents).len(),
        forall|i: int| #![trigger parents@[i]] 0 <= i < parents@.len() ==> accepted(parents@[i]) && parents@[i].wf() && parents@[i].f().round < u32::MAX && parents@[i].dig() == sorted_keys(header.f().parents)[i],
        forall|i: int| #![trigger cert_notifications@[i]] 0 <= i < cert_notifications@.len() ==> (cert_notifications@[i] matches Ok(c) ==> accepted(c) && c.wf() && c.f().round < u32::MAX && c.dig() == sorted_keys(header.f().parents)[parents@.len() + i]),
    ensures cert_notifications@.len() == 0,
    decreases cert_notifications@.len(),
//@loophead 0
    proof { assert(*it.seq()[it.index()] == sorted_keys(header.f().parents)[it.index()]); }
//@loophead 1
    proof { assert(*it.seq()[it.index()] == sorted_keys(header.f().parents)[it.index()]); }
//@spec
    ensures r matches Ok(v) ==> cited(v@, header.f()),
//@end
}
impl StateSynchronizer {
//@fn file=crates/consensus/primary/src/state_sync/mod.rs path="impl StateSynchronizer :: fn notify_read_parent_certificates" ret=r async=drop
//@sub? /\.await\b/ => 
//@spec
    ensures r matches Ok(v) ==> cited(v@, header.f()),
//@end
    /// a boundary: the batches of the header are here, from the workers it names
    #[verifier::external_body] pub fn sync_header_batches(&self, header: &Header, certified: bool, max_age: Round) -> (r: HeaderResult<()>) ensures r is Ok ==> have_batches(header.f()) { unimplemented!() }
    #[verifier::external_body] pub fn identify_unkown_parents(&self, header: &Header) -> (r: HeaderResult<Vec<HeaderDigest>>) { unimplemented!() }
    /// C02: verified as a peer's certificate. It must not claim to be verified already.
    #[verifier::external_body] pub fn process_peer_certificate(&self, c: &mut Certificate) -> (r: Result<(), CertManagerError>) requires old(c).unsure() { unimplemented!() }
}
/// members among the authors of the first `n`
pub open spec fn power(ps: Seq<Certificate>, c: Committee, n: nat) -> nat decreases n { if n == 0 { 0 } else { power(ps, c, (n - 1) as nat) + if members(c).contains_key(ps[n - 1].f().author) { 1nat } else { 0nat } } }
pub open spec fn parent_ok(p: Certificate, f: HF) -> bool { p.f().epoch == f.epoch && p.f().round + 1 == f.round && p.f().created_at <= f.created_at }
pub open spec fn distinct(ps: Seq<Certificate>, n: nat) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] ps[i]).f().author != (#[trigger] ps[j]).f().author }
pub open spec fn by_one(ps: Seq<Certificate>, n: nat, a: AuthorityIdentifier) -> bool { exists|i: int| 0 <= i < n && (#[trigger] ps[i]).f().author == a }
pub open spec fn parents_ok(ps: Seq<Certificate>, f: HF, c: Committee) -> bool {
    &&& cited(ps, f)
    &&& forall|i: int| 0 <= i < ps.len() ==> parent_ok(#[trigger] ps[i], f)
    &&& distinct(ps, ps.len())
    &&& power(ps, c, ps.len()) >= quorum(csize(c))
}
/// a header a node may vote for
pub open spec fn votable(f: HF, c: Cfg) -> bool {
    &&& valid(f, com(c)) && f.round != 0 && members(com(c)).contains_key(f.author)
    &&& seed_on(f.epoch) ==> seed_ok(cepoch(com(c)), f.round, prior(c), f.seed, members(com(c))[f.author])
    &&& executed(f.exe) && have_batches(f)
    &&& exists|ps: Seq<Certificate>| parents_ok(ps, f, com(c))
    &&& exists|t: u64| was_now(t) && f.created_at <= t + drift(c)
}
/// what a call does to the store: at most the author's record moves on, to this header's
pub open spec fn store_step(a: Store, b: Store, f: HF, c: Cfg) -> bool {
    &&& settled(a, b)
    &&& mem(b) == mem(a) || (mem(b) == mem(a).insert(f.author, info(f)) && ole(at(mem(a), f.author), Some(info(f))) && (votable(f, c) || at(mem(a), f.author) == Some(info(f))))
}
/// a vote now signed: no later or other one is on record, and the record is on disk
pub open spec fn fresh(v: Vote, a: Store, b: Store, f: HF, c: Cfg) -> bool {
    &&& me(c) is Some && vote_for(v, f, me(c)->0, keyc(c))
    &&& ole(at(mem(a), f.author), Some(info(f)))
    &&& at(disk(b), f.author) == Some(info(f)) && at(mem(b), f.author) == Some(info(f))
}
pub type VxSlot = Option<(Epoch, Round, HeaderDigest, Option<PrimaryResponse>)>;
pub type Slots = Map<AuthorityIdentifier, VxSlot>;
/// the vote is kept for the author
pub open spec fn kept(s: Slots, a: AuthorityIdentifier, v: Vote) -> bool { s.contains_key(a) && (s[a] matches Some(x) && x.3 == Some(PrimaryResponse::Vote(v))) }
pub open spec fn vote_step(a: Store, b: Store, s: Slots, t: Slots, f: HF, c: Cfg, r: PrimaryNetworkResult<PrimaryResponse>) -> bool {
    &&& store_step(a, b, f, c) && store_wf(mem(b))
    &&& r matches Ok(PrimaryResponse::Vote(v)) ==> kept(s, f.author, v) || fresh(v, a, b, f, c)
    &&& forall|k: AuthorityIdentifier, v: Vote| #[trigger] kept(t, k, v) ==> kept(s, k, v) || (k == f.author && r == Ok::<PrimaryResponse, PrimaryNetworkError>(PrimaryResponse::Vote(v)))
}
proof fn lemma_wf(a: Store, b: Store, f: HF, c: Cfg) requires store_wf(mem(a)), store_step(a, b, f, c), ensures store_wf(mem(b)) {
    if mem(b) != mem(a) { assert forall|k: AuthorityIdentifier| #[trigger] mem(b).contains_key(k) implies exists|g: HF| g.author == k && mem(b)[k] == #[trigger] info(g) by { if k == f.author { assert(mem(b)[k] == info(f)); } else { assert(mem(a).contains_key(k)); } } }
}
/// the record of this digest is the record of this header
proof fn lemma_same(m: Map<AuthorityIdentifier, VoteInfo>, f: HF) requires store_wf(m), m.contains_key(f.author), m[f.author].vote_digest == VoteDigest(hd(f).0), ensures m[f.author] == info(f) {
    let g = choose|g: HF| g.author == f.author && m[f.author] == #[trigger] info(g); assert(hd(g).0 == hd(f).0); assert(hd(g) == hd(f));
}
proof fn lemma_ins(m: Map<AuthorityIdentifier, VoteInfo>, f: HF) requires store_wf(m), ensures store_wf(m.insert(f.author, info(f))) {
    let n = m.insert(f.author, info(f));
    assert forall|k: AuthorityIdentifier| #[trigger] n.contains_key(k) implies exists|g: HF| g.author == k && n[k] == #[trigger] info(g) by { if k == f.author { assert(n[k] == info(f)); } else { assert(m.contains_key(k)); } }
}
proof fn lemma_votable(ps: Seq<Certificate>, t: u64, f: HF, c: Cfg)
    requires valid(f, com(c)), f.round != 0, members(com(c)).contains_key(f.author), seed_on(f.epoch) ==> seed_ok(cepoch(com(c)), f.round, prior(c), f.seed, members(com(c))[f.author]), executed(f.exe), have_batches(f), parents_ok(ps, f, com(c)), was_now(t), f.created_at <= t + drift(c),
    ensures votable(f, c) { }
#[verifier::external_body] pub fn vx_timeout<T>(r: T) -> (x: Result<T, Elapsed>) ensures x matches Ok(v) ==> v == r { unimplemented!() }
/// requested parents, by round and digest
pub struct Requested { pub m: BTreeMap<(Round, HeaderDigest), AuthorityIdentifier> }
impl Requested { pub fn lock(&self) -> (r: &BTreeMap<(Round, HeaderDigest), AuthorityIdentifier>) ensures *r == self.m { &self.m } }
pub struct RequestHandler { pub consensus_config: ConsensusConfig, pub consensus_bus: ConsensusBusApp, pub state_sync: StateSynchronizer, pub requested_parents: Requested }
impl RequestHandler {
    pub open spec fn st(self) -> Store { self.consensus_config.s }
    pub open spec fn cf(self) -> Cfg { self.consensus_config.i }
    pub open spec fn wf(self) -> bool { com(self.cf()).wf() && store_wf(mem(self.st())) }
    /// a boundary
    #[verifier::external_body] pub fn check_for_missing_parents(&mut self, header: &Header) -> (r: HeaderResult<Vec<HeaderDigest>>) ensures final(self).consensus_config == old(self).consensus_config { unimplemented!() }
//@fn file=crates/consensus/primary/src/network/handler.rs path="impl RequestHandler :: fn try_accept_unknown_certs" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /for (\w+) in (\w+)\.iter_mut\(\) / => for mut \1 in vx_into_iter(\2) 
//@sub? /process_peer_certificate\((\w+)\)/ => process_peer_certificate(&mut \1)
//@desugar vec.retain
//@vsub? /let mut vx_keep = Vec::new\(\)/ => let mut vx_keep: Vec<Certificate> = Vec::new()
//@forvec 0
//@forvec 1
//@loop 0 iter=it
    invariant requested_parents@ == self.requested_parents.m@, forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).unsure(),
        forall|i: int| #![trigger vx_keep@[i]] 0 <= i < vx_keep@.len() ==> vx_keep@[i].unsure() && asked(*self, header.f(), vx_keep@[i]),
//@loop 1 iter=it
    invariant forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> it.seq()[i].unsure() && asked(*self, header.f(), it.seq()[i]),
//@loophead 1
    proof { assert(asked(*self, header.f(), it.seq()[it.index()])); }
//@spec
    requires forall|i: int| 0 <= i < parents@.len() ==> (#[trigger] parents@[i]).unsure(),
//@end
//@fn file=crates/consensus/primary/src/network/handler.rs path="impl RequestHandler :: fn vote_inner" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /&self\b/ => &mut self
//@sub? /persist::<Votes>\(\)/ => persist_votes()
//@sub? /\.inspect_err\(\|e\| \{[^{}]*\}\)/ => 
//@desugar opt.ok_or
//@desugar opt.ok_or_else
//@desugar opt.map_or
//@vsub? /\(match (header\.seed_signature\(\).*?None => \{[^{}]*\} \})\)\?;/ => let vx_m: PrimaryNetworkResult<()> = match \1; vx_m?;
//@desugar res.map_err
//@chain
//@vsub? /\bparents\s*\.into_iter\(\)/ => vx_into_iter(parents)
//@forvec 0
//@loop 0 iter=it
    invariant old(self).wf(), self.consensus_config == old(self).consensus_config, vx_col0@.len() == it.index(), forall|i: int| 0 <= i < vx_col0@.len() ==> (#[trigger] vx_col0@[i]).unsure(),
//@vsub? /let mut vx_col0 = Vec::new\(\)/ => let mut vx_col0: Vec<Certificate> = Vec::new()
//@vsub? /let mut stake = 0;/ => let mut stake: VotingPower = 0;
//@forvec 1
//@loop 1 iter=it
    invariant old(self).wf(), self.consensus_config == old(self).consensus_config, it.seq().len() == parents@.len(), forall|i: int| #![trigger it.seq()[i]] #![trigger parents@[i]] 0 <= i < parents@.len() ==> *it.seq()[i] == parents@[i],
        cited(parents@, header.f()), *committee == com(self.cf()), header.f().round != 0,
        forall|i: int| 0 <= i < it.index() ==> parent_ok(#[trigger] parents@[i], header.f()),
        distinct(parents@, it.index() as nat),
        forall|i: int| 0 <= i < it.index() ==> parent_authorities@.contains(&(#[trigger] parents@[i]).f().author),
        forall|a: &AuthorityIdentifier| #[trigger] parent_authorities@.contains(a) ==> by_one(parents@, it.index() as nat, *a),
        stake == power(parents@, *committee, it.index() as nat), stake <= it.index(),
//@loophead 1
    proof { assert(*it.seq()[it.index()] == parents@[it.index()]); }
//@before? /self\.state_sync\.sync_header_batches/
    proof { assert(parents_ok(parents@, header.f(), com(self.cf()))); }
//@after? /let now = now\(\);/
    proof { if header.f().created_at <= now + drift(self.cf()) { lemma_votable(parents@, now, header.f(), self.cf()); } }
//@before? /self\.consensus_config\.node_storage\(\)\.write_vote/
    proof { assert(votable(header.f(), self.cf())); assert(info(header.f()) == vinfo(vote)); lemma_ins(mem(self.st()), header.f()); assert(ole(at(mem(self.st()), header.f().author), Some(info(header.f())))); }
//@spec
    requires old(self).wf(), header.wf(), forall|i: int| 0 <= i < parents@.len() ==> (#[trigger] parents@[i]).wf(),
    ensures final(self).cf() == old(self).cf(), final(self).wf(), store_step(old(self).st(), final(self).st(), header.f(), old(self).cf()),
        r matches Ok(PrimaryResponse::Vote(v)) ==> fresh(v, old(self).st(), final(self).st(), header.f(), old(self).cf()),
//@end
//@fn file=crates/consensus/primary/src/network/handler.rs path="impl RequestHandler :: fn vote" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /&self,/ => &mut self, slots: &mut BTreeMap<AuthorityIdentifier, VxSlot>,
//@sub? /self\.auth_last_vote\.get\(/ => slots.get_mut(
//@sub? /let mut (\w+) = auth_lock\.lock\(\);/ => let \1 = auth_lock;
//@sub? /tokio::time::timeout\(\s*self\s*\.consensus_config\s*\.config\(\)\s*\.parameters\s*\.max_header_delay,\s*self\.vote_inner\((\w+), (\w+)\),\s*\)/ => vx_timeout(self.vote_inner(\1, \2))
//@sub? /persist::<Votes>\(\)/ => persist_votes()
//@sub? /\.inspect_err\(\|e\| \{[^{}]*\}\)/ => 
//@sub? /\bmissing\.contains\(/ => vx_contains(&missing, 
//@vsub? /for parent in parents\.iter\(\)\.map\(\|p\| p\.digest\(\)\) \{/ => for vx_p in parents.iter() { let parent = vx_p.digest();
//@desugar opt.ok_or
//@attr #[verifier::loop_isolation(false)]
//@hoist
//@forvec 0
//@loop 0 iter=it
    invariant true,
//@spec
    requires old(self).wf(), header.wf(), forall|i: int| 0 <= i < parents@.len() ==> (#[trigger] parents@[i]).wf(),
    ensures final(self).cf() == old(self).cf(), final(self).wf(),
        r matches Ok(PrimaryResponse::Vote(v)) ==> header.f().author == aid(peer) && members(com(old(self).cf())).contains_key(header.f().author),
        vote_step(old(self).st(), final(self).st(), old(slots)@, final(slots)@, header.f(), old(self).cf(), r),
//@end
}
/// the certificate was asked of this author, for a header of his
pub open spec fn asked(h: RequestHandler, f: HF, c: Certificate) -> bool { h.requested_parents.m@.contains_key((c.f().round, c.dig())) && h.requested_parents.m@[(c.f().round, c.dig())] == f.author }
// ---------------------------------------------------------------- the node's votes over any history of requests, crashes and restarts
pub ghost struct Node { pub s: Store, pub slots: Slots, pub issued: Set<(AuthorityIdentifier, VoteInfo)>, pub cfgs: Set<Cfg> }
/// a request: the configuration of the moment, the header, the answer
pub open spec fn asks(a: Node, b: Node, f: HF, c: Cfg, r: PrimaryNetworkResult<PrimaryResponse>) -> bool {
    &&& vote_step(a.s, b.s, a.slots, b.slots, f, c, r) && b.cfgs == a.cfgs.insert(c)
    &&& b.issued == (match r { Ok(PrimaryResponse::Vote(v)) => a.issued.insert((v.origin, vinfo(v))), _ => a.issued })
}
/// a crash and a restart: what is on disk, and nothing else
pub open spec fn crashes(a: Node, b: Node) -> bool { mem(b.s) == disk(a.s) && disk(b.s) == disk(a.s) && (forall|k: AuthorityIdentifier, v: Vote| !#[trigger] kept(b.slots, k, v)) && b.issued == a.issued && b.cfgs == a.cfgs }
/// the writer thread of the store catches up, or the epoch turns and the cached answers go
pub open spec fn settles(a: Node, b: Node) -> bool { settled(a.s, b.s) && mem(b.s) == mem(a.s) && (forall|k: AuthorityIdentifier, v: Vote| #[trigger] kept(b.slots, k, v) ==> kept(a.slots, k, v)) && b.issued == a.issued && b.cfgs == a.cfgs }
pub open spec fn asked_some(a: Node, b: Node) -> bool { exists|f: HF, c: Cfg, r: PrimaryNetworkResult<PrimaryResponse>| asks(a, b, f, c, r) }
pub open spec fn nstep(a: Node, b: Node) -> bool { asked_some(a, b) || crashes(a, b) || settles(a, b) }
/// a record of a header that could be voted for, under a configuration the node had
pub open spec fn earned(n: Node, k: AuthorityIdentifier, i: VoteInfo) -> bool { exists|f: HF, c: Cfg| f.author == k && info(f) == i && n.cfgs.contains(c) && #[trigger] votable(f, c) }
pub open spec fn recs(n: Node, m: Map<AuthorityIdentifier, VoteInfo>) -> bool { forall|k: AuthorityIdentifier| #[trigger] m.contains_key(k) ==> earned(n, k, m[k]) }
pub open spec fn inv(n: Node) -> bool {
    &&& store_wf(mem(n.s)) && store_wf(disk(n.s)) && recs(n, mem(n.s)) && recs(n, disk(n.s))
    &&& forall|k: AuthorityIdentifier| ole(#[trigger] at(disk(n.s), k), at(mem(n.s), k))
    &&& forall|x: (AuthorityIdentifier, VoteInfo)| #[trigger] n.issued.contains(x) ==> ole(Some(x.1), at(disk(n.s), x.0)) && earned(n, x.0, x.1)
    &&& forall|x: (AuthorityIdentifier, VoteInfo), y: (AuthorityIdentifier, VoteInfo)| #[trigger] n.issued.contains(x) && #[trigger] n.issued.contains(y) && x.0 == y.0 ==> le(x.1, y.1) || le(y.1, x.1)
    &&& forall|k: AuthorityIdentifier, v: Vote| #[trigger] kept(n.slots, k, v) ==> n.issued.contains((v.origin, vinfo(v)))
}
pub open spec fn start(n: Node) -> bool { mem(n.s).dom() =~= Set::<AuthorityIdentifier>::empty() && disk(n.s).dom() =~= Set::<AuthorityIdentifier>::empty() && n.issued =~= Set::<(AuthorityIdentifier, VoteInfo)>::empty() && forall|k: AuthorityIdentifier, v: Vote| !#[trigger] kept(n.slots, k, v) }
proof fn lemma_earned(a: Node, b: Node, k: AuthorityIdentifier, i: VoteInfo) requires earned(a, k, i), forall|c: Cfg| a.cfgs.contains(c) ==> #[trigger] b.cfgs.contains(c), ensures earned(b, k, i) {
    let (f, c) = choose|f: HF, c: Cfg| f.author == k && info(f) == i && a.cfgs.contains(c) && #[trigger] votable(f, c); assert(b.cfgs.contains(c)); assert(votable(f, c));
}
proof fn lemma_disk(a: Node, b: Node) requires inv(a), settled(a.s, b.s), store_wf(mem(b.s)), recs(b, mem(b.s)), forall|k: AuthorityIdentifier| ole(#[trigger] at(mem(a.s), k), at(mem(b.s), k)), forall|c: Cfg| a.cfgs.contains(c) ==> #[trigger] b.cfgs.contains(c),
    ensures store_wf(disk(b.s)), recs(b, disk(b.s)), forall|k: AuthorityIdentifier| ole(#[trigger] at(disk(b.s), k), at(mem(b.s), k)), forall|x: (AuthorityIdentifier, VoteInfo)| #[trigger] a.issued.contains(x) ==> ole(Some(x.1), at(disk(b.s), x.0)) && earned(b, x.0, x.1),
{
    assert forall|k: AuthorityIdentifier| ole(#[trigger] at(disk(b.s), k), at(mem(b.s), k)) by { assert(ole(at(disk(a.s), k), at(mem(a.s), k))); assert(ole(at(mem(a.s), k), at(mem(b.s), k))); }
    assert forall|k: AuthorityIdentifier| #[trigger] disk(b.s).contains_key(k) implies earned(b, k, disk(b.s)[k]) by {
        assert(at(disk(b.s), k) == Some(disk(b.s)[k]));
        if at(disk(b.s), k) == at(disk(a.s), k) { assert(disk(a.s).contains_key(k)); lemma_earned(a, b, k, disk(a.s)[k]); } else if at(disk(b.s), k) == at(mem(a.s), k) { assert(mem(a.s).contains_key(k)); lemma_earned(a, b, k, mem(a.s)[k]); } else { assert(mem(b.s).contains_key(k)); }
    }
    assert forall|k: AuthorityIdentifier| #[trigger] disk(b.s).contains_key(k) implies exists|g: HF| g.author == k && disk(b.s)[k] == #[trigger] info(g) by {
        let (f, c) = choose|f: HF, c: Cfg| f.author == k && info(f) == disk(b.s)[k] && b.cfgs.contains(c) && #[trigger] votable(f, c); assert(disk(b.s)[k] == info(f));
    }
    assert forall|x: (AuthorityIdentifier, VoteInfo)| #[trigger] a.issued.contains(x) implies ole(Some(x.1), at(disk(b.s), x.0)) && earned(b, x.0, x.1) by { lemma_earned(a, b, x.0, x.1); assert(ole(at(disk(a.s), x.0), at(mem(a.s), x.0))); assert(ole(at(mem(a.s), x.0), at(mem(b.s), x.0))); assert(at(disk(b.s), x.0) == at(disk(a.s), x.0) || at(disk(b.s), x.0) == at(mem(a.s), x.0) || at(disk(b.s), x.0) == at(mem(b.s), x.0)); }
}
proof fn lemma_asks(a: Node, b: Node, f: HF, c: Cfg, r: PrimaryNetworkResult<PrimaryResponse>) requires inv(a), asks(a, b, f, c, r), ensures inv(b) {
    assert forall|k: AuthorityIdentifier| ole(#[trigger] at(mem(a.s), k), at(mem(b.s), k)) by { }
    assert forall|k: AuthorityIdentifier| #[trigger] mem(b.s).contains_key(k) implies earned(b, k, mem(b.s)[k]) by {
        if mem(a.s).contains_key(k) && mem(b.s)[k] == mem(a.s)[k] { lemma_earned(a, b, k, mem(a.s)[k]); } else { assert(k == f.author); assert(votable(f, c)); assert(b.cfgs.contains(c)); }
    }
    lemma_disk(a, b);
    match r {
        Ok(PrimaryResponse::Vote(v)) => {
            if kept(a.slots, f.author, v) { assert(b.issued =~= a.issued); } else {
                assert(fresh(v, a.s, b.s, f, c)); assert(vinfo(v) == info(f) && v.origin == f.author);
                assert(disk(b.s).contains_key(f.author)); assert(earned(b, f.author, info(f)));
                assert forall|x: (AuthorityIdentifier, VoteInfo)| #[trigger] a.issued.contains(x) && x.0 == f.author implies le(x.1, info(f)) by { assert(ole(at(disk(a.s), x.0), at(mem(a.s), x.0))); assert(ole(at(mem(a.s), x.0), Some(info(f)))); }
            }
        }
        _ => { }
    }
}
proof fn lemma_nstep(a: Node, b: Node) requires inv(a), nstep(a, b), ensures inv(b) {
    if asked_some(a, b) { let (f, c, r) = choose|f: HF, c: Cfg, r: PrimaryNetworkResult<PrimaryResponse>| asks(a, b, f, c, r); lemma_asks(a, b, f, c, r); }
    else if crashes(a, b) {
        assert forall|k: AuthorityIdentifier| #[trigger] disk(a.s).contains_key(k) implies earned(b, k, disk(a.s)[k]) by { lemma_earned(a, b, k, disk(a.s)[k]); }
        assert forall|x: (AuthorityIdentifier, VoteInfo)| #[trigger] b.issued.contains(x) implies earned(b, x.0, x.1) by { lemma_earned(a, b, x.0, x.1); }
        assert forall|k: AuthorityIdentifier| ole(#[trigger] at(disk(b.s), k), at(mem(b.s), k)) by { }
    } else {
        assert forall|k: AuthorityIdentifier| ole(#[trigger] at(mem(a.s), k), at(mem(b.s), k)) by { }
        assert forall|k: AuthorityIdentifier| #[trigger] mem(b.s).contains_key(k) implies earned(b, k, mem(b.s)[k]) by { lemma_earned(a, b, k, mem(a.s)[k]); }
        lemma_disk(a, b);
    }
}
/// Over every history: two votes this node let out for one author, epoch and round are for one header, every
/// vote was for a header that could be voted for, and the record of it is on disk
proof fn theorem_votes(t: Seq<Node>)
    requires t.len() > 0, start(t[0]), forall|i: int| 0 <= i < t.len() - 1 ==> nstep(#[trigger] t[i], t[i + 1]),
    ensures inv(t.last()), forall|x: (AuthorityIdentifier, VoteInfo), y: (AuthorityIdentifier, VoteInfo)| #[trigger] t.last().issued.contains(x) && #[trigger] t.last().issued.contains(y) && x.0 == y.0 && x.1.epoch == y.1.epoch && x.1.round == y.1.round ==> x.1.vote_digest == y.1.vote_digest,
    decreases t.len(),
{
    if t.len() > 1 { let u = t.drop_last(); assert forall|i: int| 0 <= i < u.len() - 1 implies nstep(#[trigger] u[i], u[i + 1]) by { assert(nstep(t[i], t[i + 1])); } theorem_votes(u); assert(nstep(t[t.len() - 2], t[t.len() - 2 + 1])); lemma_nstep(t[t.len() - 2], t.last()); }
}
} // verus!
fn main() {}
