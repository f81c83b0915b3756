// C08: the headers a node proposes
#![allow(unused_imports, irrefutable_let_patterns)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use std::sync::Arc;
use core::cmp::Ordering;
verus! {
//@include lib/verus/result.rs
//@include lib/verus/question.rs
//@include lib/verus/viter.rs
//@include lib/verus/btree.rs
//@known IndexMap BlockNumHash Committee Authority Arc ProposerError Duration VecDeque Ordering Store ConsensusBus SignatureVerificationState
broadcast use {vx_btree::group_btree, vx_b::group_b, vx_q::ax_question};
pub type Round = u32; pub type Epoch = u32; pub type VotingPower = u64; pub type TimestampSec = u64; pub type WorkerId = u16;
macro_rules! vx_id { ($n:ident, $t:ty) => { verus! {
    #[derive(Clone, Copy)] pub struct $n(pub $t);
    impl vstd::std_specs::cmp::PartialEqSpecImpl for $n { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
    impl $n { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
} } }
vx_id!(HeaderDigest, u64); vx_id!(AuthorityIdentifier, u64); vx_id!(BlsPublicKey, u64); vx_id!(BlsSignature, u64); vx_id!(BlockHash, u64); vx_id!(BlockNumHash, u64); vx_id!(EpochDigest, u64);

#[derive(Clone, Copy)] pub struct KeyConfig { pub x: u64 }
/// the map built from pairs in order: a later pair of a known key replaces its value in place
pub open spec fn im_put(m: Seq<(BlockHash, WorkerId)>, k: BlockHash, v: WorkerId) -> Seq<(BlockHash, WorkerId)> { if exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k { m.map_values(|x: (BlockHash, WorkerId)| if x.0 == k { (k, v) } else { x }) } else { m.push((k, v)) } }
pub open spec fn im_of(s: Seq<(BlockHash, WorkerId)>) -> Seq<(BlockHash, WorkerId)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { im_put(im_of(s.drop_last()), s.last().0, s.last().1) } }
pub struct IndexMap<K, V> { pub e: Vec<(K, V)> }
impl<K, V> View for IndexMap<K, V> { type V = Seq<(K, V)>; open spec fn view(&self) -> Seq<(K, V)> { self.e@ } }
#[verifier::external_body] pub fn vx_im(v: Vec<(BlockHash, WorkerId)>) -> (r: IndexMap<BlockHash, WorkerId>) ensures r@ == im_of(v@) { unimplemented!() }
#[verifier::external_body] pub fn vx_bset(v: Vec<HeaderDigest>) -> (r: BTreeSet<HeaderDigest>) ensures r@ == v@.to_set() { unimplemented!() }
impl<K, V> IndexMap<K, V> { #[verifier::external_body] pub fn vx_pairs(&self) -> (r: Vec<(&K, &V)>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *r@[i].0 == self@[i].0 && *r@[i].1 == self@[i].1 { unimplemented!() } }
// ---------------------------------------------------------------- headers (C02, C04)
//@item file=crates/types/src/primary/header.rs path="struct HeaderInner"
//@end
//@item file=crates/types/src/primary/header.rs path="struct Header"
//@end
/// what a header says
pub ghost struct HF { pub author: AuthorityIdentifier, pub round: Round, pub epoch: Epoch, pub created_at: u64, pub payload: Seq<(BlockHash, WorkerId)>, pub parents: Set<HeaderDigest>, pub exe: BlockNumHash, pub seed: BlsSignature }
pub open spec fn said(i: HeaderInner) -> HF { HF { author: i.author, round: i.round, epoch: i.epoch, created_at: i.created_at, payload: i.payload@, parents: i.parents@, exe: i.latest_execution_block, seed: i.seed_signature } }
impl HeaderInner { pub open spec fn wf(self) -> bool { self.digest == vx_b::hd(said(self)) } }
impl Header {
    /// the cached digest is that of the fields
    pub open spec fn wf(self) -> bool { self.inner.wf() }
    pub open spec fn f(self) -> HF { said(*self.inner) }
    pub open spec fn dig(self) -> HeaderDigest { vx_b::hd(self.f()) }
}
pub mod vx_b {
use vstd::prelude::*;
use super::*;
/// the header digest (C04)
pub uninterp spec fn hd(f: HF) -> HeaderDigest;
pub uninterp spec fn seed_on(e: Epoch) -> bool;
/// the signature over the seed message of the epoch and round
pub uninterp spec fn seed_of(k: KeyConfig, e: Epoch, r: Round, prior: EpochDigest) -> BlsSignature;
pub uninterp spec fn no_sig() -> BlsSignature;
pub uninterp spec fn leader_of(s: LeaderSchedule, r: Round) -> AuthorityIdentifier;
pub broadcast axiom fn ax_asc(s: Set<Round>) ensures #![trigger sorted_keys(s)] forall|i: int, j: int| 0 <= i < j < sorted_keys(s).len() ==> (#[trigger] sorted_keys(s)[i]) < (#[trigger] sorted_keys(s)[j]);
pub broadcast group group_b { ax_asc }
}
pub use vx_b::*;
impl Clone for Header { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl HeaderInner { #[verifier::external_body] pub fn vx_digest(i: &HeaderInner) -> (r: HeaderDigest) ensures r == hd(said(*i)) { unimplemented!() } }
impl HeaderDigest { #[verifier::external_body] pub fn default() -> Self { unimplemented!() } }
#[verifier::external_body] pub fn now() -> (r: u64) { unimplemented!() }
#[verifier::external_body] pub fn vx_arc(i: HeaderInner) -> (r: Arc<HeaderInner>) ensures *r == i { unimplemented!() }
impl Header {
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn new" ret=r
//@sub? /Hash::digest\(&inner\)/ => HeaderInner::vx_digest(&inner)
//@sub? /Arc::new\(inner\)/ => vx_arc(inner)
//@spec
    ensures r.wf(), r.f().author == author, r.f().round == round, r.f().epoch == epoch, r.f().payload == payload@, r.f().parents == parents@, r.f().exe == latest_execution_block, r.f().seed == seed_signature,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn digest" ret=r
//@spec
    ensures r == self.inner.digest,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn author" ret=r
//@spec
    ensures *r == self.f().author,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn round" ret=r
//@spec
    ensures r == self.f().round,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn epoch" ret=r
//@spec
    ensures r == self.f().epoch,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn created_at" ret=r
//@spec
    ensures *r == self.f().created_at,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn parents" ret=r
//@spec
    ensures r@ == self.f().parents,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn latest_execution_block" ret=r
//@spec
    ensures r == self.f().exe,
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn payload" ret=r
//@spec
    ensures r@ == self.f().payload,
//@end
}
#[verifier::external_body] pub fn seed_signature_active(e: Epoch) -> (r: bool) ensures r == seed_on(e) { unimplemented!() }
pub struct EpochSeedMessage { pub e: Epoch, pub r: Round, pub p: EpochDigest }
impl EpochSeedMessage {
    pub fn new(e: Epoch, r: Round, p: EpochDigest) -> (s: Self) ensures s == (EpochSeedMessage { e, r, p }) { EpochSeedMessage { e, r, p } }
    #[verifier::external_body] pub fn sign(&self, k: &KeyConfig) -> (r: BlsSignature) ensures r == seed_of(*k, self.e, self.r, self.p) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_nosig() -> (r: BlsSignature) ensures r == no_sig() { unimplemented!() }
//@item file=crates/types/src/primary/certificate.rs path="enum SignatureVerificationState" attr="#[derive(Clone, Copy)]"
//@end
pub struct RoaringBitmap { pub x: u64 }
pub mod roaring { pub use super::RoaringBitmap; }
//@item file=crates/types/src/primary/certificate.rs path="struct Certificate"
//@end
impl Clone for Certificate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Certificate {
    pub open spec fn f(self) -> HF { self.header.f() }
    pub open spec fn dig(self) -> HeaderDigest { self.header.inner.digest }
    pub open spec fn wf(self) -> bool { self.header.wf() }
    pub open spec fn unsure(self) -> bool { self.signature_verification_state is Unverified }
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn header" ret=r
//@spec
    ensures *r == self.header,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn round" ret=r
//@spec
    ensures r == self.f().round,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn epoch" ret=r
//@spec
    ensures r == self.f().epoch,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn origin" ret=r
//@spec
    ensures *r == self.f().author,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Hash for Certificate :: fn digest" ret=r rename=digest
//@sub? /Self::TypedDigest/ => HeaderDigest
//@spec
    ensures r == self.dig(),
//@end
}
// ---------------------------------------------------------------- the committee (C01), the schedule (C03)
pub struct Authority { pub aid: AuthorityIdentifier }
impl Authority { pub fn id(&self) -> (r: AuthorityIdentifier) ensures r == self.aid { self.aid } }
pub struct LeaderSchedule { pub x: u64 }
impl LeaderSchedule { #[verifier::external_body] pub fn leader(&self, r: Round) -> (a: Authority) ensures a.aid == leader_of(*self, r) { unimplemented!() } }
pub mod vx_com {
use vstd::prelude::*;
use super::*;
pub struct Committee { pub x: u64 }
pub uninterp spec fn members(c: Committee) -> Set<AuthorityIdentifier>;
pub uninterp spec fn cepoch(c: Committee) -> Epoch;
}
pub use vx_com::*;
impl Committee {
    #[verifier::external_body] pub fn epoch(&self) -> (r: Epoch) ensures r == cepoch(*self) { unimplemented!() }
    #[verifier::external_body] pub fn voting_power_by_id(&self, id: &AuthorityIdentifier) -> (r: VotingPower) ensures r == (if members(*self).contains(*id) { 1u64 } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn quorum_threshold(&self) -> (r: VotingPower) ensures r == 2 * members(*self).len() / 3 + 1 { unimplemented!() }
    #[verifier::external_body] pub fn validity_threshold(&self) -> (r: VotingPower) ensures r == (members(*self).len() + 2) / 3 { unimplemented!() }
}
// ---------------------------------------------------------------- errors, clocks, channels
//@verus-only
#[verifier::external_body] pub struct StoreError { x: u64 }
impl StoreError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
pub struct SendError {}
pub enum ProposerError { WatchChannelClosed, OneshotChannelClosed, CertifierSender(SendError), StoreError(String), DurableBarrierFailed(String) }
pub type ProposerResult<T> = Result<T, ProposerError>;
//@end-only
#[derive(Clone, Copy)] pub struct Duration { pub x: u64 }
impl Duration { pub const ZERO: Duration = Duration { x: 0 }; pub fn from_secs(s: u64) -> Self { Duration { x: s } } #[verifier::external_body] pub fn is_zero(&self) -> bool { unimplemented!() } }
#[verifier::external_body] pub fn sleep(d: Duration) { unimplemented!() }
pub struct Interval { pub x: u64 }
impl Interval { #[verifier::external_body] pub fn reset_after(&self, d: Duration) { unimplemented!() } #[verifier::external_body] pub fn reset_immediately(&self) { unimplemented!() } #[verifier::external_body] pub fn tick(&self) { unimplemented!() } }
pub struct TaskError {}
pub struct Noticer {} pub struct TaskSpawner {}
/// a task, run where it is spawned
pub fn vx_spawned(r: Result<(), TaskError>) { }
#[verifier::external_body] pub fn vx_pick(n: usize) -> (r: usize) { unimplemented!() }
pub mod vx_one {
use vstd::prelude::*;
/// what the one sender of a channel sends, if it does
pub uninterp spec fn sent_on<T>(ch: int) -> T;
pub struct Tx<T> { pub id: Ghost<int>, pub p: core::marker::PhantomData<T> }
pub struct Rx<T> { pub id: Ghost<int>, pub p: core::marker::PhantomData<T> }
#[verifier::external_body] pub fn channel<T>() -> (r: (Tx<T>, Rx<T>)) ensures r.0.id@ == r.1.id@ { unimplemented!() }
impl<T> Tx<T> { #[verifier::external_body] pub fn send(self, t: T) -> (r: Result<(), T>) ensures t == sent_on::<T>(self.id@) { unimplemented!() } }
}
pub use vx_one::*;
pub mod oneshot { pub use super::vx_one::Tx as Sender; pub use super::vx_one::channel; }
pub type PendingHeaderTask = Rx<ProposerResult<Header>>;
pub open spec fn outcome(r: PendingHeaderTask) -> ProposerResult<Header> { sent_on::<ProposerResult<Header>>(r.id@) }
pub struct VxRx<T> { pub p: core::marker::PhantomData<T> }
pub trait VxBound { spec fn ok(self) -> bool; }
impl VxBound for OurDigestMessage { open spec fn ok(self) -> bool { true } }
impl VxBound for (Vec<Certificate>, Round) { open spec fn ok(self) -> bool { few(self.1) } }
impl VxBound for (Round, Vec<Round>) { open spec fn ok(self) -> bool { true } }
impl<T: VxBound> VxRx<T> { #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<T>) ensures r matches Some(x) ==> x.ok() { unimplemented!() } }
pub struct VecDeque<T> { pub v: Vec<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T> VecDeque<T> {
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { VecDeque { v: Vec::new() } }
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty() { VecDeque { v: Vec::new() } }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    #[verifier::external_body] pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>) ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn append(&mut self, o: &mut VecDeque<T>) ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_drain_front(&mut self, n: usize) -> (r: VecDeque<T>) requires n <= old(self)@.len() ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    pub fn iter(&self) -> (r: VIter<&T>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *(r@[i]) == self@[i] { vx_it(&self.v) }
}
#[verifier::external_body] pub fn vx_it<T>(v: &Vec<T>) -> (r: VIter<&T>) ensures r@.len() == v@.len(), v@.len() <= usize::MAX, forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> *(r@[i]) == v@[i] { unimplemented!() }
pub fn vx_vd<T>(v: Vec<T>) -> (r: VecDeque<T>) ensures r@ == v@ { VecDeque { v } }
#[verifier::external_body] pub fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_extend<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
pub fn vx_max(a: Round, b: Round) -> (r: Round) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_cmp(a: Round, b: Round) -> (r: Ordering) ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }) { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
#[verifier::external_body] pub fn vx_latest(v: &Vec<Certificate>) -> (r: u64) { unimplemented!() }
/// rounds stay below the limit of the integer
pub open spec fn few(r: Round) -> bool { r < 0xffff_0000 }
#[verifier::external_body] pub fn vx_few(r: Round) ensures r < 0xfffe_0000 { unimplemented!() }
// ---------------------------------------------------------------- the record of the last proposal, and what was sent
pub mod vx_world {
use vstd::prelude::*;
use super::*;
pub struct Store { pub x: u64 }
pub struct ConsensusBus { pub x: u64 }
/// what reads return
pub uninterp spec fn mem(s: Store) -> Option<HF>;
/// what a crash leaves
pub uninterp spec fn disk(s: Store) -> Option<HF>;
/// headers handed to the certifier
pub uninterp spec fn sent(b: ConsensusBus) -> Set<HF>;
/// the primary's round
pub uninterp spec fn pr(b: ConsensusBus) -> Round;
}
pub use vx_world::*;
/// only records of this store's own history reach the disk
pub open spec fn settled(a: Store, b: Store) -> bool { disk(b) == disk(a) || disk(b) == mem(a) || disk(b) == mem(b) }
pub const LAST_PROPOSAL_KEY: u32 = 0;
impl Store {
    #[verifier::external_body] pub fn insert_last(&mut self, k: &u32, h: &Header) -> (r: Result<(), StoreError>)
        ensures settled(*old(self), *final(self)), r is Ok ==> mem(*final(self)) == Some(h.f()), r is Err ==> mem(*final(self)) == mem(*old(self)) || mem(*final(self)) == Some(h.f()) { unimplemented!() }
    #[verifier::external_body] pub fn get_last(&self, k: &u32) -> (r: Result<Option<Header>, StoreError>) ensures r matches Ok(v) ==> match v { Some(h) => mem(*self) == Some(h.f()) && h.wf() && few(h.f().round), None => mem(*self) is None } { unimplemented!() }
    /// the barrier: everything staged is on disk, or an error
    #[verifier::external_body] pub fn persist_last(&mut self) -> (r: Result<(), StoreError>)
        ensures settled(*old(self), *final(self)), mem(*final(self)) == mem(*old(self)), r is Ok ==> disk(*final(self)) == mem(*final(self)) { unimplemented!() }
//@fn file=crates/storage/src/stores/proposer_store.rs path="impl ProposerStore for DB :: fn write_last_proposed" ret=r
//@sub? /&self\b/ => &mut self
//@sub? /insert::<LastProposed>/ => insert_last
//@sub? /StoreResult<\(\)>/ => Result<(), StoreError>
//@spec
    ensures settled(*old(self), *final(self)), r is Ok ==> mem(*final(self)) == Some(header.f()), r is Err ==> mem(*final(self)) == mem(*old(self)) || mem(*final(self)) == Some(header.f()),
//@end
//@fn file=crates/storage/src/stores/proposer_store.rs path="impl ProposerStore for DB :: fn get_last_proposed" ret=r
//@sub? /get::<LastProposed>/ => get_last
//@sub? /StoreResult<Option<Header>>/ => Result<Option<Header>, StoreError>
//@spec
    ensures r matches Ok(v) ==> match v { Some(h) => mem(*self) == Some(h.f()) && h.wf() && few(h.f().round), None => mem(*self) is None },
//@end
}
impl ConsensusBus {
    #[verifier::external_body] pub fn vx_send(&mut self, h: Header) -> (r: Result<(), SendError>) ensures pr(*final(self)) == pr(*old(self)), r is Ok ==> sent(*final(self)) == sent(*old(self)).insert(h.f()), r is Err ==> sent(*final(self)) == sent(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_set_round(&mut self, r: Round) ensures pr(*final(self)) == r, sent(*final(self)) == sent(*old(self)) { unimplemented!() }
    pub fn app(&self) -> (r: &Self) ensures r == self { self }
    #[verifier::external_body] pub fn primary_round(&self) -> (r: Round) ensures r == pr(*self), few(r) { unimplemented!() }
    #[verifier::external_body] pub fn latest_execution_block_num_hash(&self) -> (r: BlockNumHash) { unimplemented!() }
}
/// the record gives way to h
pub open spec fn over(m: Option<HF>, h: HF) -> bool { m matches Some(l) ==> l.epoch != h.epoch || h.round >= l.round }
/// what storing and sending h does, whether it succeeds, fails or is cut
pub open spec fn attempt(a: Store, b: Store, s: ConsensusBus, t: ConsensusBus, h: HF) -> bool {
    &&& settled(a, b) && pr(t) == pr(s)
    &&& mem(b) == mem(a) || (mem(b) == Some(h) && over(mem(a), h))
    &&& sent(t) == sent(s) || (sent(t) == sent(s).insert(h) && (over(mem(a), h) ==> disk(b) == Some(h) && mem(b) == Some(h)))
}
/// h may be proposed over this record: it is the recorded header, or past the record
pub open spec fn may(m: Option<HF>, h: HF) -> bool { m == Some(h) || (m matches Some(l) ==> l.epoch != h.epoch || l.round < h.round) }
/// digests of batches waiting to be proposed
//@item file=crates/consensus/primary/src/proposer.rs path="struct ProposerDigest"
//@end
//@item file=crates/consensus/primary/src/proposer.rs path="struct OurDigestMessage"
//@end
impl OurDigestMessage {
//@fn file=crates/consensus/primary/src/proposer.rs path="impl OurDigestMessage :: fn process" ret=r
//@spec
    ensures r.1 == (ProposerDigest { digest: self.digest, worker_id: self.worker_id }), r.0 == self.ack_channel,
//@end
}
pub open spec fn pairs(q: Seq<ProposerDigest>) -> Seq<(BlockHash, WorkerId)> { q.map_values(|d: ProposerDigest| (d.digest, d.worker_id)) }
pub open spec fn digs(ps: Seq<Certificate>) -> Set<HeaderDigest> { ps.map_values(|c: Certificate| c.dig()).to_set() }
//@item file=crates/consensus/primary/src/proposer.rs path="struct HeaderIdentity"
//@end
/// a header of this identity, made of these parents and batches
pub open spec fn made(h: HF, i: HeaderIdentity, ps: Seq<Certificate>, q: Seq<ProposerDigest>) -> bool {
    h.author == i.author && h.round == i.round && h.epoch == i.epoch && h.payload == im_of(pairs(q)) && h.parents == digs(ps)
    && h.seed == (if seed_on(i.epoch) { seed_of(i.key_config, i.epoch, i.round, i.prior_epoch_record) } else { no_sig() })
}
//@item file=crates/consensus/primary/src/proposer.rs path="struct Proposer"
//@sub? /<DB: ProposerStore>/ => 
//@sub? /\bDB\b/ => Store
//@end
/// certificates of the first `n` in favour of the leader (or not), by voting power
pub open spec fn favour(ps: Seq<Certificate>, c: Committee, l: HeaderDigest, yes: bool, n: nat) -> nat decreases n { if n == 0 { 0 } else { favour(ps, c, l, yes, (n - 1) as nat) + if ps[n - 1].f().parents.contains(l) == yes && members(c).contains(ps[n - 1].f().author) { 1nat } else { 0nat } } }
proof fn lemma_favour(ps: Seq<Certificate>, c: Committee, l: HeaderDigest, yes: bool, n: nat) ensures favour(ps, c, l, yes, n) <= n decreases n { if n > 0 { lemma_favour(ps, c, l, yes, (n - 1) as nat); } }
/// who leads the round is among the parents
pub open spec fn led(ps: Seq<Certificate>, a: AuthorityIdentifier, l: Option<Certificate>) -> bool { match l { Some(c) => ps.contains(c) && c.f().author == a, None => forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).f().author != a } }
pub open spec fn votes_in(p: Proposer) -> bool {
    ||| leader_of(p.leader_schedule, (p.round + 1) as Round) == p.authority_id
    ||| p.last_leader is None
    ||| favour(p.last_parents@, p.committee, p.last_leader->0.dig(), true, p.last_parents@.len()) >= (members(p.committee).len() + 2) / 3
    ||| favour(p.last_parents@, p.committee, p.last_leader->0.dig(), false, p.last_parents@.len()) >= 2 * members(p.committee).len() / 3 + 1
}
/// nothing but the listed fields changed (names of what stays)
pub open spec fn same_id(a: Proposer, b: Proposer) -> bool { a.authority_id == b.authority_id && a.committee == b.committee && a.max_header_num_of_batches == b.max_header_num_of_batches && a.header_num_of_batches_threshold == b.header_num_of_batches_threshold && a.leader_schedule == b.leader_schedule && a.prior_epoch_record == b.prior_epoch_record && a.key_config == b.key_config }
pub open spec fn same_world(a: Proposer, b: Proposer) -> bool { a.proposer_store == b.proposer_store && sent(a.consensus_bus) == sent(b.consensus_bus) }
pub open spec fn maxr(s: Seq<Round>) -> Round decreases s.len() { if s.len() == 0 { 0 } else { let m = maxr(s.drop_last()); if s.last() >= m { s.last() } else { m } } }
pub open spec fn left(m: Map<Round, Header>, s: Seq<Round>) -> Map<Round, Header> decreases s.len() { if s.len() == 0 { m } else { left(m, s.drop_last()).remove(s.last()) } }
pub open spec fn pay(h: Header) -> Seq<ProposerDigest> { h.f().payload.map_values(|x: (BlockHash, WorkerId)| ProposerDigest { digest: x.0, worker_id: x.1 }) }
/// the batches of the first `n` headers, oldest first
pub open spec fn again(m: Map<Round, Header>, n: nat) -> Seq<ProposerDigest> decreases n { if n == 0 { Seq::empty() } else { again(m, (n - 1) as nat) + pay(m[sorted_keys(m.dom())[n - 1]]) } }
/// the first `n` rounds are those up to `r`
pub open spec fn upto(m: Map<Round, Header>, n: nat, r: Round) -> bool { n <= sorted_keys(m.dom()).len() && (forall|i: int| 0 <= i < n ==> sorted_keys(m.dom())[i] <= r) && (forall|i: int| n <= i < sorted_keys(m.dom()).len() ==> sorted_keys(m.dom())[i] > r) }
pub open spec fn after(m: Map<Round, Header>, r: Round) -> Map<Round, Header> { m.restrict(m.dom().filter(|k: Round| k > r)) }
proof fn lemma_left(m: Map<Round, Header>, s: Seq<Round>) ensures forall|k: Round| #![trigger left(m, s).contains_key(k)] left(m, s).contains_key(k) <==> m.contains_key(k) && !s.contains(k), forall|k: Round| left(m, s).contains_key(k) ==> #[trigger] left(m, s)[k] == m[k], decreases s.len() {
    if s.len() > 0 { let u = left(m, s.drop_last()); lemma_left(m, s.drop_last()); assert(left(m, s) == u.remove(s.last())); assert forall|k: Round| #[trigger] s.contains(k) <==> s.drop_last().contains(k) || k == s.last() by { if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; if i < s.len() - 1 { assert(s.drop_last()[i] == k); } } if s.drop_last().contains(k) { let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == k; assert(s[i] == k); } if k == s.last() { assert(s[s.len() - 1] == k); } }
        assert forall|k: Round| #[trigger] left(m, s).contains_key(k) <==> m.contains_key(k) && !s.contains(k) by { assert(u.contains_key(k) <==> m.contains_key(k) && !s.drop_last().contains(k)); assert(s.contains(k) <==> s.drop_last().contains(k) || k == s.last()); }
        assert forall|k: Round| left(m, s).contains_key(k) implies #[trigger] left(m, s)[k] == m[k] by { assert(u.contains_key(k)); assert(u[k] == m[k]); }
    }
}
proof fn lemma_after(m: Map<Round, Header>, n: nat, r: Round) requires upto(m, n, r), ensures left(m, sorted_keys(m.dom()).take(n as int)) == after(m, r) {
    let ks = sorted_keys(m.dom()); let p = ks.take(n as int); lemma_left(m, p);
    assert forall|k: Round| #[trigger] left(m, p).contains_key(k) <==> after(m, r).contains_key(k) by {
        if m.contains_key(k) { assert(ks.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; if i < n { assert(p[i] == k); assert(p.contains(k)); } else { if p.contains(k) { let j = choose|j: int| 0 <= j < p.len() && p[j] == k; assert(ks[j] == k); } } }
    }
    assert(left(m, p) =~= after(m, r));
}
impl Proposer {
    pub open spec fn ep(self) -> Epoch { cepoch(self.committee) }
    #[verifier::external_body] fn calc_max_delay(&self) -> Duration { unimplemented!() }
    #[verifier::external_body] fn calc_min_delay(&self) -> Duration { unimplemented!() }
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn store_and_send_header" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /\bproposer_store: DB\b/ => proposer_store: &mut Store
//@sub? /\bconsensus_bus: &ConsensusBus\b/ => consensus_bus: &mut ConsensusBus
//@sub? /persist::<LastProposed>/ => persist_last
//@sub? /\bconsensus_bus\s*\.headers\(\)\s*\.send\(/ => consensus_bus.vx_send(
//@sub? /Box::new\(e\)\.into\(\)/ => ProposerError::CertifierSender(e)
//@desugar res.map_err
//@desugar opt.is_none_or
//@spec
    requires header.wf(),
    ensures attempt(*old(proposer_store), *final(proposer_store), *old(consensus_bus), *final(consensus_bus), header.f()), r is Ok ==> sent(*final(consensus_bus)) == sent(*old(consensus_bus)).insert(header.f()),
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn repropose_header" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /\bproposer_store: DB\b/ => proposer_store: &mut Store
//@sub? /\bconsensus_bus: &ConsensusBus\b/ => consensus_bus: &mut ConsensusBus
//@spec
    requires header.wf(),
    ensures attempt(*old(proposer_store), *final(proposer_store), *old(consensus_bus), *final(consensus_bus), header.f()), r matches Ok(h) ==> h == header && sent(*final(consensus_bus)) == sent(*old(consensus_bus)).insert(header.f()),
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn propose_header" ret=r async=drop
//@sub? /\.await\b/ => 
//@sub? /\bproposer_store: DB\b/ => proposer_store: &mut Store
//@sub? /\bconsensus_bus: &ConsensusBus\b/ => consensus_bus: &mut ConsensusBus
//@sub? /parents\.iter\(\)\.map\(\|c\| \*c\.header\(\)\.created_at\(\)\)\.max\(\)\.unwrap_or\(0\)/ => vx_latest(&parents)
//@sub? /consensus_bus\.app\(\)\.metrics\(\)[^;]*;/ => 
//@sub? /if enabled!\([^)]*\) \{.*?\} else \{\s*\}/ => 
//@sub? /Default::default\(\)/ => vx_nosig()
//@chain
//@vsub? /(\{ let mut vx_col0 = Vec::new\(\);.*?vx_col0 \})/ => vx_im(\1)
//@vsub? /(\{ let mut vx_col1 = Vec::new\(\);.*?vx_col1 \})/ => vx_bset(\1)
//@vsub? /let mut vx_col0 = Vec::new\(\)/ => let mut vx_col0: Vec<(BlockHash, WorkerId)> = Vec::new()
//@vsub? /let mut vx_col1 = Vec::new\(\)/ => let mut vx_col1: Vec<HeaderDigest> = Vec::new()
//@forvec 0
//@forvec 1
//@loop 0 iter=it
    invariant it.seq().len() == digests@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == digests@[i],
        vx_col0@ =~= pairs(digests@).take(it.index() as int),
//@loop 1 iter=it
    invariant it.seq().len() == parents@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == parents@[i],
        vx_col1@ =~= parents@.map_values(|c: Certificate| c.dig()).take(it.index() as int),
//@loophead 0
    proof { assert(*it.seq()[it.index()] == digests@[it.index()]); }
//@loophead 1
    proof { assert(*it.seq()[it.index()] == parents@[it.index()]); }
//@before? /Proposer::store_and_send_header/
    proof { assert(pairs(digests@).take(digests@.len() as int) =~= pairs(digests@)); assert(parents@.map_values(|c: Certificate| c.dig()).take(parents@.len() as int) =~= parents@.map_values(|c: Certificate| c.dig())); assert(made(header.f(), identity, parents@, digests@)); }
//@spec
    ensures exists|h: HF| made(h, identity, parents@, digests@) && #[trigger] attempt(*old(proposer_store), *final(proposer_store), *old(consensus_bus), *final(consensus_bus), h)
        && (r matches Ok(x) ==> x.wf() && x.f() == h && sent(*final(consensus_bus)) == sent(*old(consensus_bus)).insert(h)),
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn update_leader" ret=r
//@sub? /self\.last_parents\.iter\(\)/ => vx_it(&self.last_parents)
//@clos find.0? &&Certificate -> (r: bool)
    ensures r == ($0.f().author == leader.aid)
//@spec
    ensures *final(self) == (Proposer { last_leader: final(self).last_leader, ..*old(self) }), led(old(self).last_parents@, leader_of(old(self).leader_schedule, old(self).round), final(self).last_leader), r == (final(self).last_leader is Some),
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn enough_votes" ret=r
//@vsub? /let mut votes_for_leader = 0;/ => let mut votes_for_leader: VotingPower = 0;
//@vsub? /let mut no_votes = 0;/ => let mut no_votes: VotingPower = 0;
//@sub? /for (\w+) in &self\.last_parents / => for \1 in vx_it(&self.last_parents) 
//@forvec 0
//@loop 0 iter=it
    invariant it.seq().len() == self.last_parents@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.last_parents@[i],
        votes_for_leader == favour(self.last_parents@, self.committee, leader, true, it.index() as nat), no_votes == favour(self.last_parents@, self.committee, leader, false, it.index() as nat),
        it.seq().len() <= usize::MAX,
//@loophead 0
    proof { assert(*it.seq()[it.index()] == self.last_parents@[it.index()]); lemma_favour(self.last_parents@, self.committee, leader, true, it.index() as nat); lemma_favour(self.last_parents@, self.committee, leader, false, it.index() as nat); }
//@spec
    requires few(self.round),
    ensures r == votes_in(*self),
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn ready" ret=r
//@spec
    requires few(old(self).round),
    ensures *final(self) == (Proposer { last_leader: final(self).last_leader, ..*old(self) }),
        old(self).round % 2 == 0 ==> led(old(self).last_parents@, leader_of(old(self).leader_schedule, old(self).round), final(self).last_leader) && r == (final(self).last_leader is Some),
        old(self).round % 2 != 0 ==> final(self).last_leader == old(self).last_leader && r == votes_in(*old(self)),
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn process_parents" ret=r
//@sub? /\bround\.cmp\(&self\.round\)/ => vx_cmp(round, self.round)
//@sub? /self\.consensus_bus\.app\(\)\.primary_round_updates\(\)\.send_replace\(/ => self.consensus_bus.vx_set_round(
//@sub? /self\.last_parents\.extend\((\w+)\)/ => vx_extend(&mut self.last_parents, \1)
//@forvec 0
//@loop 0 iter=it
    invariant *self == *old(self),
//@spec
    requires few(old(self).round), few(round),
    ensures same_id(*old(self), *final(self)), same_world(*old(self), *final(self)), final(self).digests == old(self).digests, final(self).proposed_headers == old(self).proposed_headers,
        final(self).round == (if round > old(self).round { round } else { old(self).round }),
        final(self).last_parents@ == (if round > old(self).round { parents@ } else if round == old(self).round { old(self).last_parents@ + parents@ } else { old(self).last_parents@ }),
        pr(final(self).consensus_bus) == (if round > old(self).round { round } else { pr(old(self).consensus_bus) }),
        final(self).round % 2 == 0 ==> led(final(self).last_parents@, leader_of(final(self).leader_schedule, final(self).round), final(self).last_leader) && final(self).advance_round == (final(self).last_leader is Some),
        final(self).round % 2 != 0 ==> final(self).last_leader == old(self).last_leader && final(self).advance_round == votes_in(*final(self)),
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn process_committed_headers" ret=r
//@sub? /for (\w+) in committed_headers / => for \1 in vx_into_iter(committed_headers) 
//@sub? /max_committed_round\.max\((\w+)\)/ => vx_max(max_committed_round, \1)
//@sub? /in &mut self\.proposed_headers / => in self.proposed_headers.iter() 
//@sub? /\bheader\s*\.payload\(\)\s*\.into_iter\(\)/ => header.payload().vx_pairs()
//@sub? /for (\w+) in &retransmit_rounds / => for \1 in vx_it(&retransmit_rounds) 
//@chain
//@vsub? /(\{ let mut vx_col0 = Vec::new\(\);.*?vx_col0 \})/ => vx_vd(\1)
//@vsub? /let mut vx_col0 = Vec::new\(\)/ => let mut vx_col0: Vec<ProposerDigest> = Vec::new()
//@vsub? /let mut retransmit_rounds = Vec::new\(\)/ => let mut retransmit_rounds: Vec<Round> = Vec::new()
//@vsub? /let mut digests_to_resend = VecDeque::new\(\)/ => let mut digests_to_resend: VecDeque<ProposerDigest> = VecDeque::new()
//@vsub? /let mut max_committed_round = 0;/ => let mut max_committed_round: Round = 0;
//@forvec 0
//@forvec 1
//@forvec 3
//@loop 0 iter=it
    invariant it.seq() == committed_headers@, *self == (Proposer { proposed_headers: self.proposed_headers, ..*old(self) }),
        max_committed_round == maxr(committed_headers@.take(it.index() as int)), self.proposed_headers@ == left(old(self).proposed_headers@, committed_headers@.take(it.index() as int)),
//@loop 1 iter=it
    invariant_except_break retransmit_rounds@.len() == it.index(),
    invariant *self == (Proposer { proposed_headers: self.proposed_headers, ..*old(self) }), self.proposed_headers@ == lf, ks == sorted_keys(lf.dom()), it.seq().len() == ks.len(),
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i].0 == ks[i] && *it.seq()[i].1 == lf[ks[i]],
        retransmit_rounds@.len() <= ks.len(), retransmit_rounds@ =~= ks.take(retransmit_rounds@.len() as int), digests_to_resend@ == again(lf, retransmit_rounds@.len()),
        forall|i: int| 0 <= i < retransmit_rounds@.len() ==> ks[i] <= max_committed_round,
    ensures upto(lf, retransmit_rounds@.len(), max_committed_round),
//@loop 2 iter=jt
    invariant jt.seq().len() == header.f().payload.len(), forall|i: int| #![trigger jt.seq()[i]] 0 <= i < jt.seq().len() ==> *jt.seq()[i].0 == header.f().payload[i].0 && *jt.seq()[i].1 == header.f().payload[i].1,
        vx_col0@ =~= pay(*header).take(jt.index() as int),
//@loop 3 iter=it
    invariant *self == (Proposer { proposed_headers: self.proposed_headers, digests: self.digests, ..*old(self) }), self.digests@ == again(lf, retransmit_rounds@.len()) + old(self).digests@,
        it.seq().len() == retransmit_rounds@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == retransmit_rounds@[i],
        self.proposed_headers@ == left(lf, retransmit_rounds@.take(it.index() as int)),
//@loophead 0
    proof { let i = it.index(); assert(committed_headers@.take(i + 1).drop_last() =~= committed_headers@.take(i)); assert(committed_headers@.take(i + 1).last() == committed_headers@[i]); }
//@beforeloop 1
    let ghost lf = self.proposed_headers@; let ghost ks = sorted_keys(lf.dom());
    proof { assert(committed_headers@.take(committed_headers@.len() as int) =~= committed_headers@); assert(lf == left(old(self).proposed_headers@, committed_headers@)); }
//@loophead 1
    proof { assert(*it.seq()[it.index()].0 == ks[it.index()]); }
//@loophead 2
    proof { assert(*jt.seq()[jt.index()].0 == header.f().payload[jt.index()].0); }
//@loophead 3
    proof { let i = it.index(); assert(*it.seq()[i] == retransmit_rounds@[i]); assert(retransmit_rounds@.take(i + 1).drop_last() =~= retransmit_rounds@.take(i)); assert(retransmit_rounds@.take(i + 1).last() == retransmit_rounds@[i]); }
//@afterloop 3
    proof { let n = retransmit_rounds@.len(); assert(retransmit_rounds@.take(n as int) =~= ks.take(n as int)); lemma_after(lf, n, max_committed_round); }
//@foot
    proof { let n = retransmit_rounds@.len(); if n == 0 { assert(again(lf, 0) + old(self).digests@ =~= old(self).digests@); lemma_after(lf, 0, max_committed_round); assert(ks.take(0) =~= Seq::<Round>::empty()); } assert(self.digests@ == again(lf, n) + old(self).digests@); }
//@spec
    ensures same_id(*old(self), *final(self)), same_world(*old(self), *final(self)), final(self).round == old(self).round, final(self).last_parents == old(self).last_parents,
        exists|n: nat| upto(left(old(self).proposed_headers@, committed_headers@), n, maxr(committed_headers@)) && final(self).digests@ == #[trigger] again(left(old(self).proposed_headers@, committed_headers@), n) + old(self).digests@,
        final(self).proposed_headers@ == after(left(old(self).proposed_headers@, committed_headers@), maxr(committed_headers@)),
//@end
}
impl Proposer {
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn propose_next_header" ret=r
//@sub? /self\.consensus_bus\.app\(\)\.primary_round_updates\(\)\.send_replace\(/ => self.consensus_bus.vx_set_round(
//@spawned
//@sub? /\.await\b/ => 
//@sub? /let proposer_store = self\.proposer_store\.clone\(\);/ => let proposer_store = &mut self.proposer_store;
//@sub? /let consensus_bus = self\.consensus_bus\.clone\(\);/ => let consensus_bus = &mut self.consensus_bus;
//@sub? /([(,]\s*)&consensus_bus\b/ => \1consensus_bus
//@sub? /std::mem::take\(/ => vx_take(
//@sub? /self\.digests\.drain\(\.\.(\w+)\)\.collect\(\)/ => self.digests.vx_drain_front(\1)
//@sub? /self\.digests\.len\(\)\.min\(([^()]*)\)/ => vx_min(self.digests.len(), \1)
//@sub? /self\.round\.max\(last\.round\(\)\)/ => vx_max(self.round, last.round())
//@desugar res.map_err
//@desugar opt.filter
//@head
    vx_few(self.round); vx_few(self.consensus_bus.primary_round());
    let ghost mut wit: HF = arbitrary(); let ghost mut b0 = self.consensus_bus;
//@after? /\.vx_set_round\(self\.round\);/
    proof { b0 = self.consensus_bus; }
//@before? /let res =/
    proof { wit = header.f(); }
//@before? /let proposal =/
    let ghost gi = identity; let ghost gp = parents@; let ghost gd = digests@;
//@before? /let _ = tx\.send\(proposal\);/
    proof { wit = choose|h: HF| made(h, gi, gp, gd) && #[trigger] attempt(old(self).proposer_store, *proposer_store, b0, *consensus_bus, h) && (proposal matches Ok(x) ==> x.wf() && x.f() == h && sent(*consensus_bus) == sent(b0).insert(h)); }
//@before? /Ok\(rx\)/
    proof { assert(attempt(old(self).proposer_store, self.proposer_store, b0, self.consensus_bus, wit)); assert(step(old(self).proposer_store, self.proposer_store, old(self).consensus_bus, self.consensus_bus, wit)); assert(tried(*old(self), *self, wit, rx)); }
//@spec
    requires few(old(self).round), old(self).last_parents@.len() > 0,
    ensures same_id(*old(self), *final(self)), few(final(self).round), final(self).round > old(self).round, final(self).proposed_headers == old(self).proposed_headers,
        proposes(*old(self), *final(self), r),
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn handle_proposal_result" ret=r
//@spec
    requires result matches Ok(h) ==> h.wf(),
    ensures same_id(*old(self), *final(self)), same_world(*old(self), *final(self)), final(self).round == old(self).round, final(self).digests == old(self).digests, final(self).last_parents == old(self).last_parents,
        result is Ok <==> r is Ok, result is Err ==> final(self).proposed_headers@ == old(self).proposed_headers@,
        result matches Ok(h) ==> final(self).proposed_headers@ == old(self).proposed_headers@.insert(h.f().round, h) && final(self).opt_latest_header == Some(h) && !final(self).advance_round,
//@end
}
/// what the next proposal does: a header for a round past the primary's and the own one, the recorded header or one past the record
pub open spec fn proposes(a: Proposer, b: Proposer, r: ProposerResult<PendingHeaderTask>) -> bool {
    match r {
        Err(_) => same_world(a, b) && b.digests == a.digests,
        Ok(rx) => exists|h: HF| tried(a, b, h, rx),
    }
}
pub open spec fn tried(a: Proposer, b: Proposer, h: HF, rx: PendingHeaderTask) -> bool {
    &&& h.epoch == a.ep() && h.round == b.round && b.round > pr(a.consensus_bus) && pr(b.consensus_bus) == b.round
    &&& settled(a.proposer_store, b.proposer_store)
    &&& step(a.proposer_store, b.proposer_store, a.consensus_bus, b.consensus_bus, h) && may(mem(a.proposer_store), h)
    &&& (outcome(rx) matches Ok(x) ==> x.wf() && x.f() == h && sent(b.consensus_bus).contains(h))
    &&& b.last_parents@ == Seq::<Certificate>::empty()
    &&& {
        ||| mem(a.proposer_store) == Some(h) && b.digests@ == a.digests@
        ||| { let n = if a.digests@.len() <= a.max_header_num_of_batches { a.digests@.len() as int } else { a.max_header_num_of_batches as int };
              b.digests@ == a.digests@.skip(n) && made(h, HeaderIdentity { round: b.round, epoch: a.ep(), author: a.authority_id, prior_epoch_record: a.prior_epoch_record, key_config: a.key_config }, a.last_parents@, a.digests@.take(n)) }
    }
}
/// an attempt, whatever becomes of the primary's round
pub open spec fn step(a: Store, b: Store, s: ConsensusBus, t: ConsensusBus, h: HF) -> bool { exists|u: ConsensusBus| sent(u) == sent(s) && #[trigger] attempt(a, b, u, t, h) }
/// no two headers sent for one epoch and round; those of this epoch are covered by the record a crash leaves
pub open spec fn covers(m: Option<HF>, x: HF) -> bool { m matches Some(d) && d.epoch == x.epoch && (d.round > x.round || d == x) }
pub open spec fn good(s: Store, b: ConsensusBus, e: Epoch) -> bool {
    &&& forall|x: HF, y: HF| #[trigger] sent(b).contains(x) && #[trigger] sent(b).contains(y) && x.epoch == y.epoch && x.round == y.round ==> x == y
    &&& forall|x: HF| #[trigger] sent(b).contains(x) ==> x.epoch <= e && (x.epoch == e ==> covers(disk(s), x))
    &&& (disk(s) matches Some(d) && d.epoch == e) ==> covers(mem(s), disk(s)->0)
    &&& upto_epoch(mem(s), e) && upto_epoch(disk(s), e)
}
pub open spec fn upto_epoch(m: Option<HF>, e: Epoch) -> bool { m matches Some(d) ==> d.epoch <= e }
proof fn lemma_attempt(a: Store, b: Store, s: ConsensusBus, t: ConsensusBus, h: HF, e: Epoch)
    requires good(a, s, e), attempt(a, b, s, t, h), h.epoch == e, may(mem(a), h), ensures good(b, t, e)
{
    assert forall|x: HF| #[trigger] sent(s).contains(x) && x.epoch == e && x.round == h.round implies x == h by { assert(covers(disk(a), x)); }
    assert forall|x: HF| #[trigger] sent(t).contains(x) implies x.epoch <= e && (x.epoch == e ==> covers(disk(b), x)) by { if sent(s).contains(x) { assert(x.epoch == e ==> covers(disk(a), x)); } }
    assert forall|x: HF, y: HF| #[trigger] sent(t).contains(x) && #[trigger] sent(t).contains(y) && x.epoch == y.epoch && x.round == y.round implies x == y by { }
}
/// the digest of the batch waits in the queue, or is in a proposed header that is not given up
pub open spec fn inq(q: Seq<ProposerDigest>, d: BlockHash) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).digest == d }
pub open spec fn inp(p: Seq<(BlockHash, WorkerId)>, d: BlockHash) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == d }
pub open spec fn proposed(m: Map<Round, Header>, d: BlockHash) -> bool { exists|k: Round| #[trigger] m.contains_key(k) && inp(m[k].f().payload, d) }
pub open spec fn held(p: Proposer, d: BlockHash) -> bool { inq(p.digests@, d) || proposed(p.proposed_headers@, d) }
/// it is in one of the own headers committed at these rounds
pub open spec fn committed(m: Map<Round, Header>, s: Seq<Round>, d: BlockHash) -> bool { exists|k: Round| #[trigger] m.contains_key(k) && s.contains(k) && inp(m[k].f().payload, d) }
/// it is in the header being proposed
pub open spec fn pending(p: Option<PendingHeaderTask>, d: BlockHash) -> bool { p matches Some(rx) && (outcome(rx) matches Ok(h) ==> inp(h.f().payload, d)) }
/// proposed headers are this epoch's, sent, and filed under their round
pub open spec fn filed(p: Proposer) -> bool { forall|k: Round| #[trigger] p.proposed_headers@.contains_key(k) ==> p.proposed_headers@[k].f().round == k && p.proposed_headers@[k].f().epoch == p.ep() && sent(p.consensus_bus).contains(p.proposed_headers@[k].f()) }
pub open spec fn pend_ok(p: Option<PendingHeaderTask>, e: Epoch, b: ConsensusBus) -> bool { p matches Some(rx) ==> (outcome(rx) matches Ok(h) ==> h.wf() && h.f().epoch == e && sent(b).contains(h.f())) }
proof fn lemma_im(s: Seq<(BlockHash, WorkerId)>, d: BlockHash) requires inp(s, d), ensures inp(im_of(s), d), decreases s.len() {
    let m = im_of(s.drop_last()); let l = s.last(); let r = im_of(s);
    assert(r == im_put(m, l.0, l.1));
    if exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == l.0 { let j = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == l.0; assert(r[j] == (l.0, l.1)); assert forall|i: int| 0 <= i < m.len() implies (#[trigger] r[i]).0 == m[i].0 by { assert(r[i] == if m[i].0 == l.0 { (l.0, l.1) } else { m[i] }); } } else { assert(r[m.len() as int] == (l.0, l.1)); assert forall|i: int| 0 <= i < m.len() implies (#[trigger] r[i]).0 == m[i].0 by { } }
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == d;
    if i < s.len() - 1 { assert(s.drop_last()[i].0 == d); lemma_im(s.drop_last(), d); let k = choose|k: int| 0 <= k < m.len() && (#[trigger] m[k]).0 == d; assert(r[k].0 == d); }
}
proof fn lemma_again(m: Map<Round, Header>, n: nat, i: int, d: BlockHash) requires n <= sorted_keys(m.dom()).len(), 0 <= i < n, inp(m[sorted_keys(m.dom())[i]].f().payload, d), ensures inq(again(m, n), d), decreases n {
    let ks = sorted_keys(m.dom()); let a = again(m, (n - 1) as nat); let b = pay(m[ks[n - 1]]); assert(again(m, n) == a + b);
    if i == n - 1 { let p = m[ks[i]].f().payload; let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).0 == d; assert(b[j].digest == d); assert((a + b)[a.len() + j] == b[j]); }
    else { lemma_again(m, (n - 1) as nat, i, d); let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).digest == d; assert((a + b)[j] == a[j]); }
}
/// what the commit of own headers does to a digest: it stays, or it is in one of them
proof fn lemma_commit(a: Proposer, b: Proposer, s: Seq<Round>, d: BlockHash)
    requires held(a, d), exists|n: nat| upto(left(a.proposed_headers@, s), n, maxr(s)) && b.digests@ == #[trigger] again(left(a.proposed_headers@, s), n) + a.digests@, b.proposed_headers@ == after(left(a.proposed_headers@, s), maxr(s)),
    ensures held(b, d) || committed(a.proposed_headers@, s, d)
{
    let m = a.proposed_headers@; let l = left(m, s); let ks = sorted_keys(l.dom());
    let n = choose|n: nat| upto(l, n, maxr(s)) && b.digests@ == #[trigger] again(l, n) + a.digests@;
    let g = again(l, n);
    lemma_left(m, s);
    if inq(a.digests@, d) { let i = choose|i: int| 0 <= i < a.digests@.len() && (#[trigger] a.digests@[i]).digest == d; assert(b.digests@[g.len() + i] == a.digests@[i]); }
    else {
        let k = choose|k: Round| #[trigger] m.contains_key(k) && inp(m[k].f().payload, d);
        if !s.contains(k) {
            assert(l.contains_key(k) && l[k] == m[k]);
            if k > maxr(s) { assert(b.proposed_headers@.contains_key(k)); }
            else { assert(ks.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(i < n); lemma_again(l, n, i, d); let j = choose|j: int| 0 <= j < g.len() && (#[trigger] g[j]).digest == d; assert(b.digests@[j] == g[j]); }
        }
    }
}
proof fn lemma_files(a: Proposer, b: Proposer, s: Seq<Round>) requires filed(a), same_id(a, b), same_world(a, b), b.proposed_headers@ == after(left(a.proposed_headers@, s), maxr(s)), ensures filed(b) {
    lemma_left(a.proposed_headers@, s);
    assert forall|k: Round| #[trigger] b.proposed_headers@.contains_key(k) implies b.proposed_headers@[k].f().round == k && b.proposed_headers@[k].f().epoch == b.ep() && sent(b.consensus_bus).contains(b.proposed_headers@[k].f()) by { assert(left(a.proposed_headers@, s).contains_key(k)); assert(a.proposed_headers@.contains_key(k)); }
}
/// what a proposal does to a digest: it stays, or it is in the pending header
proof fn lemma_propose(a: Proposer, b: Proposer, rx: PendingHeaderTask, d: BlockHash) requires proposes(a, b, Ok(rx)), b.proposed_headers == a.proposed_headers, held(a, d), ensures held(b, d) || pending(Some(rx), d) {
    let h = choose|h: HF| tried(a, b, h, rx);
    if inq(a.digests@, d) && !(mem(a.proposer_store) == Some(h) && b.digests@ == a.digests@) {
        let n = if a.digests@.len() <= a.max_header_num_of_batches { a.digests@.len() as int } else { a.max_header_num_of_batches as int };
        let q = a.digests@.take(n); let i = choose|i: int| 0 <= i < a.digests@.len() && (#[trigger] a.digests@[i]).digest == d;
        if i < n { assert(pairs(q)[i].0 == d); lemma_im(pairs(q), d); } else { assert(b.digests@[i - n] == a.digests@[i]); }
    }
}
proof fn lemma_tried(a: Proposer, b: Proposer, rx: PendingHeaderTask, e: Epoch) requires proposes(a, b, Ok(rx)), good(a.proposer_store, a.consensus_bus, a.ep()), e == a.ep(), same_id(a, b), filed(a), b.proposed_headers == a.proposed_headers,
    ensures good(b.proposer_store, b.consensus_bus, e), pend_ok(Some(rx), e, b.consensus_bus), sent(a.consensus_bus).subset_of(sent(b.consensus_bus)), filed(b), forall|x: HF| #[trigger] sent(b.consensus_bus).contains(x) && !sent(a.consensus_bus).contains(x) ==> x.epoch == e,
{
    let h = choose|h: HF| tried(a, b, h, rx);
    let u = choose|u: ConsensusBus| sent(u) == sent(a.consensus_bus) && #[trigger] attempt(a.proposer_store, b.proposer_store, u, b.consensus_bus, h);
    assert(good(a.proposer_store, u, e)); lemma_attempt(a.proposer_store, b.proposer_store, u, b.consensus_bus, h, e);
    assert forall|k: Round| #[trigger] b.proposed_headers@.contains_key(k) implies sent(b.consensus_bus).contains(b.proposed_headers@[k].f()) by { assert(a.proposed_headers@.contains_key(k)); }
}
/// the result of the pending proposal comes in
proof fn lemma_result(a: Proposer, b: Proposer, h: Header, rx: PendingHeaderTask, d: BlockHash)
    requires filed(a), good(a.proposer_store, a.consensus_bus, a.ep()), outcome(rx) == Ok::<Header, ProposerError>(h), pend_ok(Some(rx), a.ep(), a.consensus_bus), same_id(a, b), same_world(a, b), b.digests == a.digests, b.proposed_headers@ == a.proposed_headers@.insert(h.f().round, h),
    ensures filed(b), held(a, d) || pending(Some(rx), d) ==> held(b, d)
{
    let m = a.proposed_headers@; let n = b.proposed_headers@;
    assert forall|k: Round| #[trigger] n.contains_key(k) implies n[k].f().round == k && n[k].f().epoch == b.ep() && sent(b.consensus_bus).contains(n[k].f()) by { if k != h.f().round { assert(m.contains_key(k)); } }
    if proposed(m, d) { let k = choose|k: Round| #[trigger] m.contains_key(k) && inp(m[k].f().payload, d); assert(n.contains_key(k)); if k == h.f().round { assert(m[k].f() == h.f()); } }
    if pending(Some(rx), d) { assert(n.contains_key(h.f().round)); }
}
pub struct Parameters { pub header_num_of_batches_threshold: usize, pub max_header_num_of_batches: usize, pub min_header_delay: Duration, pub max_header_delay: Duration }
pub struct ConsensusConfig { pub com: Committee, pub params: Parameters, pub store: Store, pub prior: EpochDigest, pub keys: KeyConfig }
pub struct Notifier {}
impl Notifier { pub fn subscribe(&self) -> Noticer { Noticer {} } }
impl ConsensusConfig {
    pub fn shutdown(&self) -> Notifier { Notifier {} }
    pub fn committee(&self) -> (r: &Committee) ensures *r == self.com { &self.com }
    pub fn parameters(&self) -> (r: &Parameters) ensures *r == self.params { &self.params }
    pub fn node_storage(&self) -> (r: &Store) ensures *r == self.store { &self.store }
    pub fn prior_epoch_record(&self) -> (r: EpochDigest) ensures r == self.prior { self.prior }
    pub fn key_config(&self) -> (r: &KeyConfig) ensures *r == self.keys { &self.keys }
}
impl Certificate { #[verifier::external_body] pub fn genesis(c: &Committee) -> (r: Vec<Certificate>) { unimplemented!() } }
impl Clone for Committee { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Store { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vx_interval(d: Duration) -> Interval { unimplemented!() }
impl Proposer {
    /// waits for the pending header, forever when there is none
    #[verifier::external_body] fn pending_header(p: &mut Option<PendingHeaderTask>) -> (r: ProposerResult<Header>) ensures *final(p) == *old(p), *old(p) is Some, r matches Ok(h) ==> (*old(p) matches Some(q) && outcome(q) == r) { unimplemented!() }
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn run" ret=r
//@select
//@spawned
//@sub? /\basync fn\b/ => fn
//@sub? /\.await\b/ => 
//@sub? /impl TnReceiver</ => VxRx<
//@sub? /self\s*\.consensus_bus\s*\.app\(\)\s*\.metrics\(\)[^;]*;/ => 
//@sub? /let proposer_store = self\.proposer_store\.clone\(\);/ => let proposer_store = &mut self.proposer_store;
//@sub? /let consensus_bus = self\.consensus_bus\.clone\(\);/ => let consensus_bus = &mut self.consensus_bus;
//@sub? /([(,]\s*)&consensus_bus\b/ => \1consensus_bus
//@vsub? /let mut pending_header = None;/ => let mut pending_header: Option<PendingHeaderTask> = None;
//@desugar res.ok
//@desugar opt.flatten
//@desugar opt.filter
//@attr
    #[verifier::exec_allows_no_decreases_clause]
//@head
    let ghost mut acked: spec_fn(BlockHash) -> bool = |d: BlockHash| false; let ghost mut gone: spec_fn(BlockHash) -> bool = |d: BlockHash| false;
    let ghost e = self.ep(); let ghost s0 = sent(self.consensus_bus);
//@before? /let _ = ack\.send/
    proof { let a = acked; acked = |d: BlockHash| a(d) || d == digest.digest; }
//@before? /self\.digests\.push_back\(digest\)/
    let ghost pq = *self; let ghost dg = digest.digest;
//@after? /self\.digests\.push_back\(digest\);/
    proof {
        let n = pq.digests@.len();
        assert(self.digests@[n as int].digest == dg); assert(inq(self.digests@, dg));
        assert forall|d: BlockHash| held(pq, d) implies held(*self, d) by { if inq(pq.digests@, d) { let i = choose|i: int| 0 <= i < pq.digests@.len() && (#[trigger] pq.digests@[i]).digest == d; assert(self.digests@[i] == pq.digests@[i]); } }
    }
//@before? /self\.process_committed_headers\(/
    let ghost pa = *self; let ghost cs = committed_headers@;
//@after? /self\.process_committed_headers\(commit_round, committed_headers\);/
    proof {
        lemma_files(pa, *self, cs);
        let g = gone; gone = |d: BlockHash| g(d) || committed(pa.proposed_headers@, cs, d);
        assert forall|d: BlockHash| held(pa, d) implies held(*self, d) || committed(pa.proposed_headers@, cs, d) by { lemma_commit(pa, *self, cs, d); }
    }
//@before? /pending_header = None;/
    let ghost prx = pending_header;
//@before? /self\.handle_proposal_result\(res\)/
    let ghost pr0 = *self;
//@after? /self\.handle_proposal_result\(res\)\?;/
    proof {
        let h = res->Ok_0;
        assert forall|d: BlockHash| held(pr0, d) || pending(prx, d) implies held(*self, d) by { lemma_result(pr0, *self, h, prx->0, d); }
        lemma_result(pr0, *self, h, prx->0, arbitrary());
    }
//@before? /pending_header = Some\(self\.propose_next_header\(\)/
    let ghost pn = *self;
//@after? /pending_header = Some\(self\.propose_next_header\(\)\?\);/
    proof {
        lemma_tried(pn, *self, pending_header->0, e);
        assert forall|d: BlockHash| held(pn, d) implies held(*self, d) || pending(pending_header, d) by { lemma_propose(pn, *self, pending_header->0, d); }
    }
//@before? /let \(tx, rx\) = oneshot::channel/
    let ghost pd = *self; let ghost hd0 = last_proposed.f();
//@after? /pending_header = Some\(rx\);/
    proof {
        lemma_attempt(pd.proposer_store, self.proposer_store, pd.consensus_bus, self.consensus_bus, hd0, e);
        assert forall|d: BlockHash| held(pd, d) implies held(*self, d) by { assert(self.digests == pd.digests && self.proposed_headers == pd.proposed_headers); }
    }
//@loop 0
    invariant
        same_id(*old(self), *self), e == self.ep(), few(self.round), good(self.proposer_store, self.consensus_bus, e), filed(*self), pend_ok(pending_header, e, self.consensus_bus),
        s0 == sent(old(self).consensus_bus), s0.subset_of(sent(self.consensus_bus)), forall|x: HF| #[trigger] sent(self.consensus_bus).contains(x) && !s0.contains(x) ==> x.epoch == e,
        forall|d: BlockHash| #[trigger] acked(d) ==> held(*self, d) || pending(pending_header, d) || gone(d),
//@spec
    requires few(old(self).round), good(old(self).proposer_store, old(self).consensus_bus, old(self).ep()), filed(*old(self)),
    ensures same_id(*old(self), *final(self)), good(final(self).proposer_store, final(self).consensus_bus, old(self).ep()), sent(old(self).consensus_bus).subset_of(sent(final(self).consensus_bus)),
        forall|x: HF| #[trigger] sent(final(self).consensus_bus).contains(x) && !sent(old(self).consensus_bus).contains(x) ==> x.epoch == old(self).ep(),
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn new" ret=r
//@sub? /ConsensusConfig<DB>/ => ConsensusConfig
//@sub? /tokio::time::interval\(/ => vx_interval(
//@sub? /\.inspect_err\(\|e\| \{\s*\}\)/ => 
//@desugar res.ok
//@desugar opt.flatten
//@desugar opt.filter
//@desugar opt.map
//@desugar opt.map_or
//@spec
    requires config.params.max_header_num_of_batches <= usize::MAX / 2,
    ensures few(r.round), r.ep() == cepoch(config.com), r.proposer_store == config.store, r.consensus_bus == consensus_bus, filed(r), r.authority_id == authority_id, r.digests@.len() == 0,
        r.round == 0 || (mem(config.store) matches Some(l) && l.epoch == r.ep() && r.round + 1 == l.round),
//@end
}
// ---------------------------------------------------------------- the life of a node
pub ghost struct World { pub s: Store, pub b: ConsensusBus, pub e: Epoch }
/// what befalls a node: the proposer of the epoch runs (and stops anywhere: an error and a cut leave the same); the store settles; the process ends; a later epoch starts, with the record or without it
pub open spec fn ran(a: World, b: World) -> bool { b.e == a.e && sent(a.b).subset_of(sent(b.b)) && (good(a.s, a.b, a.e) ==> good(b.s, b.b, b.e)) }
pub open spec fn settles(a: World, b: World) -> bool { b.e == a.e && sent(b.b) == sent(a.b) && mem(b.s) == mem(a.s) && (disk(b.s) == disk(a.s) || disk(b.s) == mem(a.s)) }
pub open spec fn ends(a: World, b: World) -> bool { b.e == a.e && sent(b.b) == sent(a.b) && mem(b.s) == disk(a.s) && disk(b.s) == disk(a.s) }
pub open spec fn turns(a: World, b: World) -> bool { b.e > a.e && sent(b.b) == sent(a.b) && (mem(b.s) == mem(a.s) || mem(b.s) is None) && (disk(b.s) == disk(a.s) || disk(b.s) == mem(a.s) || disk(b.s) is None) }
pub open spec fn lives(w: Seq<World>) -> bool { w.len() > 0 && sent(w[0].b) == Set::<HF>::empty() && mem(w[0].s) is None && disk(w[0].s) is None && forall|i: int| 0 < i < w.len() ==> ran(w[i - 1], #[trigger] w[i]) || settles(w[i - 1], w[i]) || ends(w[i - 1], w[i]) || turns(w[i - 1], w[i]) }
proof fn lemma_good(a: World, b: World) requires good(a.s, a.b, a.e), ran(a, b) || settles(a, b) || ends(a, b) || turns(a, b), ensures good(b.s, b.b, b.e) {
    if !ran(a, b) {
        assert forall|x: HF| #[trigger] sent(b.b).contains(x) implies x.epoch <= b.e && (x.epoch == b.e ==> covers(disk(b.s), x)) by { assert(sent(a.b).contains(x)); }
        assert forall|x: HF, y: HF| #[trigger] sent(b.b).contains(x) && #[trigger] sent(b.b).contains(y) && x.epoch == y.epoch && x.round == y.round implies x == y by { assert(sent(a.b).contains(x) && sent(a.b).contains(y)); }
    }
}
/// over its whole life a node never sends two different headers for one epoch and round
proof fn theorem_one_header(w: Seq<World>) requires lives(w), ensures forall|x: HF, y: HF| #[trigger] sent(w.last().b).contains(x) && #[trigger] sent(w.last().b).contains(y) && x.epoch == y.epoch && x.round == y.round ==> x == y,
{
    assert(good(w[0].s, w[0].b, w[0].e));
    lemma_life(w, w.len() as int - 1);
}
proof fn lemma_life(w: Seq<World>, i: int) requires lives(w), 0 <= i < w.len(), ensures good(w[i].s, w[i].b, w[i].e), decreases i { if i > 0 { lemma_life(w, i - 1); lemma_good(w[i - 1], w[i]); } else { assert(good(w[0].s, w[0].b, w[0].e)); } }
} // verus!
fn main() {}
