#![allow(dead_code, unused, irrefutable_let_patterns)]
//@include lib/rs/native.rs
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::cmp::Ordering;
use std::sync::Arc;
use std::fmt;
use parking_lot::Mutex;
use std::task::{Context, Poll}; use std::pin::Pin; use std::future::Future;
pub type Round = u32; pub type Epoch = u32; pub type VotingPower = u64; pub type TimestampSec = u64; pub type WorkerId = u16;
pub use indexmap::IndexMap;
fn mix(mut z: u64) -> u64 { z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
// C08: the headers a node proposes, over crashes, restarts and epochs
macro_rules! id { ($n:ident) => {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct $n(pub u64);
    impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:x}", self.0 >> 48) } }
} }
id!(HeaderDigest); id!(BlsPublicKey); id!(BlsSignature); id!(BlockHash);
macro_rules! enabled { ($($t:tt)*) => { false } }
macro_rules! error { ($($t:tt)*) => {} } macro_rules! warn_ { ($($t:tt)*) => {} } macro_rules! info { ($($t:tt)*) => {} } macro_rules! debug { ($($t:tt)*) => {} } macro_rules! trace { ($($t:tt)*) => {} }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct BlockNumHash { pub number: u64, pub hash: BlockHash }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct AuthorityIdentifier(pub u64);
impl fmt::Display for AuthorityIdentifier { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
#[derive(Debug)] pub struct SendError<T>(pub T);
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Authority { id: AuthorityIdentifier }
impl Authority { pub fn id(&self) -> AuthorityIdentifier { self.id.clone() } pub fn voting_power(&self) -> u64 { 1 } }
/// thresholds as C01 decides
#[derive(Clone, Debug)] pub struct Committee { m: BTreeMap<AuthorityIdentifier, Authority>, epoch: Epoch }
impl Committee {
    pub fn authorities(&self) -> Vec<Authority> { self.m.values().cloned().collect() }
    pub fn size(&self) -> usize { self.m.len() }
    pub fn epoch(&self) -> Epoch { self.epoch }
    pub fn voting_power_by_id(&self, i: &AuthorityIdentifier) -> u64 { self.m.contains_key(i) as u64 }
    pub fn validity_threshold(&self) -> u64 { (self.m.len() as u64 + 2) / 3 }
    pub fn quorum_threshold(&self) -> u64 { 2 * self.m.len() as u64 / 3 + 1 }
    pub fn total_voting_power(&self) -> u64 { self.m.len() as u64 }
}
/// who leads a round (C03)
#[derive(Clone)] pub struct LeaderSchedule { c: Vec<AuthorityIdentifier>, salt: u64 }
impl LeaderSchedule { pub fn leader(&self, r: Round) -> Authority { Authority { id: self.c[(mix(self.salt ^ r as u64) % self.c.len() as u64) as usize].clone() } } }
pub trait Hash { fn digest(&self) -> HeaderDigest; }
thread_local! {
    static CLOCK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static DICE: std::cell::RefCell<vx::Rng> = std::cell::RefCell::new(vx::Rng::new(1));
    static EV: std::cell::RefCell<Vec<Ev>> = Default::default();
}
/// milliseconds
fn clock() -> u64 { CLOCK.with(|c| c.get()) }
fn now() -> u64 { clock() / 1000 }
fn dice(n: u64) -> u64 { DICE.with(|d| d.borrow_mut().below(n)) }
fn ev(e: Ev) { EV.with(|v| v.borrow_mut().push(e)) }
fn vx_order(n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); DICE.with(|d| d.borrow_mut().shuffle(&mut v)); v }
/// what the proposer was seen to do
#[derive(Debug)] enum Ev { Digest(BlockHash, WorkerId), Parents(Vec<Certificate>, Round), Committed(Vec<Round>), Result, Spawn, Send(Header), Round(Round) }
struct Yield(u32);
impl Future for Yield { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { if self.0 == 0 { return Poll::Ready(()); } self.0 -= 1; Poll::Pending } }
async fn pause() { Yield(dice(3) as u32).await }
pub mod tokio { pub mod time {
    pub use std::time::Duration;
    pub struct Until(pub u64);
    impl std::future::Future for Until { type Output = (); fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> { if crate::clock() >= self.0 { std::task::Poll::Ready(()) } else { std::task::Poll::Pending } } }
    pub fn sleep(d: Duration) -> Until { Until(crate::clock() + d.as_millis() as u64) }
    /// ticks at once, then every period
    pub struct Interval { at: u64, every: Duration }
    pub fn interval(every: Duration) -> Interval { Interval { at: crate::clock(), every } }
    impl Interval {
        pub async fn tick(&mut self) { Until(self.at).await; self.at = self.at.max(crate::clock().saturating_sub(self.every.as_millis() as u64)) + self.every.as_millis() as u64; }
        pub fn reset(&mut self) { self.at = crate::clock() + self.every.as_millis() as u64 } pub fn reset_after(&mut self, d: Duration) { self.at = crate::clock() + d.as_millis() as u64 } pub fn reset_immediately(&mut self) { self.at = crate::clock() }
        pub fn reset_at(&mut self, d: u64) { self.at = d } pub fn period(&self) -> Duration { self.every }
    }
} pub mod sync { pub use crate::oneshot; } }
use tokio::time::{sleep, Duration, Interval};
pub mod oneshot {
    use std::sync::Arc; use parking_lot::Mutex; use std::task::{Context, Poll};
    pub mod error { #[derive(Debug)] pub struct RecvError; }
    #[derive(Debug)] pub struct S<T> { v: Option<T>, gone: bool }
    #[derive(Debug)] pub struct Sender<T>(Arc<Mutex<S<T>>>); #[derive(Debug)] pub struct Receiver<T>(Arc<Mutex<S<T>>>, bool);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let s = Arc::new(Mutex::new(S { v: None, gone: false })); (Sender(s.clone()), Receiver(s, false)) }
    impl<T> Sender<T> { pub fn send(self, t: T) -> Result<(), T> { let mut s = self.0.lock(); if s.gone { return Err(t); } s.v = Some(t); Ok(()) } pub fn is_closed(&self) -> bool { self.0.lock().gone } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.lock().gone = true; } }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.lock().gone = true; } }
    impl<T> Receiver<T> { pub fn try_recv(&mut self) -> Result<T, error::RecvError> { self.0.lock().v.take().ok_or(error::RecvError) } }
    impl<T> std::future::Future for Receiver<T> { type Output = Result<T, error::RecvError>; fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        assert!(!self.1, "a finished receiver polled again"); let r = { let mut s = self.0.lock(); if let Some(v) = s.v.take() { Some(Ok(v)) } else if s.gone { Some(Err(error::RecvError)) } else { None } };
        match r { Some(x) => { self.1 = true; crate::ev(crate::Ev::Result); Poll::Ready(x) } None => Poll::Pending } } }
}
#[derive(Debug)] pub enum ProposerError { WatchChannelClosed, OneshotChannelClosed, CertifierSender(Box<SendError<Header>>), StoreError(String), DurableBarrierFailed(String) }
impl From<oneshot::error::RecvError> for ProposerError { fn from(_: oneshot::error::RecvError) -> Self { Self::OneshotChannelClosed } }
impl From<Box<SendError<Header>>> for ProposerError { fn from(e: Box<SendError<Header>>) -> Self { Self::CertifierSender(e) } }
pub type ProposerResult<T> = Result<T, ProposerError>;
#[derive(Debug)] pub struct TaskError;
#[derive(Debug)]
//@item file=crates/types/src/primary/header.rs path="struct HeaderInner"
//@end
impl Hash for HeaderInner { fn digest(&self) -> HeaderDigest {
    let s = format!("{:?}", (&self.author, self.round, self.epoch, self.created_at, &self.payload, &self.parents, &self.latest_execution_block, self.seed_signature));
    HeaderDigest(mix(s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))) } }
#[derive(Clone, Debug)]
//@item file=crates/types/src/primary/header.rs path="struct Header"
//@end
impl Header {
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn new"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn digest"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn author"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn round"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn epoch"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn created_at"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn payload"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn parents"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn latest_execution_block"
//@end
}
#[derive(Clone, Debug)] pub struct Certificate { header: Header }
impl Certificate {
    pub fn header(&self) -> &Header { &self.header } pub fn round(&self) -> Round { self.header.round() } pub fn epoch(&self) -> Epoch { self.header.epoch() } pub fn origin(&self) -> &AuthorityIdentifier { self.header.author() }
    pub fn genesis(c: &Committee) -> Vec<Self> { c.m.keys().map(|a| cert(a.clone(), 0, c.epoch, vec![], 0)).collect() }
}
impl Hash for Certificate { fn digest(&self) -> HeaderDigest { self.header.digest() } }
fn cert(a: AuthorityIdentifier, round: Round, epoch: Epoch, parents: Vec<HeaderDigest>, at: u64) -> Certificate {
    let keep = clock(); CLOCK.with(|c| c.set(at * 1000)); let h = Header::new(a, round, epoch, IndexMap::new(), parents.into_iter().collect(), BlockNumHash::default(), BlsSignature::default()); CLOCK.with(|c| c.set(keep)); Certificate { header: h }
}
const FORK: Epoch = 3;
pub fn seed_signature_active(e: Epoch) -> bool { e >= FORK }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct EpochDigest(u64);
#[derive(Clone)] pub struct KeyConfig { k: u64 }
fn seed_sign(k: u64, e: Epoch, r: Round, p: EpochDigest) -> BlsSignature { BlsSignature(mix(mix(k ^ 0x5eed) ^ mix(((e as u64) << 32) | r as u64) ^ mix(p.0))) }
pub struct EpochSeedMessage(Epoch, Round, EpochDigest);
impl EpochSeedMessage { pub fn new(e: Epoch, r: Round, p: EpochDigest) -> Self { Self(e, r, p) } pub fn sign(&self, k: &KeyConfig) -> BlsSignature { seed_sign(k.k, self.0, self.1, self.2) } }
// ------------------------------------------------------------------ the store, the channels, the tasks
pub struct LastProposed; pub type StoreResult<T> = eyre::Result<T>; pub type ProposerKey = u32;
//@item file=crates/storage/src/stores/proposer_store.rs path="const LAST_PROPOSAL_KEY"
//@end
/// the record: what reads see, what is on disk, what waits to be written
#[derive(Default, Debug)] pub struct Db { mem: BTreeMap<u32, Header>, disk: BTreeMap<u32, Header>, queue: Vec<(u32, Header)>, poisoned: bool, read_fails: bool, write_fails: bool }
fn flush(d: &mut Db, n: usize) { if d.poisoned { return; } let n = n.min(d.queue.len()); for (k, h) in d.queue.drain(..n).collect::<Vec<_>>() { d.disk.insert(k, h); } }
#[derive(Clone)] pub struct Store(Arc<Mutex<Db>>);
impl Store {
    pub fn insert<T>(&self, k: &ProposerKey, v: &Header) -> StoreResult<()> { let mut d = self.0.lock(); if d.write_fails && dice(2) == 0 { return Err(eyre::eyre!("write")); } d.mem.insert(*k, v.clone()); d.queue.push((*k, v.clone())); Ok(()) }
    pub fn get<T>(&self, k: &ProposerKey) -> StoreResult<Option<Header>> { let d = self.0.lock(); if d.read_fails && dice(2) == 0 { return Err(eyre::eyre!("read")); } Ok(d.mem.get(k).cloned()) }
    pub async fn persist<T>(&self) -> eyre::Result<()> { pause().await; let mut d = self.0.lock(); if d.poisoned { return Err(eyre::eyre!("commit failed")); } let n = d.queue.len(); flush(&mut d, n); Ok(()) }
//@fn file=crates/storage/src/stores/proposer_store.rs path="impl ProposerStore for DB :: fn write_last_proposed"
//@end
//@fn file=crates/storage/src/stores/proposer_store.rs path="impl ProposerStore for DB :: fn get_last_proposed"
//@end
}
pub trait ProposerStore {} impl ProposerStore for Store {} pub trait Database: Clone + 'static {} impl Database for Store {}
pub struct Gauge; impl Gauge { pub fn set(&self, _: f64) {} pub fn increment(&self, _: u64) {} }
pub struct Metrics { pub proposer_pending_digests: Gauge, pub headers_proposed_total: Gauge }
static METRICS: Metrics = Metrics { proposer_pending_digests: Gauge, headers_proposed_total: Gauge };
#[derive(Default)] pub struct Bus { round: Round, exe: BlockNumHash, closed: bool }
#[derive(Clone)] pub struct ConsensusBus(Arc<Mutex<Bus>>);
pub struct Rounds<'a>(&'a ConsensusBus); impl Rounds<'_> { pub fn send_replace(&self, r: Round) -> Round { ev(Ev::Round(r)); std::mem::replace(&mut self.0 .0.lock().round, r) } }
pub struct Headers<'a>(&'a ConsensusBus); impl Headers<'_> { pub async fn send(&self, h: Header) -> Result<(), SendError<Header>> { pause().await; if self.0 .0.lock().closed { return Err(SendError(h)); } ev(Ev::Send(h)); Ok(()) } }
impl ConsensusBus {
    pub fn app(&self) -> &Self { self } pub fn metrics(&self) -> &Metrics { &METRICS } pub fn primary_round(&self) -> Round { self.0.lock().round } pub fn primary_round_updates(&self) -> Rounds<'_> { Rounds(self) }
    pub fn latest_execution_block_num_hash(&self) -> BlockNumHash { self.0.lock().exe } pub fn headers(&self) -> Headers<'_> { Headers(self) }
}
type Fut<T> = Pin<Box<dyn Future<Output = T>>>;
#[derive(Clone)] pub struct TaskSpawner(Arc<Mutex<Vec<Fut<Result<(), TaskError>>>>>);
impl TaskSpawner { pub fn spawn_task<F: Future<Output = Result<(), TaskError>> + 'static>(&self, _n: &str, f: F) { ev(Ev::Spawn); self.0.lock().push(Box::pin(f)); } }
pub struct Notifier(Arc<Mutex<bool>>); pub struct Noticer(Arc<Mutex<bool>>);
impl Notifier { pub fn subscribe(&self) -> Noticer { Noticer(self.0.clone()) } }
impl Future for &Noticer { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if *self.0.lock() { Poll::Ready(()) } else { Poll::Pending } } }
pub struct Parameters { pub header_num_of_batches_threshold: usize, pub max_header_num_of_batches: usize, pub min_header_delay: Duration, pub max_header_delay: Duration }
pub struct ConsensusConfig<DB> { com: Committee, params: Parameters, db: DB, prior: EpochDigest, key: KeyConfig, shut: Notifier }
impl<DB> ConsensusConfig<DB> {
    pub fn shutdown(&self) -> &Notifier { &self.shut } pub fn committee(&self) -> &Committee { &self.com } pub fn parameters(&self) -> &Parameters { &self.params } pub fn node_storage(&self) -> &DB { &self.db } pub fn prior_epoch_record(&self) -> EpochDigest { self.prior } pub fn key_config(&self) -> &KeyConfig { &self.key }
}
pub trait TnReceiver<T> { async fn recv(&mut self) -> Option<T>; }
pub struct Chan<T>(Arc<Mutex<VecDeque<T>>>); impl<T> Clone for Chan<T> { fn clone(&self) -> Self { Chan(self.0.clone()) } }
impl<T> Chan<T> { fn new() -> Self { Chan(Default::default()) } fn put(&self, t: T) { self.0.lock().push_back(t); } fn clear(&self) { self.0.lock().clear(); } }
pub trait Seen { fn seen(&self); }
impl Seen for OurDigestMessage { fn seen(&self) { ev(Ev::Digest(self.digest, self.worker_id)) } }
impl Seen for (Vec<Certificate>, Round) { fn seen(&self) { ev(Ev::Parents(self.0.clone(), self.1)) } }
impl Seen for (Round, Vec<Round>) { fn seen(&self) { ev(Ev::Committed(self.1.clone())) } }
impl<T: Seen> TnReceiver<T> for Chan<T> { async fn recv(&mut self) -> Option<T> { std::future::poll_fn(|_| match self.0.lock().pop_front() { Some(t) => { t.seen(); Poll::Ready(Some(t)) } None => Poll::Pending }).await } }
//@item file=crates/consensus/primary/src/proposer.rs path="type PendingHeaderTask"
//@end
#[derive(Debug)]
//@item file=crates/consensus/primary/src/proposer.rs path="struct OurDigestMessage"
//@end
#[derive(Debug)]
//@item file=crates/consensus/primary/src/proposer.rs path="struct ProposerDigest"
//@end
impl OurDigestMessage {
//@fn file=crates/consensus/primary/src/proposer.rs path="impl OurDigestMessage :: fn process"
//@end
}
//@item file=crates/consensus/primary/src/proposer.rs path="struct Proposer"
//@end
//@item file=crates/consensus/primary/src/proposer.rs path="struct HeaderIdentity"
//@end
impl Proposer<Store> {
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn new"
//@psub? /\bDB\b/ => Store
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn propose_header"
//@psub? /\bDB\b/ => Store
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn repropose_header"
//@psub? /\bDB\b/ => Store
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn store_and_send_header"
//@psub? /\bDB\b/ => Store
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn calc_max_delay"
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn calc_min_delay"
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn update_leader"
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn enough_votes"
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn ready"
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn process_parents"
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn process_committed_headers"
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn propose_next_header"
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn handle_proposal_result"
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn pending_header"
//@end
//@fn file=crates/consensus/primary/src/proposer.rs path="impl Proposer :: fn run"
//@select
//@end
}
// ------------------------------------------------------------------ the drivers
use vx::Rng;
trait CloneRng { fn clone_(&mut self) -> Rng; }
impl CloneRng for Rng { fn clone_(&mut self) -> Rng { Rng::new(self.next()) } }
type Item = (BlockHash, WorkerId);
/// a proposal under way: what it may be made of
struct Pend { queue: Vec<(u64, Item)>, parents: Vec<HeaderDigest>, newest: u64, round: Round, at: u64, rec: Option<Header>, exes: Vec<BlockNumHash>, sent: Option<Header> }
/// what the proposer must know, from what it was seen to take
#[derive(Default)] struct Model { n: u64, queue: Vec<(u64, Item)>, parents: Vec<Certificate>, tag: Round, round: Round, filed: BTreeMap<Round, Vec<Item>>, pend: Option<Pend>, exes: Vec<BlockNumHash> }
struct Life { r: Rng, com: Committee, me: AuthorityIdentifier, key: u64, prior: EpochDigest, sched: LeaderSchedule, store: Store, bus: ConsensusBus, ch: (Chan<OurDigestMessage>, Chan<(Vec<Certificate>, Round)>, Chan<(Round, Vec<Round>)>), tasks: TaskSpawner, shut: Arc<Mutex<bool>>, run: Option<Fut<ProposerResult<()>>>, m: Model,
    sent: BTreeMap<(Epoch, Round), HeaderDigest>, sends: u64, fresh: u64, again: u64, crashes: u64, log: VecDeque<String>, acks: Vec<(BlockHash, oneshot::Receiver<()>)>, faulty: bool, max: usize, top: Round }
fn keys(p: &IndexMap<BlockHash, WorkerId>) -> Vec<Item> { p.iter().map(|(k, v)| (*k, *v)).collect() }
impl Life {
    fn say(&mut self, s: String) { self.log.push_back(s); if self.log.len() > 14 { self.log.pop_front(); } }
    fn ctx(&self) -> String { format!("epoch {}, {} crashes; {}", self.com.epoch, self.crashes, self.log.iter().cloned().collect::<Vec<_>>().join(", ")) }
    fn new(mut r: Rng) -> Life {
        let n = 1 + r.us(7); let mut m = BTreeMap::new(); while m.len() < n { let a = AuthorityIdentifier(r.next() >> 8); m.insert(a.clone(), Authority { id: a }); }
        let ids: Vec<_> = m.keys().cloned().collect(); let com = Committee { m, epoch: 1 + r.below(4) as Epoch }; let me = ids[r.us(n)].clone();
        CLOCK.with(|c| c.set(1_700_000_000_000)); EV.with(|e| e.borrow_mut().clear());
        let sched = LeaderSchedule { c: ids, salt: r.next() }; let key = r.next();
        let mut l = Life { prior: EpochDigest(r.next()), sched, me, key, com, store: Store(Default::default()), bus: ConsensusBus(Default::default()), ch: (Chan::new(), Chan::new(), Chan::new()), tasks: TaskSpawner(Default::default()), shut: Default::default(), run: None, m: Model::default(), sent: BTreeMap::new(), sends: 0, fresh: 0, again: 0, crashes: 0, log: VecDeque::new(), acks: vec![], faulty: false, max: 1 + r.us(5), top: 0, r };
        l.start(0); l
    }
    /// the proposer of this epoch starts, the primary being in round `c`
    fn start(&mut self, c: Round) {
        self.run = None; self.tasks = TaskSpawner(Default::default()); self.shut = Default::default(); self.acks.clear(); EV.with(|e| e.borrow_mut().clear());
        let exe = self.bus.0.lock().exe; self.bus = ConsensusBus(Arc::new(Mutex::new(Bus { round: c, exe, closed: false }))); self.ch = (Chan::new(), Chan::new(), Chan::new());
        let ms = |x: u64| Duration::from_millis(x); let lo = 100 + self.r.below(800); let hi = lo + self.r.below(1500);
        let cfg = ConsensusConfig { com: self.com.clone(), params: Parameters { header_num_of_batches_threshold: 1 + self.r.us(3), max_header_num_of_batches: self.max, min_header_delay: ms(lo), max_header_delay: ms(hi) }, db: self.store.clone(), prior: self.prior, key: KeyConfig { k: self.key }, shut: Notifier(self.shut.clone()) };
        let mut p = Proposer::<Store>::new(cfg, self.me.clone(), self.bus.clone(), self.sched.clone(), self.tasks.clone());
        let (a, b, d) = (self.ch.0.clone(), self.ch.1.clone(), self.ch.2.clone());
        self.run = Some(Box::pin(async move { p.run(a, b, d).await }));
        self.m = Model { parents: Certificate::genesis(&self.com), exes: vec![exe], ..Model::default() };
        self.say(format!("start e{} c{c}", self.com.epoch));
    }
    fn rec(&self) -> Option<Header> { self.store.0.lock().mem.get(&LAST_PROPOSAL_KEY).cloned() }
    fn parents(&mut self) {
        let base = self.m.round; let round = match self.r.below(8) { 0 => base.saturating_sub(1), 1 => base + 2, 2 | 3 => base, _ => base + 1 };
        if round == 0 { return; } let ids: Vec<_> = self.com.m.keys().cloned().collect(); let mut ix: Vec<usize> = (0..ids.len()).collect(); self.r.shuffle(&mut ix);
        let n = if round == base && self.m.tag == base { 1 } else { self.com.quorum_threshold() as usize }; ix.truncate(n);
        let known: Vec<_> = self.m.parents.iter().map(|c| c.digest()).collect();
        let cs: Vec<_> = ix.into_iter().map(|i| { let mut ps = known.clone(); if self.r.chance(1, 2) { ps.pop(); } let at = now() + self.r.below(8) - 4; cert(ids[i].clone(), round, self.com.epoch, ps, at) }).collect();
        self.say(format!("parents r{round}")); self.ch.1.put((cs, round));
    }
    fn poll(&mut self, rep: &mut vx::Rep) {
        let mut cx = Context::from_waker(std::task::Waker::noop());
        let n = self.tasks.0.lock().len();
        if n > 0 && self.r.chance(1, 2) {
            let i = self.r.us(n); let mut t = self.tasks.0.lock().swap_remove(i);
            match vx::guard(|| t.as_mut().poll(&mut cx)) { Ok(Poll::Pending) => self.tasks.0.lock().push(t), Ok(_) => {} Err(e) => { let c = self.ctx(); rep.fail("panic", format!("proposing a header: {e} ({c})")); } }
        } else if let Some(mut f) = self.run.take() {
            match vx::guard(|| f.as_mut().poll(&mut cx)) {
                Ok(Poll::Pending) => self.run = Some(f),
                Ok(Poll::Ready(x)) => { let asked = *self.shut.lock(); let c = self.ctx(); rep.check(if x.is_ok() { asked } else { self.faulty }, "stopped", || format!("the proposer ended with {x:?} ({c})")); self.say(format!("ended {}", x.is_ok())); }
                Err(e) => { let c = self.ctx(); rep.fail("panic", format!("the proposer: {e} ({c})")); }
            }
        }
        for e in EV.with(|v| std::mem::take(&mut *v.borrow_mut())) { self.saw(rep, e); }
    }
    fn saw(&mut self, rep: &mut vx::Rep, e: Ev) {
        match e {
            Ev::Digest(d, w) => { self.m.n += 1; self.m.queue.push((self.m.n, (d, w))); let c = self.ctx(); if let Some(i) = self.acks.iter().position(|a| a.0 == d) { let (_, mut rx) = self.acks.swap_remove(i); rep.check(rx.try_recv().is_ok(), "no-ack", || format!("batch {d} was taken and not acknowledged ({c})")); } }
            Ev::Parents(cs, r) => { let m = &mut self.m; if r > m.round || (r == m.round && m.tag != r) { m.parents = cs; m.tag = r; m.round = r; } else if r == m.round { m.parents.extend(cs); } }
            Ev::Committed(v) => {
                let m = &mut self.m; let max = v.iter().copied().max().unwrap_or(0); for r in &v { m.filed.remove(r); }
                let old: Vec<Round> = m.filed.keys().copied().filter(|k| *k <= max).collect(); let mut q = vec![]; for k in old { for x in m.filed.remove(&k).unwrap() { m.n += 1; q.push((m.n, x)); } } q.extend(m.queue.drain(..)); m.queue = q;
            }
            Ev::Spawn => { let rec = self.rec(); let m = &mut self.m; m.pend = Some(Pend { queue: m.queue.clone(), parents: m.parents.iter().map(|c| c.digest()).collect(), newest: m.parents.iter().map(|c| *c.header().created_at()).max().unwrap_or(0), round: m.round, at: now(), rec, exes: vec![*m.exes.last().unwrap()], sent: None }); }
            Ev::Result => { if let Some(p) = self.m.pend.take() { if let Some(h) = p.sent { self.m.filed.insert(h.round(), keys(h.payload())); } } }
            Ev::Round(_) => {}
            Ev::Send(h) => self.sent(rep, h),
        }
    }
    fn sent(&mut self, rep: &mut vx::Rep, h: Header) {
        self.sends += 1; let c = self.ctx(); let what = format!("header {} of round {} epoch {}", h.digest(), h.round(), h.epoch());
        let slot = (h.epoch(), h.round()); let d = h.digest();
        let before = self.sent.get(&slot).copied(); if let Some(b) = before { rep.check(b == d, "two-headers", || format!("{what} is sent, and {b} was sent for the same round before ({c})")); } self.sent.insert(slot, d); self.top = self.top.max(h.round());
        rep.check(h.epoch() == self.com.epoch && *h.author() == self.me, "wrong-identity", || format!("{what} of {} in epoch {} ({c})", h.author(), self.com.epoch));
        { let s = self.store.0.lock(); let r = s.disk.get(&LAST_PROPOSAL_KEY); rep.check(r.map_or(false, |x| x.epoch() == h.epoch() && (x.round() > h.round() || x.digest() == d)), "not-durable", || format!("{what} is out and the record on disk is {:?} ({c})", r.map(|x| (x.epoch(), x.round(), x.digest())))); }
        let m = &mut self.m; let Some(p) = &mut m.pend else { rep.fail("unasked", format!("{what} is sent by no proposal ({c})")); return; };
        let again = p.rec.as_ref().map_or(false, |x| x.digest() == d);
        if again { self.again += 1; } else {
            self.fresh += 1; rep.check(before.is_none() || p.sent.is_some(), "made-again", || format!("{what} is not the recorded one ({c})"));
            let n = p.queue.len().min(self.max); let mut want: Vec<Item> = vec![]; for (_, x) in &p.queue[..n] { if !want.contains(x) { want.push(*x); } }
            rep.check(keys(h.payload()) == want, "batches", || format!("{what} carries {:?} where {:?} wait ({c})", keys(h.payload()), p.queue));
            let ps: BTreeSet<_> = p.parents.iter().copied().collect(); rep.check(*h.parents() == ps && !ps.is_empty(), "parents", || format!("{what} has {} parents of the {} at hand ({c})", h.parents().len(), ps.len()));
            rep.check(h.round() > p.round, "round-back", || format!("{what} although the proposer is in round {} ({c})", p.round));
            rep.check(*h.created_at() >= p.newest && *h.created_at() >= p.at && *h.created_at() <= now(), "time", || format!("{what} is of {} where its newest parent is of {} and the clock of {}..{} ({c})", h.created_at(), p.newest, p.at, now()));
            let seed = if seed_signature_active(h.epoch()) { seed_sign(self.key, h.epoch(), h.round(), self.prior) } else { BlsSignature::default() };
            rep.check(h.inner_seed() == seed, "seed", || format!("{what} carries another seed signature ({c})"));
            rep.check(p.exes.contains(&h.latest_execution_block()), "execution", || format!("{what} names a block that was not the latest one executed ({c})"));
            let used: Vec<u64> = p.queue[..n].iter().map(|x| x.0).collect(); m.queue.retain(|x| !used.contains(&x.0));
        }
        p.sent = Some(h.clone()); if m.tag < h.round() { m.parents.clear(); } m.round = m.round.max(h.round());
        self.say(format!("{} r{}", if again { "again" } else { "sent" }, h.round()));
    }
    fn crash(&mut self, kept: bool) {
        self.crashes += 1; self.say(if kept { "restart".into() } else { "crash".into() });
        if !kept { let mut d = self.store.0.lock(); let disk = d.disk.clone(); *d = Db { mem: disk.clone(), disk, ..Db::default() }; } else { let mut d = self.store.0.lock(); d.poisoned = false; d.read_fails = false; d.write_fails = false; }
        let top = self.sent.keys().filter(|k| k.0 == self.com.epoch).map(|k| k.1).max().unwrap_or(0); let back = self.r.below(4) as Round; let c = (top + self.r.below(2) as Round).saturating_sub(back);
        self.start(c);
        // recovered parents: the two last rounds known
        let last = (top + self.r.below(3) as Round).saturating_sub(self.r.below(4) as Round); let ids: Vec<_> = self.com.m.keys().cloned().collect();
        for round in [last.saturating_sub(1), last] { if round > 0 && round + 1 >= c { let cs = ids[..self.com.quorum_threshold() as usize].iter().map(|a| cert(a.clone(), round, self.com.epoch, vec![], now() - 5)).collect(); self.ch.1.put((cs, round)); self.say(format!("recovered r{round}")); } }
    }
    fn faults(&mut self, on: bool) { let mut d = self.store.0.lock(); if on { self.faulty = true; d.poisoned = self.r.chance(1, 3); d.read_fails = self.r.chance(1, 3); d.write_fails = self.r.chance(1, 3); } else { d.poisoned = false; d.read_fails = false; d.write_fails = false; } }
}
impl Header { fn inner_seed(&self) -> BlsSignature { self.inner.seed_signature } }
fn life(rep: &mut vx::Rep, faults: bool) {
    DICE.with(|d| *d.borrow_mut() = rep.rng.clone_()); let mut l = Life::new(rep.rng.clone_()); let steps = 60 + l.r.us(400); let mut next = 1u64;
    for _ in 0..steps {
        if l.run.is_none() { l.crash(false); l.faulty = false; }
        match l.r.below(if faults { 32 } else { 24 }) {
            0..=3 => { let d = BlockHash(next << 48); next += 1; let (tx, rx) = oneshot::channel(); let w = l.r.below(3) as WorkerId; l.acks.push((d, rx)); l.ch.0.put(OurDigestMessage { digest: d, worker_id: w, ack_channel: tx }); }
            4..=6 => l.parents(),
            7..=16 => { for _ in 0..1 + l.r.us(8) { l.poll(rep); } }
            17 | 18 => { let t = if l.r.chance(1, 4) { l.r.below(4000) } else { l.r.below(500) }; CLOCK.with(|c| c.set(c.get() + t)); }
            19 | 20 => { let mut v: Vec<Round> = l.m.filed.keys().copied().collect(); let k = l.r.us(v.len() + 1); v.truncate(k); if l.r.chance(2, 3) { v.retain(|_| l.r.chance(1, 2)); } if l.r.chance(1, 8) { v.push(1 + l.r.below(l.top as u64 + 1) as Round); } if !v.is_empty() || l.r.chance(1, 10) { l.r.shuffle(&mut v); l.say(format!("committed {v:?}")); l.ch.2.put((v.iter().copied().max().unwrap_or(0), v)); } }
            21 => { let mut d = l.store.0.lock(); let k = l.r.us(3); flush(&mut d, k); }
            22 => { let x = BlockNumHash { number: l.r.below(99), hash: BlockHash(l.r.next()) }; l.bus.0.lock().exe = x; l.m.exes.push(x); if let Some(p) = &mut l.m.pend { p.exes.push(x); } }
            23 => if l.r.chance(1, 6) && !l.faulty { quiet(rep, &mut l); }
            24 | 25 => { if l.r.chance(1, 3) { l.faults(true); } }
            26 | 27 => { let kept = l.r.chance(1, 4); l.crash(kept); l.faulty = false; }
            28 => if l.r.chance(1, 5) { *l.shut.lock() = true; }
            29 => if l.r.chance(1, 6) { // the next epoch, with or without the record
                { let mut d = l.store.0.lock(); let (a, b) = (d.mem.clone(), d.disk.clone()); *d = Db { mem: if l.r.chance(1, 2) { BTreeMap::new() } else { a }, disk: b, ..Db::default() }; if d.mem.is_empty() && l.r.chance(1, 2) { d.disk.clear(); } }
                l.com.epoch += 1 + l.r.below(2) as Epoch; l.top = 0; l.prior = EpochDigest(l.r.next()); l.faulty = false; l.start(0);
            }
            _ => {}
        }
        if !rep.time_left(1.0) { break; }
    }
    rep.case(l.fresh > 1 && (l.crashes > 0 || l.again > 0));
    rep.sample(format!("committee of {}: {} headers sent ({} new, {} again) in {} slots, {} restarts", l.com.size(), l.sends, l.fresh, l.again, l.sent.len(), l.crashes));
}
/// when nothing fails and parents are at hand, a header goes out
fn quiet(rep: &mut vx::Rep, l: &mut Life) {
    { let d = l.store.0.lock(); if d.poisoned || d.read_fails || d.write_fails { return; } }
    for _ in 0..60 { l.poll(rep); } if l.run.is_none() || l.m.parents.is_empty() || l.m.pend.is_some() || *l.shut.lock() { return; }
    let n = l.sends; for _ in 0..40 { CLOCK.with(|c| c.set(c.get() + 400)); for _ in 0..12 { l.poll(rep); } if l.sends > n { return; } }
    let c = l.ctx(); rep.fail("stalled", format!("parents of round {} are at hand and no header is proposed ({c})", l.m.tag));
}
fn main() { let mut rep = vx::Rep::new(); while rep.time_left(0.4) { life(&mut rep, false); } while rep.time_left(1.0) { life(&mut rep, true); } rep.finish() }
