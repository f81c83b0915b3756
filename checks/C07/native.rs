#![allow(dead_code, unused, irrefutable_let_patterns)]
//@include lib/rs/native.rs
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::Arc;
use std::fmt;
use parking_lot::Mutex;
use std::task::{Context, Poll}; use std::pin::Pin; use std::future::Future;
pub type Round = u32; pub type Epoch = u32; pub type TimestampSec = u64; pub type WorkerId = u16;
pub use indexmap::IndexMap;
// C07: which certificates the manager hands to consensus, and when
macro_rules! id { ($n:ident) => {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct $n(pub u64);
    impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0 & 0xffff) } }
} }
id!(HeaderDigest); id!(BlsSignature); id!(BlockHash);
macro_rules! enabled { ($($t:tt)*) => { false } }
macro_rules! error { ($($t:tt)*) => {} } macro_rules! warn_ { ($($t:tt)*) => {} } macro_rules! info { ($($t:tt)*) => {} } macro_rules! debug { ($($t:tt)*) => {} } macro_rules! trace { ($($t:tt)*) => {} }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct BlockNumHash { pub number: u64, pub hash: BlockHash }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct AuthorityIdentifier(pub u64);
#[derive(Clone, Debug, Default)] pub struct Committee;
#[derive(Debug)] pub struct SendError<T>(pub T);
impl<T> fmt::Display for SendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "closed") } }
pub mod roaring { #[derive(Clone, Debug, Default)] pub struct RoaringBitmap; } pub use roaring::RoaringBitmap;
pub trait Hash { type TypedDigest; fn digest(&self) -> HeaderDigest; }
thread_local! {
    static CLOCK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static DICE: std::cell::RefCell<vx::Rng> = std::cell::RefCell::new(vx::Rng::new(1));
    static EV: std::cell::RefCell<Vec<Ev>> = Default::default();
}
fn clock() -> u64 { CLOCK.with(|c| c.get()) }
fn dice(n: u64) -> u64 { DICE.with(|d| d.borrow_mut().below(n)) }
fn ev(e: Ev) { EV.with(|v| v.borrow_mut().push(e)) }
fn vx_order(n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); DICE.with(|d| d.borrow_mut().shuffle(&mut v)); v }
/// what the manager was seen to do; `Collected`: it learned of the round of the last commit
#[derive(Debug)] enum Ev { Took(usize), Filter, Send(Certificate, Round), Parent(Certificate), Ask(HeaderDigest), Kick, Collected(Round), Broken, Failed }
struct Yield(u32);
impl Future for Yield { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { if self.0 == 0 { return Poll::Ready(()); } self.0 -= 1; Poll::Pending } }
async fn pause() { Yield(if dice(4) == 0 { 1 } else { 0 }).await }
pub mod tokio { pub mod time {
    pub use std::time::Duration;
    pub struct Until(pub u64);
    impl std::future::Future for Until { type Output = (); fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> { if crate::clock() >= self.0 { std::task::Poll::Ready(()) } else { std::task::Poll::Pending } } }
    pub struct Interval { at: u64, every: Duration }
    pub fn interval(every: Duration) -> Interval { Interval { at: crate::clock(), every } }
    impl Interval {
        pub async fn tick(&mut self) { Until(self.at).await; self.at = self.at.max(crate::clock().saturating_sub(self.every.as_millis() as u64)) + self.every.as_millis() as u64; }
        pub fn reset(&mut self) { self.at = crate::clock() + self.every.as_millis() as u64 } pub fn period(&self) -> Duration { self.every }
    }
} pub mod sync { pub use crate::oneshot; pub use crate::watch; } }
use tokio::time::{interval, Duration};
pub mod oneshot {
    use std::sync::Arc; use parking_lot::Mutex;
    #[derive(Debug)] pub struct Sender<T>(Arc<Mutex<Option<T>>>); pub struct Receiver<T>(Arc<Mutex<Option<T>>>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let s = Arc::new(Mutex::new(None)); (Sender(s.clone()), Receiver(s)) }
    impl<T> Sender<T> { pub fn send(self, t: T) -> Result<(), T> { *self.0.lock() = Some(t); Ok(()) } }
    impl<T> Receiver<T> { pub fn take(&self) -> Option<T> { self.0.lock().take() } }
}
pub mod watch {
    pub mod error { #[derive(Debug)] pub struct RecvError; impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "watch closed") } } impl std::error::Error for RecvError {} }
    /// rounds of commits, and how many were seen
    pub struct Receiver<T> { pub bus: crate::ConsensusBus, pub seen: u64, pub p: std::marker::PhantomData<T> }
    impl<T> std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "rx") } }
    impl Receiver<u32> {
        pub async fn changed(&mut self) -> Result<(), error::RecvError> { let s = self; std::future::poll_fn(move |_| { let b = s.bus.0.lock(); if b.closed { return std::task::Poll::Ready(Err(error::RecvError)); } if b.version == s.seen { return std::task::Poll::Pending; } s.seen = b.version; crate::ev(crate::Ev::Collected(b.committed)); std::task::Poll::Ready(Ok(())) }).await }
        pub fn borrow(&self) -> u32 { self.bus.0.lock().committed }
    }
}
#[derive(Debug)] pub struct StoreError(String);
impl fmt::Display for StoreError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
pub type StoreResult<T> = Result<T, StoreError>;
#[derive(Debug)] pub struct NetworkError;
#[derive(Debug)] pub enum HeaderError { InvalidGenesisParent(HeaderDigest) }
#[derive(Debug)] pub enum CertificateError { Header(HeaderError) }
impl From<HeaderError> for CertificateError { fn from(e: HeaderError) -> Self { Self::Header(e) } }
#[derive(Debug)]
//@item file=crates/consensus/primary/src/error/gc.rs path="enum GarbageCollectorError"
//@end
pub type GarbageCollectorResult<T> = Result<T, GarbageCollectorError>;
#[derive(Debug)]
//@item file=crates/consensus/primary/src/error/cert_manager.rs path="enum CertManagerError"
//@end
pub type CertManagerResult<T> = Result<T, CertManagerError>;
impl From<StoreError> for CertManagerError { fn from(e: StoreError) -> Self { Self::Storage(e) } }
impl From<CertificateError> for CertManagerError { fn from(e: CertificateError) -> Self { Self::Certificate(e) } }
impl From<GarbageCollectorError> for CertManagerError { fn from(e: GarbageCollectorError) -> Self { Self::GC(e) } }
impl<T: fmt::Debug> From<SendError<T>> for CertManagerError { fn from(e: SendError<T>) -> Self { Self::TNSend(e.to_string()) } }
#[derive(Clone, Debug, Default)]
//@item file=crates/types/src/primary/header.rs path="struct HeaderInner"
//@end
#[derive(Clone, Debug)]
//@item file=crates/types/src/primary/header.rs path="struct Header"
//@end
impl Header {
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn digest"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn round"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn parents"
//@end
}
#[derive(Clone, Debug, PartialEq)]
//@item file=crates/types/src/primary/certificate.rs path="enum SignatureVerificationState"
//@end
#[derive(Clone, Debug)]
//@item file=crates/types/src/primary/certificate.rs path="struct Certificate"
//@end
impl Certificate {
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn header"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn round"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn is_verified"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Hash for Certificate :: fn digest"
//@psub? /Self::TypedDigest/ => HeaderDigest
//@end
}
// ------------------------------------------------------------------ the boundaries
#[derive(Default, Debug)] pub struct Db { rows: BTreeMap<HeaderDigest, Certificate>, read_fails: bool, write_fails: bool }
#[derive(Clone, Debug)] pub struct Store(Arc<Mutex<Db>>);
impl Store {
    /// an error may leave nothing, everything or a part
    pub fn write_all<'a>(&self, cs: impl IntoIterator<Item = &'a Certificate>) -> StoreResult<()> {
        let cs: Vec<_> = cs.into_iter().collect(); let mut d = self.0.lock(); let fail = d.write_fails && dice(3) == 0;
        let n = if fail { dice(cs.len() as u64 + 1) as usize } else { cs.len() }; for c in &cs[..n] { d.rows.insert(c.digest(), (*c).clone()); }
        if fail { ev(Ev::Broken); return Err(StoreError("write".into())); } Ok(())
    }
    pub fn write(&self, c: Certificate) -> StoreResult<()> { self.write_all([&c]) }
    pub fn multi_contains<'a>(&self, ds: impl IntoIterator<Item = &'a HeaderDigest>) -> StoreResult<Vec<bool>> { let d = self.0.lock(); if d.read_fails && dice(6) == 0 { ev(Ev::Failed); return Err(StoreError("read".into())); } Ok(ds.into_iter().map(|x| d.rows.contains_key(x)).collect()) }
    pub fn contains(&self, x: &HeaderDigest) -> StoreResult<bool> { Ok(self.multi_contains([x])?[0]) }
    pub fn read(&self, x: HeaderDigest) -> StoreResult<Option<Certificate>> { let d = self.0.lock(); if d.read_fails && dice(6) == 0 { ev(Ev::Failed); return Err(StoreError("read".into())); } Ok(d.rows.get(&x).cloned()) }
    pub fn last_two_rounds_certs(&self) -> StoreResult<Vec<Certificate>> { let d = self.0.lock(); let top = d.rows.values().map(|c| c.round()).max().unwrap_or(0); Ok(d.rows.values().filter(|c| c.round() + 1 >= top).cloned().collect()) }
}
pub trait Database: Clone + 'static {} impl Database for Store {} pub trait CertificateStore {} impl CertificateStore for Store {}
pub struct Gauge; impl Gauge { pub fn set(&self, _: f64) {} pub fn increment(&self, _: u64) {} }
pub struct Metrics { pub certificates_pending: Gauge }
static METRICS: Metrics = Metrics { certificates_pending: Gauge };
#[derive(Default, Debug)] pub struct Bus { committed: Round, version: u64, closed: bool, send_fails: bool, fetch_fails: bool, parent_fails: bool, jumps: bool }
#[derive(Clone, Debug)] pub struct ConsensusBus(Arc<Mutex<Bus>>);
#[derive(Debug)]
//@item file=crates/consensus/primary/src/certificate_fetcher.rs path="enum CertificateFetcherCommand"
//@end
pub struct Updates(ConsensusBus); impl Updates { pub fn subscribe(&self) -> watch::Receiver<u32> { let seen = self.0 .0.lock().version; watch::Receiver { bus: self.0.clone(), seen, p: std::marker::PhantomData } } }
pub struct Fresh(ConsensusBus); pub struct Fetch(ConsensusBus);
impl Fresh { pub async fn send(&self, c: Certificate) -> Result<(), SendError<Certificate>> {
    pause().await; let mut b = self.0 .0.lock(); if b.send_fails && dice(4) == 0 { ev(Ev::Broken); return Err(SendError(c)); }
    ev(Ev::Send(c, b.committed)); if b.jumps && dice(5) == 0 { b.committed += 1 + dice(2) as Round; b.version += 1; } Ok(())
} }
impl Fetch { pub async fn send(&self, c: CertificateFetcherCommand) -> Result<(), SendError<CertificateFetcherCommand>> {
    pause().await; let b = self.0 .0.lock(); if b.fetch_fails && dice(4) == 0 { ev(Ev::Failed); return Err(SendError(c)); }
    match &c { CertificateFetcherCommand::Ancestors(c) => ev(Ev::Ask(c.digest())), _ => ev(Ev::Kick) } Ok(())
} }
impl ConsensusBus {
    pub fn app(&self) -> &Self { self } pub fn metrics(&self) -> &Metrics { &METRICS } pub fn committed_round(&self) -> Round { self.0.lock().committed } pub fn committed_round_updates(&self) -> Updates { Updates(self.clone()) }
    pub fn new_certificates(&self) -> Fresh { Fresh(self.clone()) } pub fn certificate_fetcher(&self) -> Fetch { Fetch(self.clone()) }
}
/// C02
#[derive(Debug)] pub struct CertificatesAggregatorManager(ConsensusBus);
impl CertificatesAggregatorManager {
    pub fn new(b: ConsensusBus) -> Self { Self(b) }
    pub async fn append_certificate(&mut self, c: Certificate, _: &Committee) -> CertManagerResult<()> { pause().await; let b = self.0 .0.lock(); if b.parent_fails && dice(4) == 0 { ev(Ev::Broken); return Err(CertManagerError::TNSend("parents".into())); } ev(Ev::Parent(c)); Ok(()) }
    pub fn garbage_collect(&mut self, _: &Round) {}
}
pub struct Notifier(Arc<Mutex<bool>>); pub struct Noticer(Arc<Mutex<bool>>);
impl Notifier { pub fn subscribe(&self) -> Noticer { Noticer(self.0.clone()) } }
impl Future for &Noticer { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if *self.0.lock() { Poll::Ready(()) } else { Poll::Pending } } }
#[derive(Clone, Debug)] pub struct Parameters { pub gc_depth: Round } #[derive(Clone, Debug)] pub struct Cfg { pub parameters: Parameters }
#[derive(Clone, Debug)] pub struct SyncConfig { pub max_consenus_round_timeout: Duration } impl SyncConfig { pub fn sync_config(&self) -> &Self { self } }
#[derive(Clone, Debug)] pub struct ConsensusConfig<DB> { cfg: Cfg, com: Committee, gen: Arc<HashMap<HeaderDigest, Certificate>>, db: DB, shut: Arc<Mutex<bool>>, net: SyncConfig }
impl<DB> ConsensusConfig<DB> {
    pub fn config(&self) -> &Cfg { &self.cfg } pub fn committee(&self) -> &Committee { &self.com } pub fn genesis(&self) -> &HashMap<HeaderDigest, Certificate> { &self.gen } pub fn node_storage(&self) -> &DB { &self.db }
    pub fn shutdown(&self) -> Notifier { Notifier(self.shut.clone()) } pub fn network_config(&self) -> &SyncConfig { &self.net }
}
pub trait TnReceiver<T> { async fn recv(&mut self) -> Option<T>; }
pub struct Chan(Arc<Mutex<VecDeque<(usize, CertificateManagerCommand)>>>);
impl TnReceiver<CertificateManagerCommand> for Chan { async fn recv(&mut self) -> Option<CertificateManagerCommand> { std::future::poll_fn(|_| match self.0.lock().pop_front() { Some((i, c)) => { ev(match &c { CertificateManagerCommand::FilterUnkownDigests { .. } => Ev::Filter, _ => Ev::Took(i) }); Poll::Ready(Some(c)) } None => Poll::Pending }).await } }
// ------------------------------------------------------------------ the code
//@fn file=crates/consensus/primary/src/consensus/utils.rs path="fn gc_round"
//@end
#[derive(Debug, Clone)]
//@item file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="struct PendingCertificate"
//@end
impl PendingCertificate {
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificate :: fn new"
//@end
}
#[derive(Debug, Default)]
//@item file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="struct PendingCertificateManager"
//@end
impl PendingCertificateManager {
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn new"
//@end
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn insert_pending"
//@end
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn update_pending"
//@end
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn next_for_gc_round"
//@end
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn is_pending"
//@end
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn num_pending"
//@end
//@fn file=crates/consensus/primary/src/state_sync/pending_cert_manager.rs path="impl PendingCertificateManager :: fn filter_unknown_digests"
//@end
}
//@item file=crates/consensus/primary/src/state_sync/gc.rs path="struct GarbageCollector"
//@end
impl GarbageCollector<Store> {
//@fn file=crates/consensus/primary/src/state_sync/gc.rs path="impl GarbageCollector :: fn new"
//@psub? /\bDB\b/ => Store
//@end
//@fn file=crates/consensus/primary/src/state_sync/gc.rs path="impl GarbageCollector :: fn process_max_round_timeout"
//@end
//@fn file=crates/consensus/primary/src/state_sync/gc.rs path="impl GarbageCollector :: fn ready"
//@select
//@end
}
//@item file=crates/consensus/primary/src/state_sync/cert_manager.rs path="struct CertificateManager"
//@end
#[derive(Debug)]
//@item file=crates/consensus/primary/src/state_sync/cert_manager.rs path="enum CertificateManagerCommand"
//@end
impl CertificateManager<Store> {
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn new"
//@psub? /\bDB\b/ => Store
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn gc_round"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn process_verified_certificates"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn get_missing_parents"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn accept_verified_certificates"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn process_gc_round"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn recover_state"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_manager.rs path="impl CertificateManager :: fn run"
//@select
//@end
}
// ------------------------------------------------------------------ the driver
use vx::Rng;
type Fut<T> = Pin<Box<dyn Future<Output = T>>>;
/// a command under way
enum Sent { Certs(usize, Vec<Certificate>, oneshot::Receiver<CertManagerResult<()>>), Filter(Vec<HeaderDigest>, oneshot::Receiver<Vec<HeaderDigest>>) }
struct Life { r: Rng, dag: Vec<Vec<Certificate>>, all: BTreeMap<HeaderDigest, Certificate>, gen: Arc<HashMap<HeaderDigest, Certificate>>, store: Store, bus: ConsensusBus, ch: Arc<Mutex<VecDeque<(usize, CertificateManagerCommand)>>>, shut: Arc<Mutex<bool>>, run: Option<Fut<CertManagerResult<()>>>,
    depth: Round, base: BTreeSet<HeaderDigest>, sent: BTreeMap<HeaderDigest, u64>, given: BTreeMap<HeaderDigest, u64>, waiting: BTreeSet<HeaderDigest>, unsure: BTreeSet<HeaderDigest>, asked: BTreeSet<HeaderDigest>, kicks: u64, due_kicks: u64, heard: VecDeque<HeaderDigest>, recovered: bool, broken: bool, failed: bool, collected: Round, cmds: VecDeque<Sent>, taken: usize, n: usize, log: VecDeque<String>, cascades: u64, collections: u64, faulty: bool, ended: bool }
fn cert(r: &mut Rng, author: u64, round: Round, parents: BTreeSet<HeaderDigest>, st: u64) -> Certificate {
    let sig = BlsSignature(1);
    let inner = HeaderInner { author: AuthorityIdentifier(author), round, epoch: 1, parents, digest: HeaderDigest(r.next()), ..Default::default() };
    Certificate { header: Header { inner: Arc::new(inner) }, signature_verification_state: match st { 0 => SignatureVerificationState::VerifiedDirectly(sig), 1 => SignatureVerificationState::VerifiedIndirectly(sig), 2 => SignatureVerificationState::Unverified(sig), _ => SignatureVerificationState::Unsigned(sig) }, signed_authorities: RoaringBitmap }
}
fn sure(c: &Certificate) -> bool { matches!(c.signature_verification_state, SignatureVerificationState::VerifiedDirectly(_) | SignatureVerificationState::VerifiedIndirectly(_) | SignatureVerificationState::Genesis) }
impl Life {
    fn say(&mut self, s: String) { self.log.push_back(s); if self.log.len() > 16 { self.log.pop_front(); } }
    fn ctx(&self) -> String { format!("gc depth {}; {}", self.depth, self.log.iter().cloned().collect::<Vec<_>>().join(", ")) }
    fn new(mut r: Rng) -> Life {
        CLOCK.with(|c| c.set(1_000)); EV.with(|e| e.borrow_mut().clear());
        let n = 2 + r.us(4); let rounds = 3 + r.us(10); let mut all = BTreeMap::new(); let mut dag: Vec<Vec<Certificate>> = vec![];
        let gen: Vec<Certificate> = (0..n).map(|i| { let mut c = cert(&mut r, i as u64, 0, BTreeSet::new(), 0); c.signature_verification_state = SignatureVerificationState::Genesis; c }).collect();
        let strays: Vec<HeaderDigest> = (0..3).map(|_| HeaderDigest(r.next())).collect(); let stray = r.chance(1, 3);
        for k in 1..=rounds {
            let row = (0..n).filter(|_| k == 1 || r.chance(5, 6)).collect::<Vec<_>>().into_iter().map(|i| {
                let prev = if k == 1 { &gen } else { &dag[k - 2] }; let mut ps: BTreeSet<HeaderDigest> = prev.iter().filter(|_| r.chance(3, 4)).map(|c| c.digest()).collect();
                if ps.is_empty() { if let Some(c) = prev.first() { ps.insert(c.digest()); } }
                if k == 1 && stray && r.chance(1, 4) { ps.insert(strays[r.us(3)]); }
                let c = { let s = r.below(2); cert(&mut r, i as u64, k as Round, ps, s) }; all.insert(c.digest(), c.clone()); c
            }).collect(); dag.push(row);
        }
        let gen = Arc::new(gen.into_iter().map(|c| (c.digest(), c)).collect::<HashMap<_, _>>()); let depth = 1 + r.below(6) as Round;
        let mut l = Life { r, dag, all, gen, store: Store(Default::default()), bus: ConsensusBus(Default::default()), ch: Default::default(), shut: Default::default(), run: None, depth, base: BTreeSet::new(), sent: BTreeMap::new(), given: BTreeMap::new(), waiting: BTreeSet::new(), unsure: BTreeSet::new(), asked: BTreeSet::new(), kicks: 0, due_kicks: 0, heard: VecDeque::new(), recovered: false, broken: false, failed: false, collected: 0, cmds: VecDeque::new(), taken: 0, n: 0, log: VecDeque::new(), cascades: 0, collections: 0, faulty: false, ended: false };
        l.start(); l
    }
    /// a manager starts on what is stored
    fn start(&mut self) {
        self.run = None; self.ch = Default::default(); self.shut = Default::default(); self.cmds.clear(); self.taken = 0; EV.with(|e| e.borrow_mut().clear());
        self.sent.clear(); self.given.clear(); self.waiting.clear(); self.unsure.clear(); self.asked.clear(); self.heard.clear(); self.recovered = false; self.broken = false; self.failed = false; self.ended = false; self.kicks = 0; self.due_kicks = 0;
        { let mut d = self.store.0.lock(); d.read_fails = false; d.write_fails = false; self.base = d.rows.keys().copied().collect(); }
        let committed = self.bus.0.lock().committed; let jumps = self.r.chance(1, 3); self.collected = committed; self.bus = ConsensusBus(Arc::new(Mutex::new(Bus { committed, jumps, ..Bus::default() })));
        let cfg = ConsensusConfig { cfg: Cfg { parameters: Parameters { gc_depth: self.depth } }, com: Committee, gen: self.gen.clone(), db: self.store.clone(), shut: self.shut.clone(), net: SyncConfig { max_consenus_round_timeout: Duration::from_millis(5_000) } };
        let m = CertificateManager::<Store>::new(cfg, self.bus.clone()); let ch = Chan(self.ch.clone()); self.run = Some(Box::pin(async move { m.run(ch).await }));
        let s = format!("start c{committed} with {} stored", self.base.len()); self.say(s);
    }
    fn gc(&self, committed: Round) -> Round { committed.saturating_sub(self.depth) }
    fn known(&self, d: &HeaderDigest) -> bool { self.base.contains(d) || self.sent.contains_key(d) }
    fn faults(&mut self) { self.faulty = true; let (a, b, c, d, e) = (self.r.chance(1, 3), self.r.chance(1, 3), self.r.chance(1, 3), self.r.chance(1, 2), self.r.chance(1, 2)); { let mut s = self.store.0.lock(); s.write_fails = a; s.read_fails = d; } let mut s = self.bus.0.lock(); s.send_fails = b; s.parent_fails = c; s.fetch_fails = e; }
    fn no_faults(&mut self) { let mut s = self.store.0.lock(); s.write_fails = false; s.read_fails = false; drop(s); let mut s = self.bus.0.lock(); s.send_fails = false; s.parent_fails = false; s.fetch_fails = false; }
    fn give(&mut self) {
        let top = self.dag.len(); let k = self.r.below(6); let mut v: Vec<Certificate> = vec![];
        let (lo, hi) = if self.r.chance(1, 2) { (0, top) } else { let a = self.r.us(top); (a, (a + 1 + self.r.us(3)).min(top)) };
        for _ in 0..1 + (if k == 0 { self.r.us(8) } else { self.r.us(3) }) { let i = lo + self.r.us(hi - lo); let row = &self.dag[i]; if row.is_empty() { continue; } let c = row[self.r.us(row.len())].clone(); v.push(c); }
        if k == 1 { v.sort_by_key(|c| c.round()); } if k == 2 { v.sort_by_key(|c| std::cmp::Reverse(c.round())); }
        if self.r.chance(1, 12) { if let Some(c) = v.last_mut() { c.signature_verification_state = if self.r.chance(1, 2) { SignatureVerificationState::Unverified(BlsSignature(2)) } else { SignatureVerificationState::Unsigned(BlsSignature(2)) }; } let n = v.len(); if n > 1 { let i = self.r.us(n); v.swap(i, n - 1); } }
        self.n += 1; let (tx, rx) = oneshot::channel(); let s = format!("give {}", v.iter().map(|c| format!("{}{}@{}", c.digest(), if sure(c) { "" } else { "?" }, c.round())).collect::<Vec<_>>().join("+")); self.say(s);
        self.ch.lock().push_back((self.n, CertificateManagerCommand::ProcessVerifiedCertificates { certificates: v.clone(), reply: tx })); self.cmds.push_back(Sent::Certs(self.n, v, rx));
    }
    fn ask(&mut self) {
        let ds: Vec<HeaderDigest> = self.all.keys().copied().collect(); let v: Vec<HeaderDigest> = (0..self.r.us(6)).map(|_| ds[self.r.us(ds.len())]).collect(); let (tx, rx) = oneshot::channel();
        self.ch.lock().push_back((0, CertificateManagerCommand::FilterUnkownDigests { unknown: v.clone(), reply: tx })); self.cmds.push_back(Sent::Filter(v, rx));
    }
    fn commit(&mut self) { let by = 1 + self.r.below(3) as Round; let mut b = self.bus.0.lock(); b.committed += by; b.version += 1; let c = b.committed; drop(b); self.say(format!("commit {c}")); }
    fn drive(&mut self, rep: &mut vx::Rep, polls: u32) {
        let mut cx = Context::from_waker(std::task::Waker::noop());
        for _ in 0..polls {
            let Some(mut f) = self.run.take() else { return; };
            let x = vx::guard(|| f.as_mut().poll(&mut cx));
            for e in EV.with(|v| std::mem::take(&mut *v.borrow_mut())) { self.saw(rep, e); }
            match x {
                Ok(Poll::Pending) => self.run = Some(f),
                Ok(Poll::Ready(x)) => { let asked = *self.shut.lock(); let c = self.ctx(); rep.check(if x.is_ok() { asked } else { self.faulty }, "stopped", || format!("the manager ended with {x:?} ({c})")); self.ended = true; self.say(format!("ended {x:?}")); return; }
                Err(e) => { let c = self.ctx(); rep.fail("panic", format!("the manager: {e} ({c})")); self.ended = true; return; }
            }
        }
    }
    fn saw(&mut self, rep: &mut vx::Rep, e: Ev) {
        let c = self.ctx();
        match e {
            Ev::Took(i) => {
                self.settle(rep); self.taken += 1; self.recovered = true;
                if let Some(v) = self.cmds.iter().find_map(|s| match s { Sent::Certs(j, v, _) if *j == i => Some(v.clone()), _ => None }) { for c in v { *self.given.entry(c.digest()).or_default() += sure(&c) as u64; } }
            }
            Ev::Filter => { self.settle(rep); self.taken += 1; self.recovered = true; }
            Ev::Collected(r) => { self.settle(rep); self.recovered = true; self.collected = r; self.collections += 1; }
            Ev::Parent(p) => { if self.recovered || !self.base.contains(&p.digest()) { rep.check(!self.broken, "goes-on", || format!("{} is counted after a failure that leaves the state unclear ({c})", p.digest())); self.heard.push_back(p.digest()); } }
            Ev::Ask(d) => { self.asked.insert(d); }
            Ev::Kick => self.kicks += 1,
            Ev::Broken => self.broken = true,
            Ev::Failed => self.failed = true,
            Ev::Send(x, committed) => {
                let d = x.digest(); let what = format!("certificate {d} of round {}", x.round());
                rep.check(!self.broken, "goes-on", || format!("{what} is handed on after a failure that leaves the state unclear ({c})"));
                rep.check(sure(&x), "unverified", || format!("{what} is handed on, its signatures unchecked ({c})"));
                let g = self.gc(committed);
                for p in x.header().parents() {
                    let fine = self.known(p) || x.round() <= g + 1 || (x.round() == 1 && self.gen.contains_key(p));
                    rep.check(fine, "before-parents", || format!("{what} is handed on before its parent {p}, at committed round {committed} ({c})"));
                }
                rep.check(self.heard.pop_front() == Some(d), "not-counted", || format!("{what} is handed on and not counted as a parent ({c})"));
                rep.check(self.store.0.lock().rows.contains_key(&d), "not-stored", || format!("{what} is handed on and not stored ({c})"));
                *self.sent.entry(d).or_default() += 1; let (s, gv) = (self.sent[&d], self.given.get(&d).copied().unwrap_or(0)); rep.check(s <= gv, "handed-twice", || format!("{what} is handed on {s} times and was received {gv} times ({c})"));
                if self.waiting.remove(&d) { self.cascades += 1; } self.unsure.remove(&d);
            }
        }
    }
    /// the answers that are there
    fn settle(&mut self, rep: &mut vx::Rep) {
        while self.taken > 0 { let Some(s) = self.cmds.pop_front() else { break; };
            let c = self.ctx();
            match s {
                Sent::Certs(i, v, rx) => {
                    let Some(a) = rx.take() else { self.cmds.push_front(Sent::Certs(i, v, rx)); return; }; self.taken -= 1;
                    let first_bad = v.iter().position(|c| !sure(c));
                    match &a {
                        Ok(()) => { for x in &v { rep.check(self.sent.contains_key(&x.digest()) && sure(x), "lost", || format!("{} was received and answered with Ok, and not handed on ({c})", x.digest())); } }
                        Err(CertManagerError::Pending(d)) => {
                            rep.check(first_bad.is_none(), "unverified", || format!("a batch with an unchecked certificate is answered with Pending ({c})"));
                            rep.check(v.iter().any(|x| x.digest() == *d), "wrong-answer", || format!("answered that {d} waits ({c})"));
                            for x in &v { if !self.sent.contains_key(&x.digest()) { self.wait(rep, x); } }
                        }
                        Err(CertManagerError::UnverifiedSignature(d)) => { rep.check(first_bad.map_or(false, |i| v[i].digest() == *d), "wrong-answer", || format!("answered that {d} is unverified ({c})")); if let Some(i) = first_bad { for x in &v[..i] { if !self.sent.contains_key(&x.digest()) { self.wait(rep, x); } } } }
                        Err(e) => {
                            let gen = v.iter().any(|x| x.round() == 1 && x.header().parents().iter().any(|p| !self.gen.contains_key(p)));
                            rep.check(if matches!(e, CertManagerError::Certificate(_)) { gen } else { self.failed }, "wrong-answer", || format!("answered {e:?} ({c})")); for x in &v { if sure(x) && !self.sent.contains_key(&x.digest()) && !self.waiting.contains(&x.digest()) { self.unsure.insert(x.digest()); } }
                        }
                    }
                    self.failed = false;
                }
                Sent::Filter(v, rx) => {
                    let Some(a) = rx.take() else { self.cmds.push_front(Sent::Filter(v, rx)); return; }; self.taken -= 1;
                    if self.unsure.is_empty() { let want: Vec<_> = v.iter().copied().filter(|d| !self.waiting.contains(d)).collect(); rep.check(a == want, "filter", || format!("of {v:?} {a:?} are left, waiting are {:?} ({c})", self.waiting)); }
                }
            }
        }
    }
    fn wait(&mut self, rep: &mut vx::Rep, x: &Certificate) { let d = x.digest(); let c = self.ctx(); rep.check(self.asked.contains(&d), "not-fetched", || format!("{d} waits and its parents are not asked for ({c})")); self.unsure.remove(&d); self.waiting.insert(d); }
    /// everything was processed: nothing waits that need not
    fn quiet(&mut self, rep: &mut vx::Rep) {
        for _ in 0..400 { if self.run.is_none() || (self.ch.lock().is_empty() && { self.settle(rep); self.cmds.is_empty() }) { break; } self.drive(rep, 1); }
        self.drive(rep, 40); self.settle(rep); if self.run.is_none() { return; }
        let c = self.ctx(); rep.check(self.cmds.is_empty(), "no-answer", || format!("a request is not answered ({c})"));
        let g = self.gc(self.collected); let w: Vec<_> = self.waiting.iter().copied().collect();
        for d in w { let x = self.all[&d].clone(); let r = x.round(); let needs = x.header().parents().iter().any(|p| !self.known(p)) && r > g + 1; rep.check(needs, "stuck", || format!("{d} of round {r} waits, its parents {:?} are {:?}, garbage below {g} ({c})", x.header().parents(), x.header().parents().iter().map(|p| self.known(p)).collect::<Vec<_>>())); }
        if self.r.chance(1, 4) { self.ask(); self.drive(rep, 8); self.settle(rep); }
    }
}
fn once(r: &mut Rng, rep: &mut vx::Rep) {
    DICE.with(|d| *d.borrow_mut() = Rng::new(r.next())); let mut l = Life::new(Rng::new(r.next())); let mut starts = 1;
    for _ in 0..20 + r.us(50) {
        match r.below(20) {
            0..=10 => l.give(), 11 => l.ask(), 12 | 13 => l.commit(),
            14 => l.quiet(rep),
            15 => { if r.chance(1, 2) { l.quiet(rep); if !l.ended { let before = l.kicks; CLOCK.with(|c| c.set(c.get() + 6_000)); l.drive(rep, 6); let c = l.ctx(); if !l.ended && !l.faulty { rep.check(l.kicks > before, "no-kick", || format!("no commit for long and certificates are not fetched ({c})")); } } } }
            16 => { if r.chance(1, 3) { l.faults(); } else { l.no_faults(); } }
            17 => { if r.chance(1, 4) { if r.chance(1, 2) { *l.shut.lock() = true; l.drive(rep, 30); let c = l.ctx(); rep.check(l.ended, "stopped", || format!("asked to stop and goes on ({c})")); } l.start(); starts += 1; } }
            _ => l.drive(rep, 1 + r.below(6) as u32),
        }
        if l.ended { l.start(); starts += 1; }
        if !rep.time_left(1.0) { break; }
    }
    l.no_faults(); l.quiet(rep);
    if !l.ended {
        // everything arrives in the end
        let mut v: Vec<Certificate> = l.dag.iter().flatten().filter(|c| c.round() != 1 || c.header().parents().iter().all(|p| l.gen.contains_key(p))).cloned().collect(); l.r.shuffle(&mut v);
        for ch in v.chunks(3) { l.n += 1; let (tx, rx) = oneshot::channel(); l.ch.lock().push_back((l.n, CertificateManagerCommand::ProcessVerifiedCertificates { certificates: ch.to_vec(), reply: tx })); l.cmds.push_back(Sent::Certs(l.n, ch.to_vec(), rx)); l.drive(rep, 2); }
        l.quiet(rep);
    }
    rep.case(l.cascades > 0 && (starts > 1 || l.collections > 0));
}
fn main() {
    let mut rep = vx::Rep::new();
    while rep.time_left(1.0) { let mut r = Rng::new(rep.rng.next()); once(&mut r, &mut rep); }
    rep.finish();
}
