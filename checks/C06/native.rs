#![allow(dead_code, unused)]
//@include lib/rs/native.rs
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;
use std::fmt;
pub type Round = u32; pub type Epoch = u32; pub type VotingPower = u64; pub type TimestampSec = u64; pub type WorkerId = u16;
pub use indexmap::IndexMap;
fn mix(mut z: u64) -> u64 { z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
// C06: votes on other members' headers, by requests that overlap, are dropped, fail and are cut by crashes
macro_rules! id { ($n:ident) => {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct $n(pub u64);
    impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
} }
id!(HeaderDigest); id!(BlsPublicKey); id!(BlsSignature); id!(BlockHash); id!(VoteDigest);
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct BlockNumHash { pub number: u64, pub hash: BlockHash }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct AuthorityIdentifier(pub u64);
impl fmt::Display for AuthorityIdentifier { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Digest<const N: usize>(pub u64);
impl<const N: usize> fmt::Display for Digest<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
#[derive(Debug)] pub struct SendError<T>(pub T);
impl<T> fmt::Display for SendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "closed") } }
pub mod crypto { pub const DIGEST_LENGTH: usize = 32; }
pub mod error {
//@module file=crates/types/src/error.rs keep=error,from,derive,source,macro_export
//@end
}
pub use error::*;
/// a header digest under the consensus intent
pub struct IntentMessage<T>(pub T);
pub fn to_intent_message<T>(t: T) -> IntentMessage<T> { IntentMessage(t) }
/// signature of `d` by the holder of `k`
pub fn sign(k: BlsPublicKey, d: HeaderDigest) -> BlsSignature { BlsSignature(mix(k.0.wrapping_mul(0x9E3779B97F4A7C15) ^ mix(d.0))) }
impl BlsSignature { pub fn verify_secure(&self, m: &IntentMessage<HeaderDigest>, k: &BlsPublicKey) -> bool { *self == sign(*k, m.0) } }
/// the sum of the signatures
#[derive(Clone)] pub struct BlsAggregateSignature(pub BlsSignature);
#[derive(Debug)] pub struct BlstError;
impl BlsAggregateSignature {
    pub fn aggregate(v: &[BlsSignature], _check: bool) -> Result<Self, BlstError> { if v.is_empty() { return Err(BlstError); } Ok(Self(BlsSignature(v.iter().fold(0u64, |a, s| a.wrapping_add(s.0))))) }
    pub fn to_signature(&self) -> BlsSignature { self.0 }
    pub fn from_signature(s: &BlsSignature) -> Self { Self(*s) }
    pub fn verify_secure(&self, m: &IntentMessage<HeaderDigest>, ks: &[BlsPublicKey]) -> bool { !ks.is_empty() && self.0 .0 == ks.iter().fold(0u64, |a, k| a.wrapping_add(sign(*k, m.0).0)) }
}
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Authority { id: AuthorityIdentifier, key: BlsPublicKey }
impl Authority { pub fn id(&self) -> AuthorityIdentifier { self.id.clone() } pub fn protocol_key(&self) -> &BlsPublicKey { &self.key } pub fn voting_power(&self) -> u64 { 1 } }
/// thresholds as C01 decides
#[derive(Clone, Debug)] pub struct Committee { m: BTreeMap<AuthorityIdentifier, Authority>, epoch: Epoch, workers: usize }
pub fn quorum_threshold(n: u64) -> u64 { 2 * n / 3 + 1 }
impl Committee {
    pub fn authorities(&self) -> Vec<Authority> { self.m.values().cloned().collect() }
    pub fn authority(&self, i: &AuthorityIdentifier) -> Option<Authority> { self.m.get(i).cloned() }
    pub fn is_authority(&self, i: &AuthorityIdentifier) -> bool { self.m.contains_key(i) }
    pub fn size(&self) -> usize { self.m.len() }
    pub fn epoch(&self) -> Epoch { self.epoch }
    pub fn number_of_workers(&self) -> usize { self.workers }
    pub fn bls_keys(&self) -> BTreeSet<BlsPublicKey> { self.m.values().map(|a| a.key).collect() }
    pub fn voting_power_by_id(&self, i: &AuthorityIdentifier) -> u64 { self.m.contains_key(i) as u64 }
    pub fn voting_power(&self, k: &BlsPublicKey) -> u64 { self.m.values().any(|a| a.key == *k) as u64 }
    pub fn validity_threshold(&self) -> u64 { (self.m.len() as u64 + 2) / 3 }
    pub fn quorum_threshold(&self) -> u64 { quorum_threshold(self.m.len() as u64) }
    pub fn total_voting_power(&self) -> u64 { self.m.len() as u64 }
}
pub mod committee { pub use crate::quorum_threshold; }
pub trait Hash { fn digest(&self) -> HeaderDigest; }
thread_local! { static CLOCK: std::cell::Cell<u64> = const { std::cell::Cell::new(1_700_000_000) }; }
fn now() -> u64 { CLOCK.with(|c| c.get()) }
//@item file=crates/types/src/primary/mod.rs path="const MAX_HEADER_NUM_OF_BATCHES"
//@end
#[derive(Debug)]
//@item file=crates/types/src/primary/header.rs path="struct HeaderInner"
//@end
impl Default for HeaderInner {
//@fn file=crates/types/src/primary/header.rs path="impl Default for HeaderInner :: fn default" trait
//@end
}
impl Hash for HeaderInner { fn digest(&self) -> HeaderDigest {
    let s = format!("{:?}", (&self.author, self.round, self.epoch, self.created_at, &self.payload, &self.parents, &self.latest_execution_block, self.seed_signature));
    HeaderDigest(mix(s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))) } }
#[derive(Clone, Default, Debug)]
//@item file=crates/types/src/primary/header.rs path="struct Header"
//@end
#[derive(Default, Debug)]
//@item file=crates/types/src/primary/header.rs path="struct HeaderBuilder"
//@end
impl Header {
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn new"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn digest"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn validate"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn author"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn round"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn epoch"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn created_at"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn payload"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn parents"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn latest_execution_block"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn seed_signature"
//@end
    pub fn raw_seed(&self) -> BlsSignature { self.inner.seed_signature }
}
impl HeaderBuilder {
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn build"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn author"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn round"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn epoch"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn created_at"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn payload"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn parents"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn latest_execution_block"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn seed_signature"
//@end
}
#[derive(Clone, Debug, PartialEq)]
//@item file=crates/types/src/primary/certificate.rs path="enum SignatureVerificationState"
//@end
impl Default for SignatureVerificationState {
//@fn file=crates/types/src/primary/certificate.rs path="impl Default for SignatureVerificationState :: fn default" trait
//@end
}
#[derive(Default, Clone, Debug)]
//@item file=crates/types/src/primary/certificate.rs path="struct Certificate"
//@end
impl Certificate {
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn into_header"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn genesis"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn new_unverified"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn new_internal"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn signed_by"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn signed_authorities_with_committee"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn validate_and_verify"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn verify_cert"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn verify_signature"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn validate_received"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn round"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn epoch"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn origin"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn header"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn aggregated_signature"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn signature_verification_state"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn set_signature_verification_state"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn signed_authorities"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn is_verified"
//@end
    pub fn raw(header: Header, st: SignatureVerificationState, b: roaring::RoaringBitmap) -> Self { Self { header, signature_verification_state: st, signed_authorities: b } }
}
impl Hash for Certificate {
//@fn file=crates/types/src/primary/certificate.rs path="impl Hash for Certificate :: fn digest" trait
//@end
}
impl PartialEq for Certificate {
//@fn file=crates/types/src/primary/certificate.rs path="impl PartialEq for Certificate :: fn eq" trait
//@end
}

impl From<AuthorityIdentifier> for u64 { fn from(a: AuthorityIdentifier) -> u64 { a.0 } }
impl From<BlsPublicKey> for AuthorityIdentifier { fn from(k: BlsPublicKey) -> Self { AuthorityIdentifier(mix(k.0) >> 1) } }
impl From<HeaderDigest> for VoteDigest { fn from(d: HeaderDigest) -> Self { VoteDigest(d.0) } }
impl From<VoteDigest> for HeaderDigest { fn from(d: VoteDigest) -> Self { HeaderDigest(d.0) } }
impl From<HeaderDigest> for Digest<32> { fn from(d: HeaderDigest) -> Self { Digest(d.0) } }
pub fn encode(m: &IntentMessage<Digest<32>>) -> Vec<u8> { m.0.0.to_le_bytes().to_vec() }
pub trait BlsSigner { fn request_signature_direct(&self, m: &[u8]) -> BlsSignature; }
pub struct KeyConfig { key: BlsPublicKey }
impl BlsSigner for KeyConfig { fn request_signature_direct(&self, m: &[u8]) -> BlsSignature { sign(self.key, HeaderDigest(u64::from_le_bytes(m.try_into().unwrap()))) } }
#[derive(Clone, Debug)]
//@item file=crates/types/src/primary/vote.rs path="struct Vote"
//@end
#[derive(Clone, Debug, PartialEq, Eq)]
//@item file=crates/types/src/primary/vote.rs path="struct VoteInfo"
//@end
impl Vote {
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn new"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn header_digest"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn round"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn epoch"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn origin"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn author"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn signature"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Hash for Vote :: fn digest"
//@end
}
impl VoteInfo {
//@fn file=crates/types/src/primary/vote.rs path="impl VoteInfo :: fn epoch"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl VoteInfo :: fn round"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl VoteInfo :: fn vote_digest"
//@end
}
impl From<&Vote> for VoteInfo {
//@fn file=crates/types/src/primary/vote.rs path="impl From<&Vote> for VoteInfo :: fn from" trait
//@end
}
// ------------------------------------------------------------------ the world a node sees
const FORK: Epoch = 3;
pub fn seed_signature_active(e: Epoch) -> bool { e >= FORK }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct EpochDigest(u64);
pub struct EpochSeedMessage(Epoch, Round, EpochDigest);
fn seed_sign(k: BlsPublicKey, e: Epoch, r: Round, p: EpochDigest) -> BlsSignature { BlsSignature(mix(mix(k.0 ^ 0x5eed) ^ mix(((e as u64) << 32) | r as u64) ^ mix(p.0))) }
impl EpochSeedMessage { pub fn new(e: Epoch, r: Round, p: EpochDigest) -> Self { Self(e, r, p) } pub fn verify(&self, s: &BlsSignature, k: &BlsPublicKey) -> bool { *s == seed_sign(*k, self.0, self.1, self.2) } }
/// gives way `n` times
struct Yield(u32);
impl std::future::Future for Yield { type Output = (); fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> { if self.0 == 0 { return std::task::Poll::Ready(()); } self.0 -= 1; cx.waker().wake_by_ref(); std::task::Poll::Pending } }
thread_local! { static DICE: std::cell::RefCell<vx::Rng> = std::cell::RefCell::new(vx::Rng::new(1)); static CUR: std::cell::RefCell<AuthorityIdentifier> = Default::default(); static WRONG: std::cell::RefCell<Vec<String>> = Default::default(); }
fn dice(n: u64) -> u64 { DICE.with(|d| d.borrow_mut().below(n)) }
async fn pause() { Yield(dice(4) as u32).await }
mod tokio {
    pub mod time {
        pub mod error { #[derive(Debug)] pub struct Elapsed; }
        /// runs out after some number of polls
        pub async fn timeout<F: std::future::Future>(_d: std::time::Duration, f: F) -> Result<F::Output, error::Elapsed> {
            let mut f = std::pin::pin!(f); let mut left = 5 + crate::dice(120);
            std::future::poll_fn(move |cx| { if let std::task::Poll::Ready(x) = f.as_mut().poll(cx) { return std::task::Poll::Ready(Ok(x)); } if left == 0 { return std::task::Poll::Ready(Err(error::Elapsed)); } left -= 1; std::task::Poll::Pending }).await
        }
        pub async fn sleep(d: std::time::Duration) { crate::pause().await; crate::CLOCK.with(|c| c.set(c.get() + d.as_secs())); }
    }
}
use std::time::Duration;
use ::tokio::sync::Mutex as TokioMutex;
use parking_lot::Mutex;
use futures::{stream::FuturesOrdered, StreamExt as _};
pub struct Votes;
/// the table of votes: what reads see, what is on disk, what waits to be written
#[derive(Default)] pub struct Db { mem: BTreeMap<AuthorityIdentifier, VoteInfo>, disk: BTreeMap<AuthorityIdentifier, VoteInfo>, queue: Vec<(AuthorityIdentifier, VoteInfo)>, poisoned: bool, read_fails: bool, write_fails: bool }
#[derive(Clone)] pub struct Store { db: Arc<Mutex<Db>>, certs: Arc<Mutex<HashMap<HeaderDigest, Certificate>>> }
fn flush(d: &mut Db, n: usize) { if d.poisoned { return; } let n = n.min(d.queue.len()); for (k, v) in d.queue.drain(..n).collect::<Vec<_>>() { d.disk.insert(k, v); } }
impl Store {
    pub fn insert<T>(&self, k: &AuthorityIdentifier, v: &VoteInfo) -> eyre::Result<()> { let mut d = self.db.lock(); if d.write_fails && dice(2) == 0 { return Err(eyre::eyre!("write")); } d.mem.insert(k.clone(), v.clone()); d.queue.push((k.clone(), v.clone())); Ok(()) }
    pub fn get<T>(&self, k: &AuthorityIdentifier) -> eyre::Result<Option<VoteInfo>> { let d = self.db.lock(); if d.read_fails && dice(2) == 0 { return Err(eyre::eyre!("read")); } Ok(d.mem.get(k).cloned()) }
    /// the barrier: what was staged when it was called is on disk, unless a commit failed
    pub async fn persist<T>(&self) -> eyre::Result<()> { let n = self.db.lock().queue.len(); let _ = n; pause().await; let mut d = self.db.lock(); if d.poisoned { return Err(eyre::eyre!("commit failed")); } let n = d.queue.len(); flush(&mut d, n); Ok(()) }
    pub async fn notify_read(&self, d: HeaderDigest) -> eyre::Result<Certificate> { loop { if let Some(c) = self.certs.lock().get(&d) { return Ok(c.clone()); } Yield(1).await; } }
//@fn file=crates/storage/src/stores/vote_digest_store.rs path="impl VoteDigestStore for DB :: fn write_vote"
//@end
//@fn file=crates/storage/src/stores/vote_digest_store.rs path="impl VoteDigestStore for DB :: fn read_vote_info"
//@end
}
#[derive(Clone, Copy)] pub struct SyncCfg { pub max_header_time_drift_tolerance: u64, pub max_proposed_header_age_limit: Round }
pub struct NetCfg { s: SyncCfg } impl NetCfg { pub fn sync_config(&self) -> &SyncCfg { &self.s } }
pub struct Parameters { pub gc_depth: Round, pub max_header_delay: Duration } pub struct Config { pub parameters: Parameters }
pub struct Shutdown(std::sync::atomic::AtomicBool); impl Shutdown { pub fn notify(&self) { self.0.store(true, std::sync::atomic::Ordering::Relaxed); } }
pub struct Inner { com: Committee, me: Option<AuthorityIdentifier>, key: KeyConfig, prior: EpochDigest, net: NetCfg, cfg: Config, shut: Shutdown, genesis: HashMap<HeaderDigest, Certificate> }
#[derive(Clone)] pub struct ConsensusConfig<DB> { i: Arc<Inner>, db: DB }
impl<DB> ConsensusConfig<DB> {
    pub fn committee(&self) -> &Committee { &self.i.com } pub fn authority_id(&self) -> Option<AuthorityIdentifier> { self.i.me.clone() } pub fn key_config(&self) -> &KeyConfig { &self.i.key }
    pub fn prior_epoch_record(&self) -> EpochDigest { self.i.prior } pub fn parameters(&self) -> &Parameters { &self.i.cfg.parameters } pub fn config(&self) -> &Config { &self.i.cfg } pub fn network_config(&self) -> &NetCfg { &self.i.net }
    pub fn shutdown(&self) -> &Shutdown { &self.i.shut } pub fn genesis(&self) -> &HashMap<HeaderDigest, Certificate> { &self.i.genesis } pub fn node_storage(&self) -> &DB { &self.db }
}
pub struct WaitForExecutionElapsed;
#[derive(Default)] pub struct Sees { executed: HashSet<u64>, batches: HashSet<BlockHash>, committed: Round, asked: HashMap<(Round, HeaderDigest), AuthorityIdentifier> }
#[derive(Clone)] pub struct ConsensusBusApp(Arc<Mutex<Sees>>);
impl ConsensusBusApp {
    pub fn committed_round(&self) -> Round { self.0.lock().committed } pub fn primary_round(&self) -> Round { self.0.lock().committed + 2 }
    pub fn latest_execution_block_num_hash(&self) -> BlockNumHash { BlockNumHash::default() }
    pub async fn wait_for_execution(&self, b: BlockNumHash) -> Result<(), WaitForExecutionElapsed> { pause().await; for _ in 0..6 { if self.0.lock().executed.contains(&b.hash.0) { return Ok(()); } Yield(1).await; } Err(WaitForExecutionElapsed) }
}
#[derive(Debug, thiserror::Error)] pub enum CertManagerError { #[error("{0}")] Certificate(#[from] CertificateError), #[error("pending")] Pending(HeaderDigest) }
pub type CertManagerResult<T> = Result<T, CertManagerError>;
#[derive(Debug)] pub enum PrimaryNetworkError { InvalidHeader(HeaderError), Certificate(CertManagerError), Storage(StoreError), Timeout(tokio::time::error::Elapsed), InvalidRequest(String), Internal(String) }
impl fmt::Display for PrimaryNetworkError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
impl From<HeaderError> for PrimaryNetworkError { fn from(e: HeaderError) -> Self { Self::InvalidHeader(e) } }
impl From<CertManagerError> for PrimaryNetworkError { fn from(e: CertManagerError) -> Self { Self::Certificate(e) } }
impl From<StoreError> for PrimaryNetworkError { fn from(e: StoreError) -> Self { Self::Storage(e) } }
impl From<tokio::time::error::Elapsed> for PrimaryNetworkError { fn from(e: tokio::time::error::Elapsed) -> Self { Self::Timeout(e) } }
pub type PrimaryNetworkResult<T> = Result<T, PrimaryNetworkError>;
#[derive(Clone, Debug)] pub struct PrimaryRPCError(pub String);
#[derive(Clone, Debug)] pub enum PrimaryResponse { Vote(Vote), MissingParents(Vec<HeaderDigest>), Error(PrimaryRPCError), RecoverableError(PrimaryRPCError) }
impl PrimaryResponse { pub fn into_error_ref(e: &PrimaryNetworkError) -> Self { match e { PrimaryNetworkError::InvalidHeader(HeaderError::InvalidEpoch { ours, theirs }) if *theirs == ours + 1 => Self::RecoverableError(PrimaryRPCError(e.to_string())), _ => Self::Error(PrimaryRPCError(e.to_string())) } } }
pub trait Database: Send + Sync + Clone + 'static {}
impl Database for Store {}
#[derive(Clone)] pub struct HeaderValidator<DB> { consensus_bus: ConsensusBusApp, config: ConsensusConfig<DB> }
#[derive(Clone)] pub struct StateSynchronizer<DB> { header_validator: HeaderValidator<DB> }
impl HeaderValidator<Store> {
//@fn file=crates/consensus/primary/src/state_sync/header_validator.rs path="impl HeaderValidator :: fn notify_read_parent_certificates"
//@end
}
impl StateSynchronizer<Store> {
//@fn file=crates/consensus/primary/src/state_sync/mod.rs path="impl StateSynchronizer :: fn notify_read_parent_certificates"
//@end
    pub async fn sync_header_batches(&self, h: &Header, certified: bool, _max_age: Round) -> HeaderResult<()> { pause().await; for _ in 0..6 { if h.payload().keys().all(|b| self.header_validator.consensus_bus.0.lock().batches.contains(b)) { return Ok(()); } Yield(1).await; } Err(HeaderError::PendingCertificateOneshot) }
    pub async fn identify_unkown_parents(&self, h: &Header) -> HeaderResult<Vec<HeaderDigest>> { pause().await; Ok(h.parents().iter().filter(|d| !self.header_validator.config.db.certs.lock().contains_key(d) && !self.header_validator.config.i.genesis.contains_key(d)).copied().collect()) }
    /// the certificate as C02 takes it
    pub async fn process_peer_certificate(&self, c: &mut Certificate) -> CertManagerResult<()> {
        let v = &self.header_validator;
        if !matches!(c.signature_verification_state(), SignatureVerificationState::Unverified(_)) { WRONG.with(|w| w.borrow_mut().push(format!("certificate of round {} handed on as already verified", c.round()))); }
        if v.consensus_bus.0.lock().asked.get(&(c.round(), c.digest())) != Some(&CUR.with(|a| a.borrow().clone())) { WRONG.with(|w| w.borrow_mut().push(format!("certificate of round {} taken from an author who was not asked for it", c.round()))); }
        pause().await;
        if !attested(&v.config.i.com, c) || !fine(&v.config.i.com, c.header()) { return Err(CertificateError::RecoverBlsAggregateSignatureBytes.into()); }
        if !c.header().parents().iter().all(|p| v.config.db.certs.lock().contains_key(p) || v.config.i.genesis.contains_key(p)) { return Err(CertManagerError::Pending(c.digest())); }
        v.config.db.certs.lock().insert(c.digest(), c.clone()); Ok(())
    }
}
//@item file=crates/consensus/primary/src/network/handler.rs path="type AuthEquivocationMap"
//@end
#[derive(Clone)] pub struct RequestHandler<DB> { consensus_config: ConsensusConfig<DB>, consensus_bus: ConsensusBusApp, state_sync: StateSynchronizer<DB>, requested_parents: Arc<Mutex<BTreeMap<(Round, HeaderDigest), AuthorityIdentifier>>>, auth_last_vote: Arc<AuthEquivocationMap> }
impl RequestHandler<Store> {
//@fn file=crates/consensus/primary/src/network/handler.rs path="impl RequestHandler :: fn vote"
//@end
//@fn file=crates/consensus/primary/src/network/handler.rs path="impl RequestHandler :: fn vote_inner"
//@end
//@fn file=crates/consensus/primary/src/network/handler.rs path="impl RequestHandler :: fn check_for_missing_parents"
//@end
//@fn file=crates/consensus/primary/src/network/handler.rs path="impl RequestHandler :: fn try_accept_unknown_certs"
//@end
}
// ------------------------------------------------------------------ the drivers
use vx::Rng;
type St = SignatureVerificationState;
fn com(r: &mut Rng, n: usize, epoch: Epoch) -> Committee {
    let mut m = BTreeMap::new(); while m.len() < n { let k = BlsPublicKey(r.next()); let id: AuthorityIdentifier = k.into(); m.insert(id.clone(), Authority { id, key: k }); }
    Committee { m, epoch, workers: 1 + r.us(3) }
}
fn marked(c: &Committee, cert: &Certificate) -> Vec<BlsPublicKey> { let ks: Vec<_> = c.bls_keys().into_iter().collect(); cert.signed_authorities().iter().filter_map(|i| ks.get(i as usize).copied()).collect() }
fn attested(c: &Committee, cert: &Certificate) -> bool { let ks = marked(c, cert); ks.len() as u64 >= quorum_threshold(c.size() as u64) && cert.aggregated_signature().map_or(false, |s| s.0 == ks.iter().fold(0u64, |a, k| a.wrapping_add(sign(*k, cert.header().digest()).0))) }
fn fine(c: &Committee, h: &Header) -> bool { h.epoch() == c.epoch && c.m.contains_key(h.author()) && h.parents().len() <= c.size() && h.payload().len() <= MAX_HEADER_NUM_OF_BATCHES && h.payload().values().all(|w| (*w as usize) < c.workers) }
fn certify(r: &mut Rng, c: &Committee, h: Header) -> Certificate {
    let ks: Vec<_> = c.bls_keys().into_iter().collect(); let mut ix: Vec<usize> = (0..ks.len()).collect(); r.shuffle(&mut ix); ix.truncate(quorum_threshold(ks.len() as u64) as usize);
    let b: roaring::RoaringBitmap = ix.iter().map(|i| *i as u32).collect(); let s = ix.iter().fold(0u64, |a, i| a.wrapping_add(sign(ks[*i], h.digest()).0));
    Certificate::raw(h, St::Unverified(BlsSignature(s)), b)
}
struct Net { com: Committee, prior: EpochDigest, me: usize, ids: Vec<AuthorityIdentifier>, layers: Vec<Vec<Certificate>>, genesis: HashMap<HeaderDigest, Certificate>, exec: Vec<u64>, known: HashSet<BlockHash> }
fn header(r: &mut Rng, n: &mut Net, who: &AuthorityIdentifier, round: Round, ps: &[Certificate], fault: u64) -> Header {
    let mut p = IndexMap::new(); for _ in 0..r.us(3) { let b = BlockHash(r.next()); n.known.insert(b); p.insert(b, r.us(n.com.workers) as WorkerId); }
    if fault == 1 { p.insert(BlockHash(r.next()), 0); } if fault == 2 { p.insert(BlockHash(r.next()), 9); }
    let base = ps.iter().map(|c| *c.header().created_at()).max().unwrap_or(1_699_999_000);
    let at = match fault { 3 => base.saturating_sub(1 + r.below(5)), 4 => now() + 60 + r.below(1000), 5 => now() + r.below(7), _ => base + r.below(3) };
    let e = if fault == 6 { n.com.epoch + 1 } else if fault == 7 { n.com.epoch.saturating_sub(1) } else { n.com.epoch };
    let key = n.com.m.get(who).map(|a| a.key).unwrap_or_default();
    let seed = match fault { 8 => BlsSignature(r.next()), 9 => seed_sign(key, e, round + 1, n.prior), 14 => seed_sign(BlsPublicKey(r.next()), e, round, n.prior), _ => seed_sign(key, e, round, n.prior) };
    let x = if fault == 10 { r.next() } else { n.exec[r.us(n.exec.len())] };
    HeaderBuilder::default().author(who.clone()).round(round).epoch(e).created_at(at).payload(p).parents(ps.iter().map(|c| c.digest()).collect()).latest_execution_block(BlockNumHash { number: 1, hash: BlockHash(x) }).seed_signature(seed).build()
}
fn net(r: &mut Rng, size: usize, epoch: Epoch, top: usize) -> Net {
    let com = com(r, size, epoch); let ids: Vec<_> = com.m.keys().cloned().collect();
    let gs = Certificate::genesis(&com); let genesis = gs.iter().map(|c| (c.digest(), c.clone())).collect();
    let exec = (0..3).map(|_| r.next()).collect();
    let mut n = Net { prior: EpochDigest(r.next()), me: r.us(size), com, ids, layers: vec![gs], genesis, exec, known: HashSet::new() };
    for round in 1..=top { let mut l = vec![]; for i in 0..size { let mut ps = n.layers[round - 1].clone(); r.shuffle(&mut ps); let mut seen = BTreeSet::new(); ps.retain(|c| seen.insert(c.origin().clone())); ps.truncate(quorum_threshold(size as u64) as usize + r.us(2)); let who = n.ids[i].clone(); let h = header(r, &mut n, &who, round as Round, &ps, 0); let com = n.com.clone(); l.push(certify(r, &com, h));
        if r.chance(1, 6) { let h = header(r, &mut n, &who, round as Round, &ps, 0); l.push(certify(r, &com, h)); } } n.layers.push(l); }
    n
}
/// the definition: what a header a node may vote for is
fn votable(n: &Net, h: &Header, certs: &HashMap<HeaderDigest, Certificate>, sees: &Sees, drift: u64) -> Result<(), String> {
    let no = |s: &str| Err(s.to_string());
    if !fine(&n.com, h) { return no("it is not a well formed header of a member for this epoch"); }
    if h.round() == 0 { return no("it is of round 0"); }
    if seed_signature_active(h.epoch()) && h.raw_seed() != seed_sign(n.com.m[h.author()].key, n.com.epoch, h.round(), n.prior) { return no("its seed signature is not the author's"); }
    if !sees.executed.contains(&h.latest_execution_block().hash.0) { return no("its execution block is unknown here"); }
    if !h.payload().keys().all(|b| sees.batches.contains(b)) { return no("its batches are not here"); }
    let mut who = BTreeSet::new();
    for p in h.parents() {
        let c = match (if h.round() == 1 { n.genesis.get(p) } else { certs.get(p) }) { Some(c) => c, None => return no("a parent is not accepted here") };
        if c.epoch() != h.epoch() || c.round() + 1 != h.round() { return no("a parent is not of the round before"); }
        if c.header().created_at() > h.created_at() { return no("it is older than a parent"); }
        if !who.insert(c.origin().clone()) { return no("two parents of one author"); }
    }
    if (who.iter().filter(|a| n.com.m.contains_key(a)).count() as u64) < quorum_threshold(n.com.m.len() as u64) { return no("its parents are not a quorum"); }
    if *h.created_at() > now() + drift { return no("it is from the future"); }
    Ok(())
}
fn node(n: &Net, store: &Store, sees: &ConsensusBusApp, member: bool) -> RequestHandler<Store> {
    let me = n.ids[n.me].clone(); let key = KeyConfig { key: n.com.m[&me].key };
    let i = Arc::new(Inner { com: n.com.clone(), me: member.then_some(me), key, prior: n.prior, net: NetCfg { s: SyncCfg { max_header_time_drift_tolerance: 3, max_proposed_header_age_limit: 4 } }, cfg: Config { parameters: Parameters { gc_depth: 8, max_header_delay: Duration::from_secs(1) } }, shut: Shutdown(false.into()), genesis: n.genesis.clone() });
    let c = ConsensusConfig { i, db: store.clone() };
    RequestHandler { consensus_config: c.clone(), consensus_bus: sees.clone(), state_sync: StateSynchronizer { header_validator: HeaderValidator { consensus_bus: sees.clone(), config: c } }, requested_parents: Default::default(), auth_last_vote: Arc::new(n.ids.iter().map(|a| (a.clone(), TokioMutex::new(None))).collect()) }
}
type Task = (Header, BlsPublicKey, std::pin::Pin<Box<dyn std::future::Future<Output = PrimaryNetworkResult<PrimaryResponse>>>>);
fn life(rep: &mut vx::Rep, faults: bool) {
    let r = &mut rep.rng.clone_(); DICE.with(|d| *d.borrow_mut() = Rng::new(r.next())); CLOCK.with(|c| c.set(1_700_000_000)); WRONG.with(|w| w.borrow_mut().clear());
    let size = 2 + r.us(6); let mut epoch = r.below(5) as Epoch + 1; let mut n = net(r, size, epoch, 3);
    let mut store = Store { db: Default::default(), certs: Default::default() }; let mut sees = ConsensusBusApp(Default::default());
    let learn = |r: &mut Rng, n: &Net, store: &Store, sees: &ConsensusBusApp| { let mut s = sees.0.lock(); s.executed = n.exec.iter().copied().collect(); s.batches = n.known.clone(); let cut = r.us(n.layers.len()); for l in &n.layers[..cut.max(1)] { for c in l { if r.chance(9, 10) { store.certs.lock().insert(c.digest(), c.clone()); } } } };
    learn(r, &n, &store, &sees);
    let mut h = node(&n, &store, &sees, !r.chance(1, 30));
    let mut pool: Vec<(Header, Vec<Certificate>)> = vec![]; let mut tasks: Vec<Task> = vec![]; let mut missing: HashMap<HeaderDigest, Vec<HeaderDigest>> = HashMap::new();
    let mut issued: BTreeMap<(AuthorityIdentifier, Epoch, Round), HeaderDigest> = BTreeMap::new(); let mut log: Vec<String> = vec![]; let mut votes = 0; let mut recast = 0;
    let mut ever: HashMap<HeaderDigest, Certificate> = HashMap::new(); let steps = 60 + r.us(200); let mut crashes = 0;
    for step in 0..steps {
        match r.below(if faults { 24 } else { 19 }) {
            0..=5 => { // a request
                if pool.is_empty() || r.chance(1, 2) {
                    let who = if r.chance(1, 30) { AuthorityIdentifier(5) } else { n.ids[r.us(size.min(3))].clone() }; let round = if r.chance(1, 25) { 0 } else { 1 + r.us(3) };
                    let mut ps = n.layers[round.max(1) - 1].clone(); if r.chance(1, 12) { ps = n.layers[r.us(n.layers.len())].clone(); } r.shuffle(&mut ps);
                    let fault = if r.chance(1, 3) { 1 + r.below(14) } else { 0 };
                    if fault != 11 { let mut seen = BTreeSet::new(); ps.retain(|c| seen.insert(c.origin().clone())); }
                    let q = quorum_threshold(size as u64) as usize; ps.truncate(if fault == 12 { q - 1 } else { (q + r.us(3)).min(size) });
                    let hd = header(r, &mut n, &who, round as Round, &ps, fault); let s = if fault == 1 { 0 } else { 1 }; if s == 1 { let mut g = sees.0.lock(); for b in hd.payload().keys() { if n.known.contains(b) { g.batches.insert(*b); } } }
                    pool.push((hd, ps)); if pool.len() > 12 { pool.remove(0); }
                }
                let (hd, ps) = pool[r.us(pool.len())].clone(); let key = n.com.m.get(hd.author()).map(|a| a.key).unwrap_or(BlsPublicKey(1)); let peer = if r.chance(1, 20) { n.com.m[&n.ids[r.us(size)]].key } else { key };
                let mut with: Vec<Certificate> = vec![];
                if let Some(m) = missing.get(&hd.digest()) { if r.chance(4, 5) { with = ps.iter().filter(|c| m.contains(&c.digest())).cloned().collect(); if r.chance(1, 8) { with.pop(); } if r.chance(1, 8) && !with.is_empty() { let l = with.len(); let c = &with[l - 1]; with[l - 1] = Certificate::raw(c.header().clone(), St::VerifiedIndirectly(BlsSignature(r.next())), c.signed_authorities().clone()); } } }
                else if r.chance(1, 10) { with = ps.clone(); }
                let h2 = h.clone(); let hd2 = hd.clone(); if log.len() < 60 { log.push(format!("ask {} r{} {} parents", hd.digest(), hd.round(), with.len())); }
                tasks.push((hd, peer, Box::pin(async move { h2.vote(peer, hd2, with).await })));
            }
            6..=15 => { // run
                for _ in 0..1 + r.us(30) { if tasks.is_empty() { break; } let i = r.us(tasks.len()); CUR.with(|c| *c.borrow_mut() = tasks[i].0.author().clone());
                    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
                    let out = { let f = &mut tasks[i].2; match vx::guard(|| f.as_mut().poll(&mut cx)) { Ok(x) => x, Err(e) => { rep.fail("panic", format!("vote on a header of round {}: {e}", tasks[i].0.round())); tasks.clear(); break; } } };
                    for w in WRONG.with(|w| w.borrow_mut().drain(..).collect::<Vec<_>>()) { rep.fail("parents-taken", w); }
                    if let std::task::Poll::Ready(res) = out {
                        let (hd, peer, _) = tasks.swap_remove(i);
                        match res {
                            Ok(PrimaryResponse::Vote(v)) => {
                                votes += 1; let slot = (hd.author().clone(), hd.epoch(), hd.round()); let what = || format!("header {} of {} round {} epoch {} (step {step}, {crashes} crashes; {})", hd.digest(), hd.author(), hd.round(), hd.epoch(), log.iter().rev().take(12).cloned().collect::<Vec<_>>().join(", "));
                                let me = &n.ids[n.me]; let dg = v.header_digest;
                                rep.check(v.header_digest == hd.digest() && v.round == hd.round() && v.epoch == hd.epoch() && v.origin == *hd.author() && v.author == *me && v.signature == sign(n.com.m[me].key, hd.digest()), "wrong-vote", || format!("vote {v:?} for {}", what()));
                                rep.check(AuthorityIdentifier::from(peer) == *hd.author(), "not-the-author", || format!("a vote for a header asked by another than its author: {}", what()));
                                match issued.get(&slot) { Some(d) => { recast += 1; rep.check(*d == dg, "two-votes", || format!("voted for {d} and then for {}", what())); }
                                    None => { if let Err(e) = { ever.extend(store.certs.lock().iter().map(|(d, c)| (*d, c.clone()))); votable(&n, &hd, &ever, &sees.0.lock(), 3) } { rep.fail("vote-not-earned", format!("a vote, although {e}: {}", what())); } issued.insert(slot, dg); } }
                                let d = store.db.lock(); let rec = d.disk.get(hd.author()).cloned();
                                rep.check(rec.as_ref().map_or(false, |x| x.epoch > hd.epoch() || (x.epoch == hd.epoch() && (x.round > hd.round() || (x.round == hd.round() && x.vote_digest == hd.digest().into())))), "not-durable", || format!("a vote is out and the record on disk is {rec:?}: {}", what()));
                                if log.len() < 60 { log.push(format!("vote {}", hd.digest())); }
                            }
                            Ok(PrimaryResponse::MissingParents(m)) => { let mut s = sees.0.lock(); for d in &m { s.asked.insert((hd.round() - 1, *d), hd.author().clone()); } missing.insert(hd.digest(), m); }
                            _ => {}
                        }
                    } }
            }
            16 => { let mut d = store.db.lock(); let k = r.us(3); flush(&mut d, k); }
            17 => { CLOCK.with(|c| c.set(c.get() + r.below(4))); sees.0.lock().committed += r.below(2) as Round; }
            18 => { let l = &n.layers[r.us(n.layers.len())]; let c = &l[r.us(l.len())]; store.certs.lock().insert(c.digest(), c.clone()); }
            19 => { if !tasks.is_empty() { let i = r.us(tasks.len()); drop(tasks.swap_remove(i)); log.push("drop".into()); } }
            20 => { store.db.lock().poisoned = r.chance(1, 3); store.db.lock().read_fails = r.chance(1, 4); store.db.lock().write_fails = r.chance(1, 4); }
            21 | 22 => { // crash and restart
                tasks.clear(); missing.clear(); crashes += 1; log.push("crash".into());
                let disk = store.db.lock().disk.clone(); let certs = store.certs.lock().clone(); ever.extend(certs.iter().map(|(d, c)| (*d, c.clone()))); let keep: HashMap<_, _> = certs.into_iter().filter(|_| r.chance(3, 4)).collect();
                store = Store { db: Arc::new(Mutex::new(Db { mem: disk.clone(), disk, ..Default::default() })), certs: Arc::new(Mutex::new(keep)) };
                let o = sees.0.lock(); let s = Sees { executed: o.executed.clone(), batches: o.batches.clone(), committed: o.committed, asked: HashMap::new() }; drop(o); sees = ConsensusBusApp(Arc::new(Mutex::new(s))); h = node(&n, &store, &sees, true);
            }
            _ => if r.chance(1, 4) { // the next epoch
                tasks.clear(); missing.clear(); pool.clear(); epoch += 1; let old = n; n = net(r, size, epoch, 3); let keep = old.com.m.clone(); let _ = keep;
                store.certs.lock().clear(); *sees.0.lock() = Sees::default(); learn(r, &n, &store, &sees); h = node(&n, &store, &sees, true); log.push("epoch".into());
            }
        }
        if !rep.time_left(1.0) { break; }
    }
    rep.case(votes > 0 && (crashes > 0 || recast > 0));
    rep.sample(format!("committee of {size}: {votes} votes ({recast} repeated), {crashes} crashes, {} headers of distinct slots voted", issued.len()));
}
trait CloneRng { fn clone_(&mut self) -> Rng; }
impl CloneRng for Rng { fn clone_(&mut self) -> Rng { Rng::new(self.next()) } }
fn main() { let mut rep = vx::Rep::new(); while rep.time_left(0.4) { life(&mut rep, false); } while rep.time_left(1.0) { life(&mut rep, true); } rep.finish() }
