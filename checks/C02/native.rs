#![allow(dead_code, unused)]
//@include lib/rs/native.rs
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;
use std::fmt;
pub type Round = u32; pub type Epoch = u32; pub type VotingPower = u64; pub type TimestampSec = u64; pub type WorkerId = u16;
pub use indexmap::IndexMap;
fn mix(mut z: u64) -> u64 { z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
macro_rules! id { ($n:ident) => {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct $n(pub u64);
    impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
} }
id!(HeaderDigest); id!(BlsPublicKey); id!(BlsSignature); id!(BlockHash); id!(VoteDigest);
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct BlockNumHash { pub number: u64, pub hash: BlockHash }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct AuthorityIdentifier(pub u64);
impl fmt::Display for AuthorityIdentifier { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Digest<const N: usize>(pub u64);
impl<const N: usize> fmt::Display for Digest<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
#[derive(Debug)] pub struct SendError<T>(pub T);
impl<T> fmt::Display for SendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "closed") } }
pub mod crypto { pub const DIGEST_LENGTH: usize = 32; }
pub mod error {
//@module file=crates/types/src/error.rs keep=error,from,derive,source,macro_export
//@end
}
pub use error::*;
/// a header digest under the consensus intent
pub struct IntentMessage<T>(pub T);
pub fn to_intent_message<T>(t: T) -> IntentMessage<T> { IntentMessage(t) }
/// signature of `d` by the holder of `k`
pub fn sign(k: BlsPublicKey, d: HeaderDigest) -> BlsSignature { BlsSignature(mix(k.0.wrapping_mul(0x9E3779B97F4A7C15) ^ mix(d.0))) }
impl BlsSignature { pub fn verify_secure(&self, m: &IntentMessage<HeaderDigest>, k: &BlsPublicKey) -> bool { *self == sign(*k, m.0) } }
/// the sum of the signatures
#[derive(Clone)] pub struct BlsAggregateSignature(pub BlsSignature);
#[derive(Debug)] pub struct BlstError;
impl BlsAggregateSignature {
    pub fn aggregate(v: &[BlsSignature], _check: bool) -> Result<Self, BlstError> { if v.is_empty() { return Err(BlstError); } Ok(Self(BlsSignature(v.iter().fold(0u64, |a, s| a.wrapping_add(s.0))))) }
    pub fn to_signature(&self) -> BlsSignature { self.0 }
    pub fn from_signature(s: &BlsSignature) -> Self { Self(*s) }
    pub fn verify_secure(&self, m: &IntentMessage<HeaderDigest>, ks: &[BlsPublicKey]) -> bool { !ks.is_empty() && self.0 .0 == ks.iter().fold(0u64, |a, k| a.wrapping_add(sign(*k, m.0).0)) }
}
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Authority { id: AuthorityIdentifier, key: BlsPublicKey }
impl Authority { pub fn id(&self) -> AuthorityIdentifier { self.id.clone() } pub fn protocol_key(&self) -> &BlsPublicKey { &self.key } pub fn voting_power(&self) -> u64 { 1 } }
/// thresholds as C01 decides
#[derive(Clone, Debug)] pub struct Committee { m: BTreeMap<AuthorityIdentifier, Authority>, epoch: Epoch, workers: usize }
pub fn quorum_threshold(n: u64) -> u64 { 2 * n / 3 + 1 }
impl Committee {
    pub fn authorities(&self) -> Vec<Authority> { self.m.values().cloned().collect() }
    pub fn authority(&self, i: &AuthorityIdentifier) -> Option<Authority> { self.m.get(i).cloned() }
    pub fn is_authority(&self, i: &AuthorityIdentifier) -> bool { self.m.contains_key(i) }
    pub fn size(&self) -> usize { self.m.len() }
    pub fn epoch(&self) -> Epoch { self.epoch }
    pub fn number_of_workers(&self) -> usize { self.workers }
    pub fn bls_keys(&self) -> BTreeSet<BlsPublicKey> { self.m.values().map(|a| a.key).collect() }
    pub fn voting_power_by_id(&self, i: &AuthorityIdentifier) -> u64 { self.m.contains_key(i) as u64 }
    pub fn voting_power(&self, k: &BlsPublicKey) -> u64 { self.m.values().any(|a| a.key == *k) as u64 }
    pub fn validity_threshold(&self) -> u64 { (self.m.len() as u64 + 2) / 3 }
    pub fn quorum_threshold(&self) -> u64 { quorum_threshold(self.m.len() as u64) }
    pub fn total_voting_power(&self) -> u64 { self.m.len() as u64 }
}
pub mod committee { pub use crate::quorum_threshold; }
pub trait Hash { fn digest(&self) -> HeaderDigest; }
fn now() -> u64 { 1_700_000_000 }
//@item file=crates/types/src/primary/mod.rs path="const MAX_HEADER_NUM_OF_BATCHES"
//@end
#[derive(Debug)]
//@item file=crates/types/src/primary/header.rs path="struct HeaderInner"
//@end
impl Default for HeaderInner {
//@fn file=crates/types/src/primary/header.rs path="impl Default for HeaderInner :: fn default" trait
//@end
}
impl Hash for HeaderInner { fn digest(&self) -> HeaderDigest {
    let s = format!("{:?}", (&self.author, self.round, self.epoch, self.created_at, &self.payload, &self.parents, &self.latest_execution_block, self.seed_signature));
    HeaderDigest(mix(s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))) } }
#[derive(Clone, Default, Debug)]
//@item file=crates/types/src/primary/header.rs path="struct Header"
//@end
#[derive(Default, Debug)]
//@item file=crates/types/src/primary/header.rs path="struct HeaderBuilder"
//@end
impl Header {
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn new"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn digest"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn validate"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn author"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn round"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn epoch"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn created_at"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn payload"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn parents"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn latest_execution_block"
//@end
    pub fn raw_seed(&self) -> BlsSignature { self.inner.seed_signature }
}
impl HeaderBuilder {
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn build"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn author"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn round"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn epoch"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn created_at"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn payload"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn parents"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn latest_execution_block"
//@end
//@fn file=crates/types/src/primary/header.rs path="impl HeaderBuilder :: fn seed_signature"
//@end
}
#[derive(Clone, Debug, PartialEq)]
//@item file=crates/types/src/primary/certificate.rs path="enum SignatureVerificationState"
//@end
impl Default for SignatureVerificationState {
//@fn file=crates/types/src/primary/certificate.rs path="impl Default for SignatureVerificationState :: fn default" trait
//@end
}
#[derive(Default, Clone, Debug)]
//@item file=crates/types/src/primary/certificate.rs path="struct Certificate"
//@end
impl Certificate {
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn into_header"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn genesis"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn new_unverified"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn new_internal"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn signed_by"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn signed_authorities_with_committee"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn validate_and_verify"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn verify_cert"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn verify_signature"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn validate_received"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn round"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn epoch"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn origin"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn header"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn aggregated_signature"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn signature_verification_state"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn set_signature_verification_state"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn signed_authorities"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn is_verified"
//@end
    pub fn raw(header: Header, st: SignatureVerificationState, b: roaring::RoaringBitmap) -> Self { Self { header, signature_verification_state: st, signed_authorities: b } }
}
impl Hash for Certificate {
//@fn file=crates/types/src/primary/certificate.rs path="impl Hash for Certificate :: fn digest" trait
//@end
}
impl PartialEq for Certificate {
//@fn file=crates/types/src/primary/certificate.rs path="impl PartialEq for Certificate :: fn eq" trait
//@end
}
//@fn file=crates/types/src/primary/certificate.rs path="fn validate_fetched_certificate"
//@end
#[derive(Clone, Debug)]
//@item file=crates/types/src/primary/vote.rs path="struct Vote"
//@end
impl Vote {
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn header_digest"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn round"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn epoch"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn origin"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn author"
//@end
//@fn file=crates/types/src/primary/vote.rs path="impl Vote :: fn signature"
//@end
}
//@item file=crates/consensus/primary/src/aggregators/votes.rs path="struct VotesAggregator"
//@end
impl VotesAggregator {
//@fn file=crates/consensus/primary/src/aggregators/votes.rs path="impl VotesAggregator :: fn new"
//@end
//@fn file=crates/consensus/primary/src/aggregators/votes.rs path="impl VotesAggregator :: fn append"
//@end
}
//@item file=crates/consensus/primary/src/aggregators/certificates.rs path="struct CertificatesAggregator"
//@end
impl CertificatesAggregator {
//@fn file=crates/consensus/primary/src/aggregators/certificates.rs path="impl CertificatesAggregator :: fn new"
//@end
//@fn file=crates/consensus/primary/src/aggregators/certificates.rs path="impl CertificatesAggregator :: fn append"
//@end
}
//@item file=crates/consensus/primary/src/aggregators/certificates.rs path="struct CertificatesAggregatorManager"
//@end
impl CertificatesAggregatorManager {
//@fn file=crates/consensus/primary/src/aggregators/certificates.rs path="impl CertificatesAggregatorManager :: fn new"
//@end
//@fn file=crates/consensus/primary/src/aggregators/certificates.rs path="impl CertificatesAggregatorManager :: fn append_certificate"
//@end
//@fn file=crates/consensus/primary/src/aggregators/certificates.rs path="impl CertificatesAggregatorManager :: fn garbage_collect"
//@end
}
/// what was sent to the proposer and to the certificate manager
#[derive(Clone, Default)] pub struct ConsensusBus { parents: Arc<std::sync::Mutex<Vec<(Vec<Certificate>, Round)>>>, sent: Arc<std::sync::Mutex<Vec<Vec<Certificate>>>> }
pub struct Parents(ConsensusBus);
impl ConsensusBus { pub fn parents(&self) -> Parents { Parents(self.clone()) } }
impl Parents { pub async fn send(&self, m: (Vec<Certificate>, Round)) -> Result<(), SendError<()>> { self.0.parents.lock().unwrap().push(m); Ok(()) } }
#[derive(Debug)] pub enum CertManagerError { Certificate(CertificateError), JoinError, CertificateManagerOneshot, Send, Storage }
pub type CertManagerResult<T> = Result<T, CertManagerError>;
impl From<CertificateError> for CertManagerError { fn from(e: CertificateError) -> Self { Self::Certificate(e) } }
impl<T> From<SendError<T>> for CertManagerError { fn from(_: SendError<T>) -> Self { Self::Send } }
impl From<StoreError> for CertManagerError { fn from(_: StoreError) -> Self { Self::Storage } }
pub trait Database: Send + Sync + Clone + 'static {}
#[derive(Clone)] pub struct NoDb; impl Database for NoDb {}
#[derive(Clone)] pub struct SyncCfg { pub certificate_verification_round_interval: Round, pub certificate_verification_chunk_size: usize }
#[derive(Clone)] pub struct NetCfg { s: SyncCfg }
impl NetCfg { pub fn sync_config(&self) -> &SyncCfg { &self.s } }
#[derive(Clone)] pub struct CertStore { d: HashSet<HeaderDigest> }
impl CertStore { pub fn contains(&self, d: &HeaderDigest) -> Result<bool, StoreError> { Ok(self.d.contains(d)) } }
#[derive(Clone)] pub struct ConsensusConfig<DB> { com: Committee, net: NetCfg, store: CertStore, gc: Round, db: DB }
impl<DB> ConsensusConfig<DB> { pub fn committee(&self) -> &Committee { &self.com } pub fn network_config(&self) -> &NetCfg { &self.net } pub fn node_storage(&self) -> &CertStore { &self.store } }
#[derive(Clone)] pub struct TaskSpawner;
#[derive(Clone)]
//@item file=crates/consensus/primary/src/state_sync/cert_validator.rs path="struct CertificateValidator"
//@end
impl<DB> CertificateValidator<DB> where DB: Database {
    fn gc_round(&self) -> Round { self.config.gc }
    async fn forward_verified_certs(&self, _h: Round, c: Vec<Certificate>) -> CertManagerResult<()> { self.consensus_bus.sent.lock().unwrap().push(c); Ok(()) }
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn process_own_certificate"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn process_peer_certificate"
//@sub? /\.inspect\(\|_\| \{[^{}]*\}\)/ => 
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn process_certificate"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn validate_and_verify"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn process_fetched_certificates_in_parallel"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn verify_collection"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn classify_certificates_for_verification"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn requires_direct_verification"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn mark_verified_indirectly"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn verify_certificate_chunk"
//@end
//@fn file=crates/consensus/primary/src/state_sync/cert_validator.rs path="impl CertificateValidator :: fn spawn_verification_task"
//@end
}
// ------------------------------------------------------------------ the drivers
use vx::Rng;
type St = SignatureVerificationState;
fn com(r: &mut Rng, n: usize, epoch: Epoch) -> Committee {
    let mut ids = BTreeSet::new(); while ids.len() < n { ids.insert(r.below(100_000)); }
    let mut ks = BTreeSet::new(); while ks.len() < n { ks.insert(r.next()); }
    let mut ks: Vec<u64> = ks.into_iter().collect(); r.shuffle(&mut ks);
    let m = ids.into_iter().zip(ks).map(|(i, k)| (AuthorityIdentifier(i), Authority { id: AuthorityIdentifier(i), key: BlsPublicKey(k) })).collect();
    Committee { m, epoch, workers: 1 + r.us(3) }
}
fn hdr(r: &mut Rng, c: &Committee, who: &AuthorityIdentifier, round: Round, parents: BTreeSet<HeaderDigest>) -> Header {
    let n = r.us(MAX_HEADER_NUM_OF_BATCHES.min(6) + 1); let mut p = IndexMap::new(); for _ in 0..n { p.insert(BlockHash(r.next()), r.us(c.workers) as WorkerId); }
    HeaderBuilder::default().author(who.clone()).round(round).epoch(c.epoch).created_at(r.below(1 << 40)).payload(p).parents(parents)
        .latest_execution_block(BlockNumHash { number: r.below(99), hash: BlockHash(r.next()) }).seed_signature(BlsSignature(r.next())).build()
}
/// members whose key is at the positions in the bitmap, in the order of keys
fn marked(c: &Committee, cert: &Certificate) -> Vec<BlsPublicKey> { let ks: Vec<_> = c.bls_keys().into_iter().collect(); cert.signed_authorities().iter().filter_map(|i| ks.get(i as usize).copied()).collect() }
fn attested(c: &Committee, cert: &Certificate) -> bool {
    let ks = marked(c, cert);
    ks.len() as u64 >= quorum_threshold(c.size() as u64) && cert.aggregated_signature().map_or(false, |s| s.0 == ks.iter().fold(0u64, |a, k| a.wrapping_add(sign(*k, cert.header().digest()).0)))
}
fn fine(c: &Committee, h: &Header) -> bool { h.epoch() == c.epoch && c.m.contains_key(h.author()) && h.parents().len() <= c.size() && h.payload().len() <= MAX_HEADER_NUM_OF_BATCHES && h.payload().values().all(|w| (*w as usize) < c.workers) }
fn received(cert: &Certificate, st: St) -> Certificate { Certificate::raw(cert.header().clone(), st, cert.signed_authorities().clone()) }
fn votes(rep: &mut vx::Rep, n: usize) {
    let r = &mut rep.rng.clone_(); let epoch = r.below(50) as Epoch; let c = com(r, n, epoch);
    let all = c.authorities(); let me = all[r.us(n)].id(); let round = 1 + r.below(100) as Round;
    let ps = (0..r.us(n + 1)).map(|i| HeaderDigest(mix(round as u64 ^ i as u64 ^ 77))).collect(); let h = hdr(r, &c, &me, round, ps);
    let mut ag = VotesAggregator::new(); let mut heard: BTreeSet<AuthorityIdentifier> = BTreeSet::new(); let mut good: BTreeSet<BlsPublicKey> = BTreeSet::new();
    let other = hdr(r, &c, &me, round, BTreeSet::new());
    let mut quorum_seen = false; let mut last = None;
    for step in 0..(2 * n + 4) {
        let a = &all[r.us(n)]; let mut v = Vote { header_digest: h.digest(), round, epoch: c.epoch, origin: me.clone(), author: a.id(), signature: sign(a.key, h.digest()) };
        let kind = r.below(9);
        match kind { 0 => { v.header_digest = other.digest(); v.signature = sign(a.key, other.digest()); } 1 => { let b = &all[r.us(n)]; v.signature = sign(b.key, h.digest()); } 2 => { v.signature = sign(a.key, other.digest()); } 3 => { v.author = AuthorityIdentifier(200_000 + r.below(5)); } 4 => { v.header_digest = other.digest(); } _ => {} }
        let new = heard.insert(v.author.clone());
        let key = c.authority(&v.author).map(|a| a.key);
        let want = new && v.header_digest == h.digest() && key.map_or(false, |k| v.signature == sign(k, h.digest()));
        if want { good.insert(key.unwrap()); }
        let got = vx::guard(|| ag.append(v.clone(), &c, &h));
        let full = good.len() as u64 >= quorum_threshold(n as u64);
        match got {
            Err(e) => rep.fail("append-panics", format!("committee of {n}, step {step}: {e}")),
            Ok(Err(e)) => rep.check(!want, "vote-refused", || format!("committee of {n}: a proper vote refused: {e}")),
            Ok(Ok(None)) => { rep.check(want, "vote-accepted", || format!("committee of {n}: vote kind {kind} (new {new}) accepted")); rep.check(!full, "no-certificate", || format!("committee of {n}: {} proper votes and no certificate", good.len())); }
            Ok(Ok(Some(cert))) => {
                rep.check(want, "vote-accepted", || format!("committee of {n}: vote kind {kind} (new {new}) made a certificate"));
                rep.check(full, "early-certificate", || format!("committee of {n}: certificate from {} votes", good.len()));
                rep.check(marked(&c, &cert) == good.iter().copied().collect::<Vec<_>>(), "signers", || format!("committee of {n}: marked signers are not the voters"));
                rep.check(attested(&c, &cert) && cert.header().digest() == h.digest() && matches!(cert.signature_verification_state(), St::VerifiedDirectly(_)), "formed", || format!("committee of {n}: certificate is not attested / not marked verified"));
                quorum_seen = true; last = Some(cert);
            }
        }
    }
    rep.case(quorum_seen);
    if let Some(cert) = last { tamper(rep, r, &c, &cert); }
}
/// a well-formed certificate is accepted, and any change to it is judged as the definition says
fn tamper(rep: &mut vx::Rep, r: &mut Rng, c: &Committee, good: &Certificate) {
    let n = c.size(); let s = good.aggregated_signature().unwrap(); let keys = c.bls_keys();
    for k in 0..26 {
        let mut h = good.header().clone(); let mut b = good.signed_authorities().clone(); let mut st = St::Unverified(s);
        let rebuilt = |h: &Header| HeaderBuilder::default().author(h.author().clone()).round(h.round()).epoch(h.epoch()).created_at(*h.created_at()).payload(h.payload().clone()).parents(h.parents().clone()).latest_execution_block(h.latest_execution_block()).seed_signature(h.raw_seed());
        match k {
            0 => {}
            1 => { b.remove(r.us(n) as u32); } 2 => { b.insert(r.us(n) as u32); } 3 => { b.insert(n as u32 + r.below(40) as u32); } 4 => { b = Default::default(); }
            5 => h = rebuilt(&h).epoch(h.epoch() + 1).build(), 6 => h = rebuilt(&h).round(h.round() + 1).build(), 7 => h = rebuilt(&h).created_at(h.created_at() + 1).build(),
            8 => h = rebuilt(&h).author(AuthorityIdentifier(300_000)).build(), 9 => h = rebuilt(&h).parents((0..=n as u64).map(HeaderDigest).collect()).build(),
            10 => { let mut p = h.payload().clone(); p.insert(BlockHash(1), c.workers as WorkerId); h = rebuilt(&h).payload(p).build(); }
            11 => { let p = (0..=MAX_HEADER_NUM_OF_BATCHES as u64).map(|i| (BlockHash(i), 0)).collect(); h = rebuilt(&h).payload(p).build(); }
            12 => st = St::Unverified(BlsSignature(s.0 ^ 1)), 13 => st = St::Unsigned(s), 14 => st = St::Genesis, 15 => st = St::VerifiedDirectly(BlsSignature(1)), 16 => st = St::VerifiedIndirectly(BlsSignature(1)),
            // properly signed by a quorum, but not a valid header
            17 | 18 | 19 | 20 | 21 | 22 => {
                h = match k { 17 => rebuilt(&h).author(AuthorityIdentifier(300_000)), 18 => rebuilt(&h).parents((0..=n as u64).map(HeaderDigest).collect()), 19 => { let mut p = h.payload().clone(); p.insert(BlockHash(1), c.workers as WorkerId); rebuilt(&h).payload(p) }
                    20 => rebuilt(&h).payload((0..=MAX_HEADER_NUM_OF_BATCHES as u64).map(|i| (BlockHash(i), 0)).collect()), 21 => rebuilt(&h).epoch(h.epoch() + 1), _ => rebuilt(&h).parents((0..n as u64).map(HeaderDigest).collect()) }.build();
                let d = h.digest(); st = St::Unverified(BlsSignature(b.iter().map(|i| *keys.iter().nth(i as usize).unwrap()).fold(0u64, |a, k| a.wrapping_add(sign(k, d).0))));
            }
            // too few members signed, made up by positions nobody holds
            24 | 25 => { let q = quorum_threshold(n as u64) as u32 - 1 - r.below(quorum_threshold(n as u64)) as u32; b = (0..q).chain(n as u32..n as u32 + 1 + r.below(n as u64) as u32 * (k as u32 - 24)).collect(); let d = h.digest(); st = St::Unverified(BlsSignature(keys.iter().take(q as usize).fold(0u64, |a, k| a.wrapping_add(sign(*k, d).0)))); }
            // fewer signers, properly signed
            _ => { let q = quorum_threshold(n as u64) as u32 - 1; b = (0..q).collect(); let d = h.digest(); st = St::Unverified(BlsSignature(keys.iter().take(q as usize).fold(0u64, |a, k| a.wrapping_add(sign(*k, d).0)))); }
        }
        let cert = Certificate::raw(h.clone(), st.clone(), b.clone());
        // with no claim carried over from the sender
        let mut x = cert.clone(); let had = x.aggregated_signature().is_some();
        let rv = x.validate_received();
        rep.check(rv.is_ok() == had && (!had || matches!(x.signature_verification_state(), St::Unverified(_))), "received", || format!("tampering {k}: a received certificate keeps the claim {:?}", x.signature_verification_state()));
        if let Ok(y) = validate_fetched_certificate(cert.clone()) { rep.check(matches!(y.signature_verification_state(), St::Unverified(_)), "fetched", || format!("tampering {k}: a fetched certificate keeps the claim {:?}", y.signature_verification_state())); }
        if rv.is_ok() {
            let ok = attested(c, &x) && fine(c, &h); let got = x.clone().validate_and_verify(c).is_ok();
            rep.check(ok == got, if got { "forged-accepted" } else { "valid-refused" }, || format!("committee of {n}, tampering {k}: accepted {got}, should be {ok}"));
            let mut y = x.clone(); if y.validate_and_verify(c).is_ok() { rep.check(y.is_verified() && matches!(y.signature_verification_state(), St::VerifiedDirectly(_)), "state", || format!("accepted, but left as {:?}", y.signature_verification_state())); }
        }
        if matches!(st, St::Unsigned(_)) { rep.check(cert.clone().validate_and_verify(c).is_err(), "unsigned", || format!("tampering {k}: a certificate that is not signed yet passes")); }
        // by the keys alone, whatever the claimed state
        let ok = attested(c, &cert); let mut y = cert.clone(); let got = y.verify_cert(&keys).is_ok();
        rep.check(ok == got, if got { "forged-accepted" } else { "valid-refused" }, || format!("committee of {n}, tampering {k}: verify_cert accepted {got}, should be {ok}"));
    }
}
fn genesis(rep: &mut vx::Rep, n: usize) {
    let r = &mut rep.rng.clone_(); let e = r.below(9) as Epoch; let c = com(r, n, e); let g = Certificate::genesis(&c);
    rep.check(g.len() == n && g.iter().zip(c.authorities()).all(|(x, a)| *x.origin() == a.id() && x.round() == 0 && x.epoch() == c.epoch && x.header().parents().is_empty() && x.header().payload().is_empty()), "genesis", || format!("genesis of {n} members"));
    for x in &g { let mut y = x.clone(); rep.check(y.validate_and_verify(&c).is_ok(), "genesis-refused", || format!("genesis certificate refused")); }
    for k in 0..5 {
        let who = c.authorities()[r.us(n)].id(); let b = HeaderBuilder::default().author(who.clone()).epoch(c.epoch);
        let h = match k { 0 => b.created_at(1), 1 => b.round(1), 2 => b.epoch(c.epoch + 1), 3 => b.seed_signature(BlsSignature(9)), _ => b.author(AuthorityIdentifier(400_000)) }.build();
        let mut x = Certificate::raw(h, St::Unverified(BlsSignature(5)), Default::default());
        rep.check(x.validate_and_verify(&c).is_err(), "forged-genesis", || format!("a genesis-like certificate (variant {k}) without signatures accepted"));
    }
    rep.case(true);
}
/// a pile of certificates of several rounds from a peer
fn pile(rep: &mut vx::Rep, rt: &tokio::runtime::Runtime, n: usize) {
    let r = &mut rep.rng.clone_(); let e = r.below(9) as Epoch; let c = com(r, n, e); let q = quorum_threshold(n as u64) as usize; let keys: Vec<_> = c.bls_keys().into_iter().collect();
    let make = |r: &mut Rng, h: Header| { let mut ix: Vec<usize> = (0..n).collect(); r.shuffle(&mut ix); let m = q + r.us(n - q + 1); let b: roaring::RoaringBitmap = ix[..m].iter().map(|i| *i as u32).collect(); let s = b.iter().fold(0u64, |a, i| a.wrapping_add(sign(keys[i as usize], h.digest()).0)); Certificate::raw(h, St::Unverified(BlsSignature(s)), b) };
    let mut prev: Vec<Certificate> = Certificate::genesis(&c); let mut v: Vec<Certificate> = vec![]; let first = 1 + r.below(60) as Round;
    for k in 0..(1 + r.us(6)) {
        let mut cur = vec![]; for a in c.authorities() { if r.chance(1, 6) { continue; } let mut ps = BTreeSet::new(); for p in &prev { if r.chance(3, 4) { ps.insert(p.digest()); } } let h = hdr(r, &c, &a.id(), first + k as Round, ps); cur.push(make(r, h)); }
        v.extend(cur.iter().cloned()); if cur.is_empty() { break; } prev = cur;
    }
    // some are bad
    let bad = r.below(4); let mut spoiled = BTreeSet::new();
    if bad > 0 && !v.is_empty() { for _ in 0..bad { let i = r.us(v.len()); let x = v[i].clone(); let mut b = x.signed_authorities().clone(); let mut st = x.signature_verification_state().clone();
        match r.below(3) { 0 => st = St::Unverified(BlsSignature(r.next())), 1 => { b = b.iter().take(q - 1).collect(); let s = b.iter().fold(0u64, |a, i| a.wrapping_add(sign(keys[i as usize], x.digest()).0)); st = St::Unverified(BlsSignature(s)); } _ => { if let Some(m) = b.iter().next() { b.remove(m); } } }
        v[i] = Certificate::raw(x.header().clone(), st, b); spoiled.insert(i); } }
    if r.chance(1, 2) { r.shuffle(&mut v); }
    let iv = *[1u32, 2, 5, 50].get(r.us(4)).unwrap(); let gc = if r.chance(1, 5) { first + r.below(4) as Round } else { 0 };
    let val = CertificateValidator { consensus_bus: ConsensusBus::default(), config: ConsensusConfig { com: c.clone(), net: NetCfg { s: SyncCfg { certificate_verification_round_interval: iv, certificate_verification_chunk_size: 1 + r.us(7) } }, store: CertStore { d: HashSet::new() }, gc, db: NoDb }, task_spawner: TaskSpawner };
    let cited: HashSet<HeaderDigest> = v.iter().flat_map(|c| c.header().parents().iter().copied().collect::<Vec<_>>()).collect();
    let must: Vec<usize> = (0..v.len()).filter(|i| !cited.contains(&v[*i].digest()) || v[*i].round() % iv == 0).collect();
    let ok = must.iter().all(|i| attested(&c, &v[*i]) && v[*i].round() >= gc);
    let out = rt.block_on(val.verify_collection(v.clone()));
    rep.case(v.len() > 3 && !spoiled.is_empty());
    match &out {
        Err(e) => rep.check(!ok, "pile-refused", || format!("{} proper certificates refused: {e:?}", v.len())),
        Ok(w) => {
            rep.check(ok, "pile-accepted", || format!("committee of {n}, {} certificates, interval {iv}: one that nobody cites, or of a checked round, is bad and was accepted", v.len()));
            rep.check(w.len() == v.len() && w.iter().zip(&v).all(|(a, b)| a.digest() == b.digest()), "pile-order", || format!("certificates changed places"));
            for i in 0..w.len().min(v.len()) { let direct = matches!(w[i].signature_verification_state(), St::VerifiedDirectly(_));
                rep.check(direct || matches!(w[i].signature_verification_state(), St::VerifiedIndirectly(_)) && cited.contains(&w[i].digest()), "pile-state", || format!("certificate {i} is {:?} and nobody cites it", w[i].signature_verification_state()));
                rep.check(!direct || attested(&c, &w[i]), "pile-forged", || format!("certificate {i} passes for verified")); }
        }
    }
    let res = rt.block_on(val.process_fetched_certificates_in_parallel(v.clone()));
    rep.check(res.is_ok() == ok && val.consensus_bus.sent.lock().unwrap().len() == ok as usize, "pile-forwarded", || format!("forwarded {} batches, all good: {ok}", val.consensus_bus.sent.lock().unwrap().len()));
    // one at a time
    for x in v.iter().take(6) {
        val.consensus_bus.sent.lock().unwrap().clear(); let mut y = x.clone(); let res = rt.block_on(val.process_peer_certificate(&mut y)); let ok = attested(&c, x) && x.round() >= gc;
        rep.check(res.is_ok() == ok && val.consensus_bus.sent.lock().unwrap().len() == ok as usize, "peer-certificate", || format!("a peer's certificate: good {ok}, result {res:?}"));
    }
    // the parents of a round
    let mut mg = CertificatesAggregatorManager::new(val.consensus_bus.clone()); val.consensus_bus.parents.lock().unwrap().clear();
    let mut seen: BTreeMap<Round, (BTreeSet<AuthorityIdentifier>, usize)> = BTreeMap::new(); let mut all: Vec<Certificate> = v.clone(); all.extend(v.iter().take(3).cloned()); r.shuffle(&mut all);
    for x in all {
        let before = val.consensus_bus.parents.lock().unwrap().len(); rt.block_on(mg.append_certificate(x.clone(), &c)).unwrap();
        let ent = seen.entry(x.round()).or_default(); let new = ent.0.insert(x.origin().clone()); let now = val.consensus_bus.parents.lock().unwrap().len() - before;
        if !new { rep.check(now == 0, "parents-twice", || format!("a second certificate of one author sent parents")); continue; }
        ent.1 += 1; let full = ent.0.len() >= q;
        rep.check(now == full as usize, "parents-quorum", || format!("committee of {n}: {} authors of round {}, parents sent: {now}", ent.0.len(), x.round()));
        if full { let l = val.consensus_bus.parents.lock().unwrap().last().cloned().unwrap(); let au: BTreeSet<_> = l.0.iter().map(|c| c.origin().clone()).collect();
            rep.check(l.1 == x.round() && l.0.iter().all(|c| c.round() == l.1) && au.len() == l.0.len() && l.0.len() == ent.1, "parents-content", || format!("parents of round {}: {} certificates of {} authors", l.1, l.0.len(), au.len())); ent.1 = 0; }
    }
    let at = first + r.below(6) as Round; let had: Vec<Round> = mg.aggregators.keys().copied().collect(); mg.garbage_collect(&at);
    rep.check(mg.aggregators.keys().copied().eq(had.iter().copied().filter(|k| *k > at)), "collected", || format!("after collecting round {at}, of {had:?} there are {:?}", mg.aggregators.keys()));
}
impl Rng { fn clone_(&mut self) -> Rng { Rng::new(self.next()) } }
fn main() {
    let mut rep = vx::Rep::new();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    for n in 2..=40 { genesis(&mut rep, n); }
    while rep.time_left(0.5) { let n = 2 + rep.rng.us(22); votes(&mut rep, n); }
    while rep.time_left(1.0) { let n = 2 + rep.rng.us(14); pile(&mut rep, &rt, n); }
    rep.sample(format!("committees of 2 to 23, votes of nine kinds, twenty-four kinds of tampering, piles of up to six rounds"));
    rep.finish()
}
