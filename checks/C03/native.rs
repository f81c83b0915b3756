#![allow(dead_code, unused)]
//@include lib/rs/native.rs
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;
pub type Round = u32; pub type Epoch = u32; pub type VotingPower = u64; pub type TimestampSec = u64; pub type SequenceNumber = u64;
pub use alloy_primitives::B256;
pub mod alloy { pub use alloy_primitives as primitives; }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)] pub struct HeaderDigest(pub u64);
impl std::fmt::Display for HeaderDigest { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)] pub struct AuthorityIdentifier(pub u16);
impl std::fmt::Display for AuthorityIdentifier { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct BlsSignature(pub [u8; 48]);
impl Default for BlsSignature { fn default() -> Self { BlsSignature([0; 48]) } }
impl BlsSignature { pub fn to_bytes(&self) -> [u8; 48] { self.0 } }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Authority { id: AuthorityIdentifier }
impl Authority { pub fn id(&self) -> AuthorityIdentifier { self.id.clone() } pub fn voting_power(&self) -> u64 { 1 } }
/// members in identifier order, thresholds as C01 decides
#[derive(Clone, Debug)] pub struct Committee(pub BTreeMap<AuthorityIdentifier, Authority>);
impl Committee {
    pub fn authorities(&self) -> Vec<Authority> { self.0.values().cloned().collect() }
    pub fn authority(&self, i: &AuthorityIdentifier) -> Option<Authority> { self.0.get(i).cloned() }
    pub fn is_authority(&self, i: &AuthorityIdentifier) -> bool { self.0.contains_key(i) }
    pub fn size(&self) -> usize { self.0.len() }
    pub fn epoch(&self) -> u32 { 3 }
    pub fn voting_power_by_id(&self, i: &AuthorityIdentifier) -> u64 { self.0.contains_key(i) as u64 }
    pub fn validity_threshold(&self) -> u64 { (self.0.len() as u64 + 2) / 3 }
    pub fn quorum_threshold(&self) -> u64 { 2 * self.0.len() as u64 / 3 + 1 }
}
#[derive(Clone, Debug, PartialEq)] pub struct Header { pub author: AuthorityIdentifier, pub round: Round, pub created_at: u64, pub parents: BTreeSet<HeaderDigest>, pub seed: Option<BlsSignature>, pub digest: HeaderDigest }
impl Header {
    pub fn round(&self) -> Round { self.round }
    pub fn epoch(&self) -> Epoch { 3 }
    pub fn author(&self) -> &AuthorityIdentifier { &self.author }
    pub fn created_at(&self) -> &u64 { &self.created_at }
    pub fn parents(&self) -> &BTreeSet<HeaderDigest> { &self.parents }
    pub fn seed_signature(&self) -> Option<&BlsSignature> { self.seed.as_ref() }
    pub fn digest(&self) -> HeaderDigest { self.digest }
    pub fn nonce(&self) -> u64 { (3u64 << 32) | self.round as u64 }
}
pub trait Hash { type TypedDigest; fn digest(&self) -> Self::TypedDigest; }
#[derive(Clone, Debug)] pub struct Certificate { header: Header, agg: Option<BlsSignature> }
impl Certificate {
    pub fn mk(header: Header, agg: Option<BlsSignature>) -> Self { Self { header, agg } }
    pub fn aggregated_signature(&self) -> Option<BlsSignature> { self.agg }
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn into_header"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn round"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn epoch"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn nonce"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn origin"
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn header"
//@end
}
impl Hash for Certificate { type TypedDigest = HeaderDigest; 
//@fn file=crates/types/src/primary/certificate.rs path="impl Hash for Certificate :: fn digest" trait
//@end
}
impl PartialEq for Certificate {
//@fn file=crates/types/src/primary/certificate.rs path="impl PartialEq for Certificate :: fn eq" trait
//@end
}
pub trait ConsensusChainReader { fn read_latest_commit_with_final_reputation_scores(&self, e: Epoch) -> impl std::future::Future<Output = eyre::Result<Option<CommittedSubDag>>>; }
pub use reputation::ReputationScores;
mod reputation {
//@module file=crates/types/src/primary/reputation.rs
//@end
}
pub use seed_chain::{EpochSeedChainError, EpochSeedChainValue};
mod seed_chain {
//@module file=crates/types/src/primary/seed_chain.rs
//@sub? /use alloy::primitives/ => use crate::alloy::primitives
//@end
}
pub use output::CommittedSubDag;
mod output {
use alloy_primitives::keccak256;
use crate::*;
//@item file=crates/types/src/primary/output.rs path="struct CommittedSubDagInner" derive="Debug, PartialEq"
//@end
//@item file=crates/types/src/primary/output.rs path="struct CommittedSubDag"
//@end
impl Clone for CommittedSubDag { fn clone(&self) -> Self { Self { inner: self.inner.clone() } } }
impl std::fmt::Debug for CommittedSubDag { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "sub dag") } }
impl CommittedSubDag {
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn new"
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn len"
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn leader"
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn leader_round"
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn commit_timestamp"
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn reputation_scores"
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn randomness"
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn seed_chain_value"
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn headers"
//@end
    pub fn raw_ts(&self) -> u64 { self.inner.commit_timestamp }
}
}
#[derive(Debug)] pub struct StoreError;
impl std::fmt::Display for StoreError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "store") } }
impl std::error::Error for StoreError {}
mod consensus {
    use crate::*;
    use thiserror::Error;
    pub use bullshark::Bullshark;
    pub use leader_schedule::{LeaderSchedule, LeaderSwapTable};
    pub use state::{ConsensusState, ConsensusRound, Dag};
    #[derive(Debug, Error)]
//@item file=crates/consensus/primary/src/consensus/mod.rs path="enum ConsensusError" keep=error,from
//@end
    #[derive(Debug, Error)]
//@item file=crates/consensus/primary/src/consensus/mod.rs path="enum ConsensusInvariant" keep=error,from
//@end
    #[derive(Debug, PartialEq, Eq)]
//@item file=crates/consensus/primary/src/consensus/mod.rs path="enum Outcome"
//@end
    pub mod leader_schedule {
//@module file=crates/consensus/primary/src/consensus/leader_schedule.rs
//@sub /use tn_types::\{/ => use crate::{
//@end
    }
    pub mod utils {
//@module file=crates/consensus/primary/src/consensus/utils.rs
//@sub /use tn_types::\{/ => use crate::{
//@end
    }
    pub mod bullshark {
//@module file=crates/consensus/primary/src/consensus/bullshark.rs
//@sub /use tn_types::\{/ => use crate::{
//@end
    }
    pub mod state {
        use crate::*; use super::*; use super::utils::gc_round; use std::cmp::{max, Ordering}; use std::collections::{BTreeMap, BTreeSet, HashMap};
        use tracing::{debug, error, info, instrument};
//@item file=crates/consensus/primary/src/consensus/state.rs path="type Dag"
//@end
//@item file=crates/consensus/primary/src/consensus/state.rs path="struct ConsensusState"
//@end
        #[derive(Debug, Default, Copy, Clone)]
//@item file=crates/consensus/primary/src/consensus/state.rs path="struct ConsensusRound"
//@end
        impl ConsensusRound {
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusRound :: fn new_with_gc_depth"
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusRound :: fn update"
//@end
        }
        impl ConsensusState {
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn new"
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn seed_chain"
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn set_seed_chain"
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn try_insert"
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn try_insert_in_dag"
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn update"
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn check_parents"
//@end
        }
//@fn file=crates/consensus/primary/src/consensus/state.rs path="fn resolve_seed_chain_anchor"
//@end
    }
}
use consensus::*;
fn id(i: usize) -> AuthorityIdentifier { AuthorityIdentifier(i as u16) }
fn bytes48(x: u64) -> [u8; 48] { let mut b = [0u8; 48]; let mut s = x; for i in 0..48 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); b[i] = (s >> 33) as u8; } b }
/// a network's certificates: rounds[r] = the headers of round r
struct World { n: usize, hs: Vec<Vec<Header>>, by: HashMap<HeaderDigest, Header> }
fn world(rng: &mut vx::Rng, n: usize, rounds: usize, seeded: bool) -> World {
    let q = 2 * n / 3 + 1;
    let mut w = World { n, hs: vec![vec![]], by: HashMap::new() };
    let slow = rng.us(n); let style = rng.below(4);
    for r in 1..=rounds {
        let prev: Vec<HeaderDigest> = w.hs[r - 1].iter().map(|h| h.digest).collect();
        let mut row = vec![];
        // who proposes: at least a quorum
        let mut who: Vec<usize> = (0..n).collect(); rng.shuffle(&mut who);
        let k = q + if style == 0 { n - q } else { rng.us(n - q + 1) };
        let mut who: Vec<usize> = who.into_iter().take(k).collect(); who.sort();
        for a in who {
            let parents: BTreeSet<HeaderDigest> = if r == 1 { BTreeSet::new() } else {
                let mut p: Vec<usize> = (0..prev.len()).collect(); rng.shuffle(&mut p);
                // one slow author is often left out
                if style >= 2 { p.sort_by_key(|i| (w.hs[r - 1][*i].author == id(slow)) as u8 * (r % 5 != 0) as u8); }
                let m = q + if style == 1 { 0 } else { rng.us(prev.len() - q + 1) };
                p.into_iter().take(m).map(|i| prev[i]).collect()
            };
            let d = HeaderDigest(rng.next());
            let h = Header { author: id(a), round: r as u32, created_at: 100 + r as u64 * 3 + rng.below(9), parents, seed: if seeded || rng.chance(1, 2) { Some(BlsSignature(bytes48(rng.next()))) } else { None }, digest: d };
            w.by.insert(d, h.clone());
            row.push(h);
        }
        w.hs.push(row);
    }
    w
}
/// an order in which a node gets the certificates: parents first, otherwise arbitrary within a window; some certificates never arrive unless needed
fn arrival(rng: &mut vx::Rng, w: &World) -> Vec<Header> {
    let jitter = [1u64, 4, 9, 20][rng.us(4)]; let lose = rng.below(3);
    let mut all: Vec<(u64, Header)> = vec![];
    for row in &w.hs { for h in row { if lose > 0 && rng.chance(lose, 6) { continue; } all.push((h.round as u64 * 4 + rng.below(jitter * 2), h.clone())); } }
    all.sort_by_key(|x| x.0);
    let mut out = vec![]; let mut have: HashSet<HeaderDigest> = HashSet::new();
    fn put(w: &World, h: &Header, have: &mut HashSet<HeaderDigest>, out: &mut Vec<Header>) { if have.contains(&h.digest) { return; } for p in &h.parents { put(w, &w.by[p], have, out); } have.insert(h.digest); out.push(h.clone()); }
    for (_, h) in all { put(w, &h, &mut have, &mut out); }
    out
}
#[derive(Clone, Debug, PartialEq)]
struct Sub { headers: Vec<HeaderDigest>, ts: u64, scores: BTreeMap<AuthorityIdentifier, u64>, fin: bool, rnd: B256 }
fn sub_of(s: &CommittedSubDag) -> Sub { Sub { headers: s.headers().iter().map(|h| h.digest).collect(), ts: s.raw_ts(), scores: s.reputation_scores().scores_per_authority.iter().map(|(k, v)| (k.clone(), *v)).collect(), fin: s.reputation_scores().final_of_schedule, rnd: s.randomness() } }
struct Node { b: Bullshark, st: ConsensusState, log: Vec<Sub>, raw: Vec<CommittedSubDag> }
fn committee(n: usize) -> Committee { Committee((0..n).map(|i| (id(i), Authority { id: id(i) })).collect()) }
impl Node {
    fn new(n: usize, gcd: u32, per: u32, pct: u64) -> Node { let c = committee(n); Node { b: Bullshark::new(c.clone(), per, LeaderSchedule::new(c, LeaderSwapTable::default()), pct), st: ConsensusState::new(gcd), log: vec![], raw: vec![] } }
    fn give(&mut self, h: &Header, agg: u64) -> Result<Outcome, String> {
        let c = Certificate::mk(h.clone(), Some(BlsSignature(bytes48(agg))));
        let (b, st) = (&mut self.b, &mut self.st);
        match vx::guard(|| b.process_certificate(st, c)) { Ok(Ok((o, v))) => { for s in v { self.log.push(sub_of(&s)); self.raw.push(s); } Ok(o) } Ok(Err(e)) => Err(format!("error {e}")), Err(p) => Err(format!("panic {p}")) }
    }
}
/// the rule, by its definition, on plain data
struct Ref { n: usize, gcd: u32, per: u64, pct: u64, dag: BTreeMap<u32, BTreeMap<u16, Header>>, lc: HashMap<u16, u32>, cr: u32, sched: LeaderSchedule, last: Option<(Header, Sub)>, seed: B256, log: Vec<Sub> }
impl Ref {
    fn new(n: usize, gcd: u32, per: u32, pct: u64) -> Ref { Ref { n, gcd, per: per as u64, pct, dag: BTreeMap::new(), lc: HashMap::new(), cr: 0, sched: LeaderSchedule::new(committee(n), LeaderSwapTable::default()), last: None, seed: B256::ZERO, log: vec![] } }
    fn get(&self, r: u32, d: &HeaderDigest) -> Option<&Header> { self.dag.get(&r)?.values().find(|h| h.digest == *d) }
    fn lead(&self, r: u32) -> Option<Header> { self.dag.get(&r)?.get(&self.sched.leader(r).id().0).cloned() }
    fn reach(&self, l: &Header, h: &Header) -> bool { let mut f: HashSet<HeaderDigest> = [l.digest].into(); let mut r = l.round; while r > h.round { let mut g = HashSet::new(); for d in &f { if let Some(x) = self.get(r, d) { for p in &x.parents { if self.get(r - 1, p).is_some() { g.insert(*p); } } } } f = g; r -= 1; } f.contains(&h.digest) }
    fn give(&mut self, h: &Header, agg: u64, aggs: &HashMap<HeaderDigest, u64>) {
        let gc = self.cr.saturating_sub(self.gcd);
        if h.round <= gc { return; }
        self.dag.entry(h.round).or_default().insert(h.author.0, h.clone());
        if self.lc.get(&h.author.0).map_or(false, |r| h.round <= *r) { return; }
        if h.round % 2 == 0 || h.round < 3 { return; }
        let r = h.round - 1;
        while self.cr < r {
            let Some(top) = self.lead(r) else { return };
            let sup = self.dag.get(&(r + 1)).map_or(0, |x| x.values().filter(|c| c.parents.contains(&top.digest)).count());
            if sup < (self.n + 2) / 3 { return; }
            // the oldest linked leader
            let mut cur = top.clone(); let mut q = r;
            while q >= self.cr + 4 || (q >= 2 && q - 2 > self.cr) { q -= 2; if let Some(p) = self.lead(q) { if self.reach(&cur, &p) { cur = p; } } if q < 2 { break; } }
            self.commit(cur, aggs);
        }
    }
    fn commit(&mut self, l: Header, aggs: &HashMap<HeaderDigest, u64>) {
        let gc = l.round.saturating_sub(self.gcd);
        // depth first, last parent first
        let mut st = vec![l.clone()]; let mut done: HashSet<HeaderDigest> = HashSet::new(); let mut out = vec![];
        while let Some(x) = st.pop() {
            out.push(x.clone());
            if x.round == gc + 1 { continue; }
            for p in &x.parents { if let Some(h) = self.get(x.round - 1, p) { if !done.contains(p) && !self.lc.get(&h.author.0).map_or(false, |r| h.round <= *r) { done.insert(*p); st.push(h.clone()); } } }
        }
        out.sort_by_key(|h| h.round);
        for h in &out { let e = self.lc.entry(h.author.0).or_insert(0); *e = (*e).max(h.round); }
        self.cr = l.round;
        let g = self.cr.saturating_sub(self.gcd);
        self.dag.retain(|r, _| *r > g);
        let idx = ((3u64 << 32) | l.round as u64) / 2;
        let mut sc: BTreeMap<AuthorityIdentifier, u64> = match &self.last { Some((_, s)) if idx % self.per != 0 => s.scores.clone(), _ => (0..self.n).map(|i| (id(i), 0)).collect() };
        if let Some((p, _)) = &self.last { for h in &out { if h.round == p.round + 1 && h.parents.contains(&p.digest) { *sc.entry(h.author.clone()).or_insert(0) += 1; } } }
        let fin = (idx + 1) % self.per == 0;
        let ts = l.created_at.max(self.last.as_ref().map_or(0, |x| x.1.ts));
        let rnd = match l.seed { Some(s) => { let mut b = b"TN_EPOCH_SEED_FOLD_V1".to_vec(); b.extend_from_slice(self.seed.as_slice()); b.extend_from_slice(&l.round.to_le_bytes()); b.extend_from_slice(&s.0); alloy_primitives::keccak256(b) } None => alloy_primitives::keccak256(bytes48(aggs[&l.digest])) };
        let s = Sub { headers: out.iter().map(|h| h.digest).collect(), ts, scores: sc.clone(), fin, rnd };
        self.seed = rnd;
        if fin { let mut rs = ReputationScores::default(); for (k, v) in &sc { rs.add_score(k, *v); } rs.final_of_schedule = true; self.sched.update_leader_swap_table(LeaderSwapTable::new(&committee(self.n), l.round, &rs, self.pct)); }
        self.last = Some((l, s.clone()));
        self.log.push(s);
    }
}
fn trial(r: &mut vx::Rep, n: usize, rounds: usize, gcd: u32, per: u32, pct: u64, seeded: bool) {
    let mut rng = vx::Rng::new(r.rng.next());
    let w = world(&mut rng, n, rounds, seeded);
    let what = |s: String| format!("{n} validators, {rounds} rounds, gc depth {gcd}, schedule of {per} commits, {pct}% bad nodes: {s}");
    let mut logs: Vec<Vec<Sub>> = vec![];
    for k in 0..3 {
        let order = arrival(&mut rng, &w);
        let mut nd = Node::new(n, gcd, per, pct); let mut rf = Ref::new(n, gcd, per, pct);
        // with the legacy seed the aggregate counts: the same one everywhere
        let aggs: HashMap<HeaderDigest, u64> = order.iter().map(|h| (h.digest, if seeded { rng.next() } else { h.digest.0 ^ 77 })).collect();
        let mut last = 0;
        for h in &order {
            let pre = nd.log.len();
            match nd.give(h, aggs[&h.digest]) {
                Err(e) => { r.fail("refused", what(format!("certificate of round {} author {:?}: {e}", h.round, h.author))); return; }
                Ok(o) => { rf.give(h, aggs[&h.digest], &aggs);
                    if (o == Outcome::Commit) != (nd.log.len() > pre) { r.fail("outcome", what(format!("outcome {o:?} with {} commits", nd.log.len() - pre))); return; }
                    if nd.log != rf.log {
                        let i = (0..nd.log.len().max(rf.log.len())).find(|i| nd.log.get(*i) != rf.log.get(*i)).unwrap();
                        let f = |s: Option<&Sub>| s.map(|s| format!("leader of round {} with {} headers, ts {}, final {}", w.by[s.headers.last().unwrap()].round, s.headers.len(), s.ts, s.fin));
                        let why = match (nd.log.get(i), rf.log.get(i)) { (Some(a), Some(b)) => if a.headers != b.headers { "headers" } else if a.scores != b.scores { "scores" } else if a.fin != b.fin { "final-flag" } else if a.ts != b.ts { "timestamp" } else { "randomness" }, _ => "which" };
                        r.fail(&format!("rule-{why}"), what(format!("after the certificate of round {} by {:?}, commit {i} is {:?}, by the rule {:?}", h.round, h.author, f(nd.log.get(i)), f(rf.log.get(i))))); return;
                    } }
            }
        }
        // exactly once, causal order, rounds go up
        let mut seen: HashSet<HeaderDigest> = HashSet::new();
        for s in &nd.log {
            let l = &w.by[s.headers.last().unwrap()];
            r.check(l.round > last && l.round % 2 == 0, "round", || what(format!("leader of round {} after one of round {last}", l.round))); last = l.round;
            for d in &s.headers { r.check(seen.insert(*d), "twice", || what(format!("certificate of round {} committed twice", w.by[d].round))); }
        }
        // another certificate of the same author and round is refused; one whose parents are missing is refused
        if let Some(h) = order.last() {
            let mut e = h.clone(); e.digest = HeaderDigest(rng.next());
            if h.round > nd.st.last_round.gc_round { r.check(nd.give(&e, 1).is_err(), "equivocation", || what("a second certificate of one author for one round was accepted".into())); }
            let mut m = h.clone(); m.author = id((h.author.0 as usize + 1) % n); m.round = h.round + 1; m.digest = HeaderDigest(rng.next()); m.parents = [HeaderDigest(rng.next())].into();
            if m.round > nd.st.last_round.gc_round + 1 { r.check(nd.give(&m, 1).is_err(), "orphan", || what("a certificate without its parents was accepted".into())); }
            let gc = nd.st.last_round.gc_round; let a = (0..n).find(|a| !nd.st.dag.get(&(gc + 2)).map_or(false, |x| x.contains_key(&id(*a))));
            if let Some(a) = a { let mut m = h.clone(); m.author = id(a); m.round = gc + 2; m.digest = HeaderDigest(rng.next()); m.parents = [HeaderDigest(rng.next())].into();
                r.check(nd.give(&m, 1).is_err(), "orphan-old", || what(format!("a certificate of round {} without its parents was accepted, round {gc} being collected", gc + 2))); }
        }
        logs.push(nd.log);
    }
    r.case(logs.iter().any(|l| l.len() > 3));
    for i in 0..logs.len() { for j in 0..i { let m = logs[i].len().min(logs[j].len()); r.check(logs[i][..m] == logs[j][..m], "prefix", || { let k = (0..m).find(|k| logs[i][*k] != logs[j][*k]).unwrap(); what(format!("two nodes disagree on commit {k}")) }); } }
}
fn anchors(r: &mut vx::Rep) {
    // the recovered seed chain
    let w = { let mut rng = vx::Rng::new(r.rng.next()); world(&mut rng, 4, 12, true) };
    let mut nd = Node::new(4, 50, 100, 33);
    for row in &w.hs { for h in row { let _ = nd.give(h, 1); } }
    for s in &nd.raw {
        let lr = s.leader_round();
        r.check(matches!(state::resolve_seed_chain_anchor(Some(s), lr, 3), Ok(v) if v.into_inner() == s.randomness()), "anchor", || format!("chain value recovered from the commit of round {lr}"));
        for c in [0u32, 1, lr - 1, lr + 1] { if c != lr { r.check(state::resolve_seed_chain_anchor(Some(s), c, 3).is_err(), "anchor-mismatch", || format!("commit of round {lr} with cursor {c} accepted")); } }
        r.check(state::resolve_seed_chain_anchor(None, lr, 3).is_err(), "anchor-missing", || format!("cursor {lr} without its commit accepted"));
    }
    for e in [0u32, 1, 7, u32::MAX] { let mut b = b"TN_EPOCH_SEED_ROOT_V1".to_vec(); b.extend_from_slice(&e.to_le_bytes()); let x = alloy_primitives::keccak256(b);
        r.check(matches!(state::resolve_seed_chain_anchor(None, 0, e), Ok(v) if v.into_inner() == x), "anchor-root", || format!("root of epoch {e}")); }
}
fn rounds(r: &mut vx::Rep) {
    for c in [0u32, 2, 8, 40] { for d in [1u32, 3, 50] { for x in [0u32, 1, 2, 7, 8, 9, 40, 90] {
        let o = ConsensusRound::new_with_gc_depth(c, d).update(x, d); let w = c.max(x);
        r.check(o.committed_round == w && o.gc_round == w.saturating_sub(d), "round-back", || format!("committed round {c} updated with {x}, gc depth {d}: {} / {}", o.committed_round, o.gc_round)); } } }
}
fn main() {
    let mut r = vx::Rep::new();
    rounds(&mut r);
    anchors(&mut r);
    let mut k = 0;
    while r.time_left(1.0) {
        k += 1;
        let n = [4, 4, 5, 6, 7, 10, 13][r.rng.us(7)];
        let rounds = 8 + r.rng.us(if k % 10 == 0 { 60 } else { 24 });
        let gcd = [2u32, 3, 5, 8, 50][r.rng.us(5)]; let per = [1u32, 2, 3, 5, 100][r.rng.us(5)]; let pct = [0u64, 20, 33][r.rng.us(3)];
        let seeded = r.rng.chance(3, 4);
        trial(&mut r, n, rounds, gcd, per, pct, seeded);
    }
    r.finish()
}
