#![allow(dead_code, unused)]
//@include lib/rs/native.rs
use std::collections::{BTreeMap, BTreeSet};
use std::{num::NonZeroU64, sync::Arc};
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)] pub struct BlsPublicKey(u64);
impl BlsPublicKey { pub fn to_bytes(&self) -> [u8; 8] { self.0.to_be_bytes() } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Address(u64);
#[derive(Clone, PartialEq, Eq, Debug)] pub struct BootstrapServer(u64);
impl BootstrapServer { pub fn new(a: P2pNode, b: P2pNode) -> Self { BootstrapServer(a.0 ^ b.0) } }
#[derive(Clone, PartialEq, Eq, Debug)] pub struct P2pNode(u64);
pub type Epoch = u32;
pub struct Dig([u8; 32]);
impl Dig { pub fn as_bytes(&self) -> &[u8; 32] { &self.0 } }
/// stand-in for blake3: an injective scramble of the 8 key bytes
pub struct DefaultHashFunction(u64);
impl DefaultHashFunction {
    pub fn new() -> Self { DefaultHashFunction(0) }
    pub fn update(&mut self, b: &[u8]) { let mut a = [0u8; 8]; a.copy_from_slice(b); self.0 = u64::from_be_bytes(a).wrapping_mul(0x9E3779B97F4A7C15); }
    pub fn finalize(&self) -> Dig { let mut o = [7u8; 32]; o[..8].copy_from_slice(&self.0.to_be_bytes()); Dig(o) }
}
//@item file=crates/types/src/committee.rs path="type VotingPower"
//@end
//@item file=crates/types/src/committee.rs path="const EQUAL_VOTING_POWER"
//@end
#[derive(Clone, Debug, PartialEq, Eq)]
//@item file=crates/types/src/committee.rs path="struct AuthorityInner"
//@end
#[derive(Clone, Debug, PartialEq, Eq)]
//@item file=crates/types/src/committee.rs path="struct Authority"
//@end
#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Hash, Debug)]
//@item file=crates/types/src/committee.rs path="struct AuthorityIdentifier"
//@end
//@item file=crates/types/src/committee.rs path="struct CommitteeInner"
//@end
#[derive(Clone)]
//@item file=crates/types/src/committee.rs path="struct Committee"
//@end
//@item file=crates/types/src/committee.rs path="struct CommitteeBuilder"
//@end
impl Authority {
//@fn file=crates/types/src/committee.rs path="impl Authority :: fn new"
//@end
//@fn file=crates/types/src/committee.rs path="impl Authority :: fn id"
//@end
//@fn file=crates/types/src/committee.rs path="impl Authority :: fn protocol_key"
//@end
//@fn file=crates/types/src/committee.rs path="impl Authority :: fn voting_power"
//@end
//@fn file=crates/types/src/committee.rs path="impl Authority :: fn execution_address"
//@end
}
impl From<BlsPublicKey> for AuthorityIdentifier {
//@fn file=crates/types/src/committee.rs path="impl From<BlsPublicKey> for AuthorityIdentifier :: fn from" trait
//@end
}
impl CommitteeInner {
//@fn file=crates/types/src/committee.rs path="impl CommitteeInner :: fn load"
//@end
//@fn file=crates/types/src/committee.rs path="impl CommitteeInner :: fn calculate_quorum_threshold"
//@end
//@fn file=crates/types/src/committee.rs path="impl CommitteeInner :: fn calculate_validity_threshold"
//@end
//@fn file=crates/types/src/committee.rs path="impl CommitteeInner :: fn total_voting_power"
//@end
}
impl PartialEq for CommitteeInner {
//@fn file=crates/types/src/committee.rs path="impl PartialEq for CommitteeInner :: fn eq" trait
//@end
}
impl Committee {
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn new"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn epoch"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn authority"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn authority_by_key"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn authorities"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn is_authority"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn size"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn voting_power"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn voting_power_by_id"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn quorum_threshold"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn validity_threshold"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn reached_quorum"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn reached_validity"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn total_voting_power"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn bls_keys"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn others_keys_except"
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn others_primaries_by_id"
//@end
}
impl CommitteeBuilder {
//@fn file=crates/types/src/committee.rs path="impl CommitteeBuilder :: fn new"
//@end
//@fn file=crates/types/src/committee.rs path="impl CommitteeBuilder :: fn add_authority"
//@end
//@fn file=crates/types/src/committee.rs path="impl CommitteeBuilder :: fn add_authority_and_bootstrap"
//@end
//@fn file=crates/types/src/committee.rs path="impl CommitteeBuilder :: fn build"
//@end
}
//@fn file=crates/types/src/committee.rs path="fn quorum_threshold"
//@end

fn case(r: &mut vx::Rep, keys: &[u64]) {
    let set: BTreeSet<u64> = keys.iter().copied().collect();
    let n = set.len() as u64;
    r.case(n > 1);
    let what = |s: String| format!("committee of {} (keys inserted {:?}{}): {s}", n, &keys[..keys.len().min(12)], if keys.len() > 12 { ".." } else { "" });
    let built = vx::guard(|| {
        let mut b = CommitteeBuilder::new(9);
        for (i, k) in keys.iter().enumerate() {
            if i % 3 == 2 { b.add_authority_and_bootstrap(BlsPublicKey(*k), P2pNode(1), P2pNode(2), Address(*k + 5)); }
            else { b.add_authority(BlsPublicKey(*k), Address(*k + 5)); }
        }
        b.build()
    });
    let c = match built {
        Err(p) => { if n > 1 { r.fail("build", what(p)); } return; }
        Ok(c) => c,
    };
    if n <= 1 { r.fail("small", what("a committee of fewer than two members was accepted".into())); return; }
    let q = 2 * n / 3 + 1;
    let v = (n + 2) / 3;
    macro_rules! ck { ($k:expr, $got:expr, $want:expr) => {{ let g = $got; let w = $want; r.check(g == w, $k, || what(format!("{} = {:?}, specification {:?}", stringify!($got), g, w))); }} }
    ck!("quorum", c.quorum_threshold(), q);
    ck!("quorum-free", quorum_threshold(n), q);
    ck!("validity", c.validity_threshold(), v);
    ck!("total", c.total_voting_power(), n);
    ck!("size", c.size() as u64, n);
    ck!("epoch", c.epoch(), 9);
    for x in [0, 1, v - 1, v, v + 1, q - 1, q, q + 1, n, n + 1, u64::MAX] {
        ck!("reached-quorum", c.reached_quorum(x), x >= q);
        ck!("reached-validity", c.reached_validity(x), x >= v);
    }
    let mut ids: Vec<AuthorityIdentifier> = set.iter().map(|k| AuthorityIdentifier::from(BlsPublicKey(*k))).collect();
    ids.sort();
    ck!("authorities", c.authorities().iter().map(|a| a.id()).collect::<Vec<_>>(), ids.clone());
    ck!("keys", c.bls_keys(), set.iter().map(|k| BlsPublicKey(*k)).collect::<BTreeSet<_>>());
    let mut probe: Vec<u64> = keys.to_vec();
    probe.extend([0, 1, u64::MAX, keys.first().copied().unwrap_or(3).wrapping_add(1)]);
    for k in probe {
        let key = BlsPublicKey(k);
        let id = AuthorityIdentifier::from(key);
        let m = set.contains(&k);
        ck!("power", c.voting_power(&key), m as u64);
        ck!("power-id", c.voting_power_by_id(&id), m as u64);
        ck!("member", c.is_authority(&id), m);
        ck!("by-key", c.authority_by_key(&key).map(|a| (*a.protocol_key(), a.execution_address(), a.id(), a.voting_power())), m.then(|| (key, Address(k + 5), id.clone(), 1)));
        ck!("by-id", c.authority(&id).map(|a| (*a.protocol_key(), a.execution_address(), a.id())), m.then(|| (key, Address(k + 5), id.clone())));
        ck!("others-keys", c.others_keys_except(&key).into_iter().collect::<BTreeSet<_>>(), set.iter().filter(|x| **x != k).map(|x| BlsPublicKey(*x)).collect::<BTreeSet<_>>());
        ck!("others-len", c.others_primaries_by_id(Some(&id)).len() as u64, n - m as u64);
        ck!("others-none", c.others_primaries_by_id(None).len() as u64, n);
        ck!("others-ok", c.others_primaries_by_id(Some(&id)).iter().all(|(i, k2)| *i != id && AuthorityIdentifier::from(*k2) == *i && set.contains(&k2.0)), true);
    }
    // equality follows membership, epoch and thresholds
    let mut rev = keys.to_vec(); rev.reverse();
    let mut b = CommitteeBuilder::new(9);
    for k in &rev { b.add_authority(BlsPublicKey(*k), Address(*k + 5)); }
    let same = b.build();
    ck!("eq", c.inner.as_ref() == same.inner.as_ref(), true);
    let mut b = CommitteeBuilder::new(10);
    for k in &rev { b.add_authority(BlsPublicKey(*k), Address(*k + 5)); }
    ck!("eq-epoch", c.inner.as_ref() == b.build().inner.as_ref(), false);
}
fn main() {
    let mut r = vx::Rep::new();
    for n in 0..130u64 { let ks: Vec<u64> = (0..n).map(|i| i * 7 % 131 + 1).collect(); case(&mut r, &ks); }
    for n in [255u64, 256, 257, 300, 512, 1000] { let ks: Vec<u64> = (0..n).map(|i| i * 1_000_003 + 1).collect(); case(&mut r, &ks); if !r.time_left(0.5) { break; } }
    r.sample("committees of every size 0..129 and 255, 256, 257, 300, 512, 1000".into());
    for n in (0..2_000_000u64).step_by(1) { if quorum_threshold(n) != 2 * n / 3 + 1 { r.fail("quorum-free", format!("quorum_threshold({n}) = {}", quorum_threshold(n))); break; } r.evals += 1; }
    let mut n = 0;
    while r.time_left(1.0) && n < 5_000 {
        n += 1;
        let len = r.rng.us(40);
        let dom = 1 + r.rng.below(60);
        let big = r.rng.chance(1, 2);
        let ks: Vec<u64> = (0..len).map(|_| if big { r.rng.next() >> 2 } else { r.rng.below(dom) }).collect();
        case(&mut r, &ks);
    }
    r.finish()
}
