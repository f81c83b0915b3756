#![allow(dead_code, unused)]
//@include lib/rs/native.rs
use std::collections::{BTreeMap, BTreeSet, HashMap};
pub type Round = u32;
pub type Epoch = u32;
pub type VotingPower = u64;
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)] pub struct AuthorityIdentifier(pub [u8; 2]);
impl std::fmt::Display for AuthorityIdentifier { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Authority { id: AuthorityIdentifier, tag: u64 }
impl Authority { pub fn id(&self) -> AuthorityIdentifier { self.id.clone() } pub fn voting_power(&self) -> u64 { 1 } }
/// members in identifier order (as C01 decides)
#[derive(Clone, Debug)] pub struct Committee(pub BTreeMap<AuthorityIdentifier, Authority>);
impl Committee {
    pub fn authorities(&self) -> Vec<Authority> { self.0.values().cloned().collect() }
    pub fn authority(&self, i: &AuthorityIdentifier) -> Option<Authority> { self.0.get(i).cloned() }
    pub fn is_authority(&self, i: &AuthorityIdentifier) -> bool { self.0.contains_key(i) }
    pub fn size(&self) -> usize { self.0.len() }
    pub fn epoch(&self) -> u32 { 0 }
}
pub struct Certificate;
pub struct SubDag;
impl SubDag { pub fn leader_round(&self) -> Round { 0 } pub fn reputation_scores(&self) -> &ReputationScores { unimplemented!() } }
pub trait ConsensusChainReader { fn read_latest_commit_with_final_reputation_scores(&self, e: Epoch) -> impl std::future::Future<Output = eyre::Result<Option<SubDag>>>; }
pub use reputation::ReputationScores;
mod reputation {
//@module file=crates/types/src/primary/reputation.rs
//@end
}
mod sched {
    pub mod sup { pub type Dag = std::collections::BTreeMap<crate::Round, std::collections::HashMap<crate::AuthorityIdentifier, (u8, crate::Certificate)>>; }
//@module file=crates/consensus/primary/src/consensus/leader_schedule.rs
//@sub /use super::Dag;/ => use sup::Dag;
//@sub /use tn_types::\{/ => use crate::{
//@end
    pub fn parts(t: &LeaderSwapTable) -> (Round, Vec<Authority>, std::collections::BTreeMap<AuthorityIdentifier, Authority>) { (t.round, t.good_nodes.clone(), t.bad_nodes.iter().map(|(k, v)| (k.clone(), v.clone())).collect()) }
}
use sched::{LeaderSchedule, LeaderSwapTable};
fn id(i: u64) -> AuthorityIdentifier { AuthorityIdentifier([(i >> 8) as u8, i as u8]) }
fn isqrt(x: u128) -> u128 { let mut r = (x as f64).sqrt() as u128; while r * r > x { r -= 1; } while (r + 1) * (r + 1) <= x { r += 1; } r }
fn sat(a: u128, b: u128) -> u128 { if a >= b { a - b } else { 0 } }
/// the table by its definition: (good list, bad set)
fn table(scores: &BTreeMap<AuthorityIdentifier, u64>, pct: u64) -> (Vec<AuthorityIdentifier>, BTreeSet<AuthorityIdentifier>) {
    let mut rank: Vec<(u128, AuthorityIdentifier)> = scores.iter().map(|(k, v)| (*v as u128, k.clone())).collect();
    rank.sort(); rank.reverse();
    let n = rank.len() as u128;
    let thr = std::cmp::max(n * pct as u128 / 100, 1) as usize;
    let mean = rank.iter().map(|x| x.0).sum::<u128>() / n;
    let var = rank.iter().map(|x| { let d = if x.0 > mean { x.0 - mean } else { mean - x.0 }; d * d }).sum::<u128>() / n;
    let sd = isqrt(var);
    let hi = rank[0].0; let lo = rank[rank.len() - 1].0;
    let mut c = sat(hi, 2 * sd);
    if sd == 0 || lo > c { return (vec![], BTreeSet::new()); }
    let le = |c: u128| rank.iter().filter(|x| x.0 <= c).count();
    let ge = |g: u128| rank.iter().filter(|x| x.0 >= g).count();
    while le(c) > thr && c > 0 { c = sat(c, sd); }
    let mut g = std::cmp::max(sat(hi, sd), c + 1);
    while ge(g) < thr { let n = std::cmp::max(sat(g, sd), c + 1); if n == g { break; } g = n; }
    (rank.iter().filter(|x| x.0 >= g).map(|x| x.1.clone()).collect(), rank.iter().filter(|x| x.0 <= c).map(|x| x.1.clone()).collect())
}
fn pick(good: &[Authority], round: u32) -> Authority {
    use rand::{seq::IndexedRandom as _, SeedableRng};
    let mut seed = [0u8; 32]; seed[24..].copy_from_slice(&(round as u64).to_le_bytes());
    let mut rng = rand_chacha::ChaCha12Rng::from_seed(seed);
    good.choose(&mut rng).unwrap().clone()
}
fn case(r: &mut vx::Rep, n: u64, scores: &[u64], pct: u64, rounds: &[u32]) {
    let com = Committee((0..n).map(|i| (id(i * 37 % 1009), Authority { id: id(i * 37 % 1009), tag: i })).collect());
    let ids: Vec<AuthorityIdentifier> = com.0.keys().cloned().collect();
    // scores accumulate through add_score, also for a member scored twice and one never scored
    let mut rs = ReputationScores::default();
    let mut want: BTreeMap<AuthorityIdentifier, u64> = BTreeMap::new();
    for (i, s) in scores.iter().enumerate() {
        if *s == u64::MAX { continue; }
        if i % 3 == 1 { rs.add_score(&ids[i], 0); }
        rs.add_score(&ids[i], s / 2); rs.add_score(&ids[i], s - s / 2);
        want.insert(ids[i].clone(), *s);
    }
    rs.final_of_schedule = true;
    r.case(want.len() > 1);
    let what = |s: String| format!("{n} validators, scores {:?}, threshold {pct}%: {s}", scores);
    if rs.scores_per_authority != want { r.fail("add-score", what(format!("scores {:?}", rs.scores_per_authority))); return; }
    let mut rank: Vec<(AuthorityIdentifier, u64)> = want.iter().map(|(k, v)| (k.clone(), *v)).collect();
    rank.sort_by(|a, b| (b.1, &b.0).cmp(&(a.1, &a.0)));
    r.check(rs.authorities_by_score_desc() == rank, "ranking", || what(format!("ranking {:?}", rs.authorities_by_score_desc())));
    r.check(rs.all_zero() == want.values().all(|v| *v == 0), "all-zero", || what("all_zero".into()));
    r.check(rs.total_authorities() == want.len() as u64, "total", || what("total_authorities".into()));
    if want.is_empty() { return; }
    let t = match vx::guard(|| LeaderSwapTable::new(&com, 7, &rs, pct)) { Ok(t) => t, Err(p) => { r.fail("table-panic", what(p)); return; } };
    let (rd, good, bad) = sched::parts(&t);
    let (wg, wb) = table(&want, pct);
    let gi: Vec<_> = good.iter().map(|a| a.id()).collect();
    let bi: BTreeSet<_> = bad.keys().cloned().collect();
    r.check(rd == 7, "round", || what(format!("round {rd}")));
    r.check(gi == wg, "good", || what(format!("good validators {gi:?}, by the rule {wg:?}")));
    r.check(bi == wb, "bad", || what(format!("bad validators {bi:?}, by the rule {wb:?}")));
    r.check(bad.iter().all(|(k, a)| com.0.get(k) == Some(a)) && good.iter().all(|a| com.0.get(&a.id()) == Some(a)), "members", || what("a listed validator is not the committee's".into()));
    r.check(gi.iter().all(|g| !bi.contains(g)), "disjoint", || what(format!("good {gi:?} and bad {bi:?} overlap")));
    r.check(bi.is_empty() || !gi.is_empty(), "stand-in", || what("bad validators and nobody to take over".into()));
    let s = LeaderSchedule::new(com.clone(), LeaderSwapTable::default());
    for swapped in [false, true] {
        if swapped { s.update_leader_swap_table(t.clone()); }
        r.check(s.num_of_bad_nodes() == if swapped { bi.len() } else { 0 }, "num-bad", || what("num_of_bad_nodes".into()));
        for rd in rounds {
            let slot = if *rd < 2 { 0 } else { (*rd as u64 / 2 - 1) % n } as usize;
            let base = com.0[&ids[slot]].clone();
            let exp = if swapped && wb.contains(&base.id()) && !good.is_empty() { pick(&good, *rd) } else { base };
            match vx::guard(|| s.leader(*rd)) {
                Ok(g) => r.check(g == exp, "leader", || what(format!("leader of round {rd} is {g:?}, by the schedule {exp:?}"))),
                Err(p) => r.fail("leader-panic", what(format!("leader of round {rd}: {p}"))),
            }
            let c = LeaderSchedule::new(com.clone(), if swapped { LeaderSwapTable::new(&com, 7, &rs, pct) } else { LeaderSwapTable::default() });
            if let Ok(g) = vx::guard(|| c.leader(*rd)) { r.check(g == exp, "leader-same", || what(format!("two nodes disagree on the leader of round {rd}"))); }
        }
    }
    // certificate of the leader
    let rd = *rounds.iter().find(|x| **x >= 2).unwrap_or(&2);
    if let Ok(l) = vx::guard(|| s.leader(rd)) {
        let mut dag = sched::sup::Dag::new();
        r.check(s.leader_certificate(rd, &dag).0 == l && s.leader_certificate(rd, &dag).1.is_none(), "cert-none", || what("certificate of an empty dag".into()));
        dag.entry(rd).or_default().insert(l.id(), (0, Certificate));
        dag.entry(rd ^ 2).or_default().insert(ids[0].clone(), (0, Certificate));
        let (a, c) = s.leader_certificate(rd, &dag);
        let exp = &dag[&rd][&l.id()].1 as *const _;
        r.check(a == l && c.map(|c| c as *const _) == Some(exp), "cert", || what(format!("leader certificate of round {rd}")));
    }
}
fn main() {
    let mut r = vx::Rep::new();
    // every score vector over {0, 1, 5, 20, 21} for 2..5 validators
    let dom = [0u64, 1, 5, 20, 21];
    for n in 2..=5u64 { for k in 0..dom.len().pow(n as u32) {
        let mut q = k; let s: Vec<u64> = (0..n).map(|_| { let x = dom[q % 5]; q /= 5; x }).collect();
        case(&mut r, n, &s, [0, 10, 20, 33][k % 4], &[0, 2, 4, 6, 8, 10, 12]);
    } if !r.time_left(0.5) { break; } }
    r.sample("every vector of scores over {0,1,5,20,21} for 2..5 validators, rounds 0..12".into());
    while r.time_left(1.0) {
        let n = 2 + r.rng.below(60);
        let mag = [5, 50, 1000, 1 << 20][r.rng.us(4)]; let top = 1 + r.rng.below(mag);
        let style = r.rng.below(4);
        let s: Vec<u64> = (0..n).map(|i| match style { 0 => r.rng.below(top + 1), 1 => if r.rng.chance(1, 4) { r.rng.below(top + 1) / 4 } else { top - r.rng.below(top / 10 + 1) }, 2 => if r.rng.chance(1, 3) { 0 } else { top }, _ => if r.rng.chance(1, 8) { u64::MAX } else { top - r.rng.below(3).min(top) } }).collect();
        let rounds: Vec<u32> = (0..12).map(|_| (match r.rng.below(3) { 0 => r.rng.below(200), 1 => r.rng.below(1 << 32), _ => u32::MAX as u64 - r.rng.below(100) }) as u32 & !1).collect();
        let pct = r.rng.below(34);
        case(&mut r, n, &s, pct, &rounds);
    }
    r.finish()
}
