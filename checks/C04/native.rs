#![allow(dead_code, unused_imports)]
//@include lib/rs/native.rs
//@include lib/rs/archive.rs
//@include lib/rs/fault.rs
//@include lib/rs/epochrec.rs
pub mod consensus_pack {
use crate::archive::error::fetch::FetchError;
//@fn file=crates/storage/src/consensus_pack.rs path="fn fetch_error_is_absent"
//@end
}
pub mod error_latch {
use tokio::sync::watch;
//@fn file=crates/storage/src/error_latch.rs path="fn latch_first_error"
//@end
}
//@path pub mod epoch_records = crates/storage/src/epoch_records.rs
use epoch_records::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::path::{Path, PathBuf};
use std::time::Duration;
use vx::Rng;
pub type ConsensusHeaderDigest = B256;
// ---------------------------------------------------------------- what the tasks talk to
pub struct ConsensusChain(EpochRecordDb);
impl ConsensusChain { pub fn epochs(&self) -> &EpochRecordDb { &self.0 } }
pub type KeyConfig = Signer;
impl Signer { pub fn primary_public_key(&self) -> BlsPublicKey { self.0 } }
#[derive(Clone, Default)] pub struct PrimaryNetworkHandle { answers: std::rc::Rc<RefCell<HashMap<Epoch, Vec<(EpochRecord, EpochCertificate)>>>>, votes: std::rc::Rc<RefCell<Vec<EpochVote>>> }
impl PrimaryNetworkHandle {
    pub async fn request_epoch_cert(&self, e: Option<Epoch>, _h: Option<EpochDigest>) -> Result<(EpochRecord, EpochCertificate), String> {
        self.answers.borrow_mut().get_mut(&e.unwrap()).and_then(|v| v.pop()).ok_or_else(|| "no peer".to_string())
    }
    pub async fn publish_epoch_vote(&self, v: EpochVote) -> Result<(), String> { self.votes.borrow_mut().push(v); Ok(()) }
}
#[derive(Default)] pub struct ConsensusBusApp { seen: RefCell<Vec<(Epoch, u64, ConsensusHeaderDigest)>> }
impl ConsensusBusApp { pub fn publish_consensus_num_hash_if_newer(&self, e: Epoch, n: u64, h: ConsensusHeaderDigest) -> bool { self.seen.borrow_mut().push((e, n, h)); true } }
fn vx_order(n: usize) -> Vec<usize> { (0..n).collect() }
pub mod votes {
use super::*;
use ::tokio::sync::mpsc::{self, Receiver, Sender};
use ::tokio::sync::watch;
use tracing::{error, info, warn};
/// a wait that ends at once when nothing is there
mod tokio { pub mod time { use std::task::Poll;
    pub async fn timeout<F: std::future::Future>(_: std::time::Duration, f: F) -> Result<F::Output, ()> { let mut f = Box::pin(f); std::future::poll_fn(move |c| Poll::Ready(match f.as_mut().poll(c) { Poll::Ready(v) => Ok(v), Poll::Pending => Err(()) })).await } } }
//@fn file=crates/node/src/manager/epoch_votes.rs path="fn save_and_persist_with_logs"
//@end
//@fn file=crates/node/src/manager/epoch_votes.rs path="fn manage_epoch_votes"
//@select
//@end
//@fn file=crates/node/src/manager/epoch_votes.rs path="fn revote_uncertified_epoch_record_on_startup"
//@end
}
pub mod collect {
use super::*;
use tracing::{debug, error, info};
//@fn file=crates/state-sync/src/epoch.rs path="fn collect_epoch_records"
//@end
}
pub mod bundle {
use super::*;
use eyre::{bail, eyre};
//@fn file=crates/telcoin-network-cli/src/db.rs path="fn reject_non_contiguous_records"
//@end
//@fn file=crates/telcoin-network-cli/src/db.rs path="fn verify_record_chain_in_memory"
//@end
//@fn file=crates/telcoin-network-cli/src/db.rs path="fn verify_and_save_epoch_records"
//@end
}
// ---------------------------------------------------------------- what is right, said again
fn signed(d: EpochDigest) -> B256 { hash_of(&encode(&IntentMessage::new(Intent::consensus(IntentScope::EpochBoundary), d))) }
fn certified(r: &EpochRecord, c: &EpochCertificate) -> bool {
    let d = hash_of(&encode(r));
    let mut want: Vec<_> = (0..r.committee.len()).filter(|i| c.signed_authorities.contains(*i as u32)).map(|i| (r.committee[i], signed(d))).collect(); want.sort();
    c.epoch_hash == d && want.len() * 3 > r.committee.len() * 2 && want.len() >= r.committee.len() * 2 / 3 + 1 && c.signature.parts() == want
}
fn set(v: &[BlsPublicKey]) -> BTreeSet<BlsPublicKey> { v.iter().copied().collect() }
fn follows(c: &[BlsPublicKey], e: &BTreeSet<BlsPublicKey>) -> bool {
    let s = set(c);
    s.len() == c.len() && (s == *e || (s.len() < e.len() && s.len() >= 4 && s.len() * 3 >= e.len() * 2 && s.iter().all(|k| e.contains(k))))
}
fn accepts(epoch: Epoch, r: &EpochRecord, c: &EpochCertificate, parent: EpochDigest, next: &BTreeSet<BlsPublicKey>) -> bool { r.epoch == epoch && r.parent_hash == parent && follows(&r.committee, next) && certified(r, c) }
// ---------------------------------------------------------------- chains of records and what may be wrong with them
fn sign(r: &EpochRecord, who: &[usize]) -> EpochCertificate {
    let d = r.digest(); let h = signed(d);
    EpochCertificate { epoch_hash: d, signature: BlsSignature::of(who.iter().map(|i| (r.committee[*i], h)).collect()), signed_authorities: who.iter().map(|i| *i as u32).collect() }
}
fn some(r: &mut Rng, n: usize, k: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); r.shuffle(&mut v); v.truncate(k); v.sort(); v }
fn next_of(r: &mut Rng) -> Vec<BlsPublicKey> { let n = [1, 3, 4, 4, 5, 6, 7, 10][r.us(8)]; some(r, 14, n).into_iter().map(|i| BlsPublicKey(i as u64 + 1)).collect() }
fn record(r: &mut Rng, epoch: Epoch, committee: Vec<BlsPublicKey>, parent: EpochDigest) -> EpochRecord {
    EpochRecord { epoch, committee, next_committee: next_of(r), parent_hash: parent, final_state: BlockNumHash { number: epoch as u64 * 10, hash: B256::from_slice(&r.bytes(32)) }, final_consensus: ConsensusNumHash { number: epoch as u64 * 7 + 1 + r.below(5), hash: if r.chance(1, 12) { B256::default() } else { B256::from_slice(&r.bytes(32)) } } }
}
fn after(r: &mut Rng, next: &[BlsPublicKey]) -> Vec<BlsPublicKey> {
    let e = next.len(); let mut c = next.to_vec(); let low = (2 * e).div_ceil(3).max(4);
    if e > low && r.chance(1, 2) { let k = low + r.us(e - low); c = some(r, e, k).into_iter().map(|i| next[i]).collect(); }
    r.shuffle(&mut c); c
}
fn chain(r: &mut Rng, n: usize) -> (Vec<BlsPublicKey>, Vec<(EpochRecord, EpochCertificate)>) {
    let genesis = next_of(r); let (mut next, mut parent, mut out) = (genesis.clone(), B256::default(), vec![]);
    for e in 0..n { let c = after(r, &next); let x = record(r, e as Epoch, c, parent); let m = x.committee.len(); let k = m * 2 / 3 + 1 + r.us(m - m * 2 / 3); let w = some(r, m, k); let y = sign(&x, &w); next = x.next_committee.clone(); parent = x.digest(); out.push((x, y)); }
    (genesis, out)
}
/// one thing (or nothing) wrong
fn spoil(r: &mut Rng, x: &(EpochRecord, EpochCertificate), others: &[(EpochRecord, EpochCertificate)]) -> (EpochRecord, EpochCertificate, String) {
    let (mut a, mut c) = x.clone(); let all: Vec<usize> = (0..a.committee.len()).collect(); let n = a.committee.len();
    let what = match r.below(14) {
        0 => { a.epoch = if r.chance(1, 2) { a.epoch + 1 } else { a.epoch.wrapping_sub(1) }; c = sign(&a, &all); "other epoch, signed" }
        1 => { a.parent_hash = if r.chance(1, 2) { B256::default() } else { B256::from_slice(&r.bytes(32)) }; c = sign(&a, &all); "other parent, signed" }
        2 => { let k = r.us(n); a.committee[k] = BlsPublicKey(50 + r.below(3)); c = sign(&a, &all); "a stranger in the committee, signed" }
        3 => { a.committee.push(BlsPublicKey(50 + r.below(3))); let m = a.committee.len(); c = sign(&a, &(0..m).collect::<Vec<_>>()); "a member more, signed" }
        4 => { let k = a.committee[r.us(n)]; if n > 4 { a.committee.pop(); } a.committee.push(k); let m = a.committee.len(); let all: Vec<usize> = (0..m).collect(); c = sign(&a, &all); "a member twice, signed" }
        5 => { let k = 1 + r.us(n); a.committee = some(r, n, k).into_iter().map(|i| a.committee[i]).collect(); let m = a.committee.len(); c = sign(&a, &(0..m).collect::<Vec<_>>()); "a smaller committee, signed" }
        6 => { let k = r.us(n * 2 / 3 + 1); let w = some(r, n, k); c = sign(&a, &w); "too few signers" }
        7 => { let k = n * 2 / 3; let w = some(r, n, k); c = sign(&a, &w); c.signed_authorities.insert((n + r.us(3)) as u32); "too few signers and a bit past the committee" }
        8 => { let k = n * 2 / 3; let w = some(r, n, k); c = sign(&a, &w); for i in 0..n as u32 { if c.signed_authorities.insert(i) { break; } } "a bit nobody signed for" }
        9 => { let mut p = c.signature.parts(); let k = r.us(p.len()); p[k].1 = if r.chance(1, 2) { c.epoch_hash } else { signed(B256::from_slice(&r.bytes(32))) }; c.signature = BlsSignature::of(p); "one signature of something else" }
        10 => { a.final_state.number ^= 1; "a field changed after signing" }
        11 => { a.final_state.number ^= 1; c.epoch_hash = a.digest(); "a field and the digest changed after signing" }
        12 if !others.is_empty() => { let o = &others[r.us(others.len())]; if r.chance(1, 2) { a = o.0.clone(); } c = o.1.clone(); "another epoch's" }
        _ => "nothing wrong",
    };
    (a, c, what.into())
}
fn open(dir: &Path) -> EpochRecordDb { let _ = std::fs::remove_dir_all(dir); std::fs::create_dir_all(dir).unwrap(); EpochRecordDb::open(dir).unwrap() }
fn dummy(genesis: &[BlsPublicKey]) -> EpochRecord { EpochRecord { committee: genesis.to_vec(), next_committee: genesis.to_vec(), ..Default::default() } }
/// what the database must say of a downloaded record
async fn anchor(db: &EpochRecordDb, epoch: Epoch) -> Option<(EpochDigest, BTreeSet<BlsPublicKey>)> {
    if epoch == 0 { db.record_by_epoch(0).await.map(|x| (B256::default(), set(&x.committee))) } else { db.record_by_epoch(epoch - 1).await.map(|x| (hash_of(&encode(&x)), set(&x.next_committee))) }
}
fn predicates(rep: &mut vx::Rep, r: &mut Rng) {
    let n = 1 + r.us(4); let (genesis, ch) = chain(r, n); let i = r.us(n);
    let (a, c, what) = spoil(r, &ch[i], &ch);
    let (parent, next) = if i == 0 { (B256::default(), set(&genesis)) } else { (ch[i - 1].0.digest(), set(&ch[i - 1].0.next_committee)) };
    rep.sample(format!("epoch {i}, {} members after {}: {what}", a.committee.len(), next.len()));
    rep.check(a.digest() == hash_of(&encode(&a)), "digest", || format!("digest of {a:?}"));
    rep.check(a.super_quorum() == a.committee.len() * 2 / 3 + 1, "quorum", || format!("super quorum of {} is {}", a.committee.len(), a.super_quorum()));
    let (got, want) = (a.verify_with_cert(&c), certified(&a, &c));
    rep.check(got == want, "verify", || format!("verify_with_cert says {got} ({what}; committee of {}, bits {:?})", a.committee.len(), c.signed_authorities.iter().collect::<Vec<_>>()));
    let (got, want) = (a.committee_compatible(&next), follows(&a.committee, &next));
    rep.check(got == want, "follows", || format!("committee {:?} after {next:?}: {got} ({what})", a.committee));
    let v = validate_record_against_anchor(i as Epoch, &a, &c, parent, &next);
    let want = accepts(i as Epoch, &a, &c, parent, &next);
    rep.check(v.is_valid() == want && (v == EpochRecordValidation::Valid) == want && v != EpochRecordValidation::NoAnchor, "anchor", || format!("epoch {i}: {v:?} ({what})"));
    let s = Signer(BlsPublicKey(r.below(20))); let v = a.sign_vote(&s);
    rep.check(v.epoch == a.epoch && v.epoch_hash == a.digest() && v.public_key == s.0 && v.signature.parts() == vec![(s.0, signed(a.digest()))] && v.check_signature(), "vote", || format!("{v:?}"));
    let mut w = v; match r.below(3) { 0 => w.public_key = BlsPublicKey(99), 1 => w.epoch_hash = B256::from_slice(&r.bytes(32)), _ => w.signature = BlsSignature::of(vec![(s.0, v.epoch_hash)]) }
    rep.check(!w.check_signature(), "vote", || format!("a changed vote passes: {w:?}"));
    let ks: Vec<_> = c.signed_authorities.iter().filter_map(|b| a.committee.get(b as usize).copied()).collect(); let mut want: Vec<_> = ks.iter().map(|k| (*k, signed(c.epoch_hash))).collect(); want.sort();
    let got = c.check_signatures(&ks);
    rep.check(got == (!ks.is_empty() && c.signature.parts() == want), "check", || format!("check_signatures says {got} ({what})"));
}
/// a database filled along a chain, offered good and bad records for every epoch around its end
fn downloads(rep: &mut vx::Rep, r: &mut Rng, dir: &Path, rt: &tokio::runtime::Runtime) {
    let n = 1 + r.us(5); let (genesis, ch) = chain(r, n);
    let db = open(dir); let seeded = r.chance(4, 5);
    rt.block_on(async {
        if seeded { db.save_dummy_epoch0(dummy(&genesis)).await.unwrap(); }
        let held = r.us(n + 1); let mut kind = vec![];
        for (x, y) in &ch[..held] {
            let k = r.below(4); kind.push(k);
            match k { 0 => db.save_record(x.clone()).await.unwrap(), 1 => { db.save_record(x.clone()).await.unwrap(); let mut z = y.clone(); z.signed_authorities.insert(0); z.signature = BlsSignature::of(vec![]); db.save_certificate(x.digest(), z).await.unwrap() } _ => db.save(x.clone(), y.clone()).await.unwrap() }
        }
        for e in 0..n + 2 {
            let got = db.certified_record_by_epoch(e as Epoch).await;
            let ok = match (&got, kind.get(e)) {
                (Ok(x), Some(k)) => *k >= 2 && *x == ch[e].0,
                (Err(CertifiedRecordError::MissingCertificate(q, d)), k) => (k == Some(&0) && *d == ch[e].0.digest() || (k.is_none() && e == 0 && held == 0 && seeded)) && *q == e as Epoch,
                (Err(CertifiedRecordError::InvalidCertificate(q, _)), Some(k)) => *k == 1 && *q == e as Epoch,
                (Err(CertifiedRecordError::MissingRecord(q)), None) => *q == e as Epoch && !(e == 0 && seeded && held == 0 && db.record_by_epoch(0).await.is_none()),
                _ => false };
            rep.check(ok, "certified-record", || format!("epoch {e} of {held} held ({:?}): {got:?}", kind.get(e)));
            if got.is_ok() || matches!(got, Err(CertifiedRecordError::InvalidCertificate(..))) { let b = db.certified_record_by_epoch_with_timeout(e as Epoch, Duration::from_millis(0)).await; rep.check(b == got, "certified-record", || format!("epoch {e} with a timeout: {b:?}, without: {got:?}")); }
            if let Err(x) = got { rep.check(x.is_retryable() == matches!(x, CertifiedRecordError::MissingRecord(_) | CertifiedRecordError::MissingCertificate(..)), "retry", || format!("{x:?}")); }
            let keys = db.get_committee_keys(e as Epoch).await;
            let want = if e < held { Some(set(&ch[e].0.committee)) } else if e == 0 { seeded.then(|| set(&genesis)) } else if e == held { Some(set(&ch[e - 1].0.next_committee)) } else if e == 1 && held == 0 { seeded.then(|| set(&genesis)) } else { None };
            rep.check(keys == want, "keys", || format!("committee of epoch {e} with {held} held: {keys:?}, known {want:?}"));
        }
        for _ in 0..6 {
            let e = r.us(n); let (a, c, what) = spoil(r, &ch[e], &ch);
            let asked = if r.chance(1, 4) { r.us(n + 1) as Epoch } else { e as Epoch };
            let v = db.validate_downloaded_record(asked, &a, &c).await;
            let want = anchor(&db, asked).await;
            let ok = match &want { None => v == EpochRecordValidation::NoAnchor, Some((p, k)) => v != EpochRecordValidation::NoAnchor && v.is_valid() == accepts(asked, &a, &c, *p, k) };
            rep.check(ok, "download", || format!("epoch {asked} asked, {e} answered ({what}), {held} held: {v:?}"));
        }
    });
}
/// votes arrive in any order, repeated, from anyone, for anything; what ends up stored carries a quorum
fn voting(rep: &mut vx::Rep, r: &mut Rng, dir: &Path, rt: &tokio::runtime::Runtime) {
    let n = 1 + r.us(3); let (genesis, ch) = chain(r, n); let e = n - 1; let rec = ch[e].0.clone(); let d = rec.digest(); let m = rec.committee.len();
    let mut other = rec.clone(); other.final_state.number ^= 1; let ours = r.chance(4, 5); let mine = if ours { rec.clone() } else { other.clone() };
    let me = if r.chance(1, 2) { rec.committee[r.us(m)] } else { BlsPublicKey(77) };
    let mut log = vec![]; let mut list = vec![]; let steady = r.chance(1, 2);
    for _ in 0..r.us(3 * m + 4) {
        let k = if r.chance(1, 8) { BlsPublicKey(60 + r.below(3)) } else { rec.committee[r.us(m)] };
        let mut v = if !steady && r.chance(1, 4) { other.sign_vote(&Signer(k)) } else { rec.sign_vote(&Signer(k)) };
        if r.chance(1, 10) { v.epoch += 1; }
        log.push(format!("{}{}{}", k.0, if v.epoch_hash == d { "" } else { "'" }, if v.epoch == rec.epoch { "" } else { "+" })); list.push(v);
    }
    let net = PrimaryNetworkHandle::default(); let mut asked = vec![];
    for _ in 0..r.us(4) { let (a, c, what) = if r.chance(1, 3) { let (a, c) = ch[e].clone(); (a, c, "right".to_string()) } else { spoil(r, &ch[e], &ch) }; log.push(format!("peer: {what}")); asked.push((a, c)); }
    net.answers.borrow_mut().insert(rec.epoch, asked);
    let db = open(dir);
    rt.block_on(async {
        db.save_dummy_epoch0(dummy(&genesis)).await.unwrap();
        for (x, y) in &ch[..e] { db.save(x.clone(), y.clone()).await.unwrap(); }
        db.save_record(mine.clone()).await.unwrap();
        let (tx, rx) = tokio::sync::mpsc::channel(1000);
        for v in &list { tx.send(*v).await.unwrap(); }
        let keep = if r.chance(1, 2) { drop(tx); None } else { Some(tx) };
        votes::manage_epoch_votes(mine.clone(), Signer(me), net.clone(), rx, ConsensusChain(db.clone())).await;
        drop(keep);
        let c = format!("epoch {e}, {m} members, me {}, own record {}: {}", me.0, if ours { "right" } else { "other" }, log.join(" "));
        rep.sample(c.clone());
        let h = mine.digest(); let mut said: BTreeSet<BlsPublicKey> = BTreeSet::new(); let mut done: BTreeSet<BlsPublicKey> = BTreeSet::new();
        if mine.committee.contains(&me) { said.insert(me); done.insert(me); }
        let (mut reached, mut alt) = (false, HashMap::new());
        for v in &list { if v.epoch == mine.epoch && mine.committee.contains(&v.public_key) && done.insert(v.public_key) { if v.epoch_hash == h { said.insert(v.public_key); reached |= said.len() > m * 2 / 3; if said.len() == m { break; } } else { let k = alt.entry(v.epoch_hash).or_insert(0); *k += 1; if *k > m * 2 / 3 { break; } } } }
        let got = db.cert_by_digest(h).await; let anc = anchor(&db, rec.epoch).await.unwrap();
        if reached { rep.check(got.as_ref().is_some_and(|x| certified(&mine, x) && x.signed_authorities.iter().all(|b| said.contains(&mine.committee[b as usize])) && x.signed_authorities.len() as usize == said.len()), "quorum-kept", || format!("a quorum voted, stored: {got:?} ({c})")); }
        for x in [&rec, &other] { if let Some(y) = db.cert_by_digest(x.digest()).await { rep.check(certified(x, &y), "stored", || format!("a certificate that does not verify is stored: {y:?} ({c})")); if !reached { rep.check(accepts(rec.epoch, x, &y, anc.0, &anc.1), "stored", || format!("a record that does not follow is stored ({c})")); } } }
        let offered = net.answers.borrow().get(&rec.epoch).map(|v| v.len()).unwrap_or(0);
        rep.check(!reached || offered == log.iter().filter(|x| x.starts_with("peer")).count(), "asked", || format!("a peer is asked although a quorum voted ({c})"));
        for v in net.votes.borrow().iter() { rep.check(v.public_key == me && v.check_signature() && v.epoch_hash == h && mine.committee.contains(&me), "published", || format!("published {v:?} ({c})")); }
        rep.check(net.votes.borrow().is_empty() != mine.committee.contains(&me), "published", || format!("own vote not published, or published by an outsider ({c})"));
    });
}
/// peers answer right, wrong or not at all; what is stored and published is certified
fn collecting(rep: &mut vx::Rep, r: &mut Rng, dir: &Path, rt: &tokio::runtime::Runtime) {
    let n = 1 + r.us(6); let (genesis, ch) = chain(r, n); let db = open(dir);
    rt.block_on(async {
        db.save_dummy_epoch0(dummy(&genesis)).await.unwrap();
        let held = r.us(n + 1); for (x, y) in &ch[..held] { if r.chance(1, 6) { db.save_record(x.clone()).await.unwrap(); } else { db.save(x.clone(), y.clone()).await.unwrap(); } }
        let net = PrimaryNetworkHandle::default(); let mut log = vec![format!("{held} of {n} held")]; let good = r.chance(1, 2);
        for e in 0..n { if r.chance(1, 8) && !good { continue; } let (a, c, what) = if good || r.chance(2, 3) { (ch[e].0.clone(), ch[e].1.clone(), "right".into()) } else { spoil(r, &ch[e], &ch) }; log.push(format!("{e}: {what}")); net.answers.borrow_mut().insert(e as Epoch, vec![(a, c)]); }
        let last = r.us(held + 1) as Epoch; let (cc, bus) = (ConsensusChain(db.clone()), ConsensusBusApp::default());
        let given = net.answers.borrow().clone();
        let out = collect::collect_epoch_records(last, &cc, &net, &bus).await;
        let c = format!("from {last}, returned {out}; {}", log.join(", "));
        rep.sample(c.clone());
        let (mut sure, mut kept): (Vec<EpochRecord>, Vec<EpochRecord>) = (vec![], vec![]); let (mut parent, mut next) = (B256::default(), set(&genesis));
        for e in 0..n as Epoch + 2 {
            let Some((x, y)) = db.get_epoch_by_number(e).await else { break };
            // a node that holds an uncertified record of this epoch keeps it; the certified one it was answered may still be published
            if y.is_none() && (e as usize) < held { if let Some((a, _)) = given.get(&e).and_then(|v| v.first()).filter(|v| accepts(e, &v.0, &v.1, parent, &next)) { kept.push(a.clone()); } }
            if let Some(y) = y { rep.check(accepts(e, &x, &y, parent, &next), "stored", || format!("epoch {e} is stored and does not follow the chain ({c})")); sure.push(x.clone()); }
            parent = hash_of(&encode(&x)); next = set(&x.next_committee);
        }
        for e in last + 1..=out.max(last) { if e > out { break; } rep.check(sure.iter().chain(&kept).any(|x| x.epoch == e), "returned", || format!("epoch {e} is reported collected and is not stored ({c})")); }
        if good { rep.check(out as usize + 1 >= n && (last as usize..n).all(|e| sure.iter().any(|x| x.epoch as usize == e)), "complete", || format!("every answer was right ({c})")); }
        for (e, k, h) in bus.seen.borrow().iter() { rep.check(sure.iter().chain(&kept).any(|x| x.epoch == *e && x.final_consensus == ConsensusNumHash { number: *k, hash: *h }), "published", || format!("{k} published for epoch {e}, certified by nobody ({c})")); }
        if good { let top = sure.iter().filter(|x| x.epoch >= last && x.final_consensus.hash != B256::default()).map(|x| x.final_consensus.number).max(); rep.check(top.is_none_or(|t| bus.seen.borrow().iter().any(|x| x.1 == t)), "published", || format!("{top:?} was not published ({c})")); }
        let (tx, rx) = tokio::sync::watch::channel(None); votes::revote_uncertified_epoch_record_on_startup(&db, &tx).await;
        let top = db.latest_record().await; let want = match &top { Some(x) if db.cert_by_digest(x.digest()).await.is_none() => Some(x.clone()), _ => None };
        rep.check(*rx.borrow() == want, "revote", || format!("at start {:?} is voted on, the latest record is {top:?} ({c})", rx.borrow().as_ref().map(|x| x.epoch)));
    });
}
/// a bundle of records, complete or with something wrong
fn bundles(rep: &mut vx::Rep, r: &mut Rng, dir: &Path, rt: &tokio::runtime::Runtime) {
    let n = 1 + r.us(6); let (mut genesis, ch) = chain(r, n); let mut log = vec![format!("{n} epochs")];
    let mut recs: Vec<EpochRecord> = ch.iter().map(|x| x.0.clone()).collect(); let mut certs: HashMap<EpochDigest, EpochCertificate> = ch.iter().map(|x| (x.0.digest(), x.1.clone())).collect();
    for _ in 0..r.us(2) + r.us(2) { match r.below(7) {
        0 if recs.len() > 1 => { let k = r.us(recs.len()); recs.remove(k); log.push(format!("without {k}")); }
        1 if recs.len() > 1 => { let k = r.us(recs.len() - 1); recs.swap(k, k + 1); log.push(format!("{k} swapped")); }
        2 if !recs.is_empty() => { let k = r.us(recs.len()); certs.remove(&recs[k].digest()); log.push(format!("no certificate of {k}")); }
        3 => { genesis = next_of(r); log.push("another genesis".into()); }
        4 => { recs.clear(); log.push("no records".into()); }
        _ if !recs.is_empty() => { let k = r.us(recs.len()); let at = (recs[k].epoch as usize).min(n - 1); let (a, c, what) = spoil(r, &ch[at], &ch); certs.insert(a.digest(), c); recs[k] = a; log.push(format!("{k}: {what}")); }
        _ => {}
    } }
    let c = log.join(", "); rep.sample(c.clone());
    let gen = set(&genesis); let (mut parent, mut next, mut good) = (B256::default(), gen.clone(), !recs.is_empty());
    for (i, x) in recs.iter().enumerate() { good &= certs.get(&x.digest()).is_some_and(|y| accepts(i as Epoch, x, y, parent, &next)); parent = x.digest(); next = set(&x.next_committee); }
    let got = bundle::reject_non_contiguous_records(&recs).is_ok();
    rep.check(got == recs.iter().enumerate().all(|(i, x)| x.epoch as usize == i), "contiguous", || format!("{got} ({c})"));
    let got = bundle::verify_record_chain_in_memory(&gen, &recs, &certs);
    rep.check(got.is_ok() == good && (!good || got.as_ref().ok().copied() == recs.last()), "bundle", || format!("the chain is {good}, answered {} ({c})", got.is_ok()));
    let db = open(dir);
    rt.block_on(async {
        let got = bundle::verify_and_save_epoch_records(&db, gen.clone(), &recs, &certs).await;
        let whole = recs.iter().enumerate().all(|(i, x)| x.epoch as usize == i); // the import is given contiguous records only; a repeated one changes nothing
        rep.check(if got.is_ok() { good || recs.is_empty() || !whole } else { !good && !recs.is_empty() }, "import", || format!("the chain is {good}, imported: {got:?} ({c})"));
        let (mut parent, mut next) = (B256::default(), gen.clone());
        for e in 0..n as Epoch + 1 { let Some((x, y)) = db.get_epoch_by_number(e).await else { break }; if y.is_none() && e == 0 { break; } rep.check(y.as_ref().is_some_and(|y| accepts(e, &x, y, parent, &next)), "import", || format!("epoch {e} is imported and does not follow the chain ({c})")); parent = x.digest(); next = set(&x.next_committee); }
    });
}
fn main() {
    let mut rep = vx::Rep::new();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let dir = PathBuf::from(std::env::var("VX_SCRATCH").unwrap()).join(format!("c04-{}", std::process::id()));
    let mut k = 0u64;
    while rep.time_left(1.0) {
        k += 1; let mut r = Rng::new(rep.rng.next());
        let what = k % 8;
        rep.case(true);
        if what < 4 { for _ in 0..12 { predicates(&mut rep, &mut r); } }
        else if what == 4 { downloads(&mut rep, &mut r, &dir, &rt); } else if what == 5 { voting(&mut rep, &mut r, &dir, &rt); } else if what == 6 { collecting(&mut rep, &mut r, &dir, &rt); } else { bundles(&mut rep, &mut r, &dir, &rt); }
        BlsSignature::forget();
    }
    let _ = std::fs::remove_dir_all(&dir);
    rep.finish();
}
