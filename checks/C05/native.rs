#![allow(dead_code, unused_imports)]
//@include lib/rs/native.rs
//@include lib/rs/archive.rs
//@include lib/rs/fault.rs
//@include lib/rs/epochrec.rs
pub mod consensus_pack {
use crate::archive::error::fetch::FetchError;
//@fn file=crates/storage/src/consensus_pack.rs path="fn fetch_error_is_absent"
//@end
}
pub mod error_latch {
use tokio::sync::watch;
//@fn file=crates/storage/src/error_latch.rs path="fn latch_first_error"
//@end
}
//@path pub mod epoch_records = crates/storage/src/epoch_records.rs
use epoch_records::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vx::Rng;
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
fn copy_tree(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() { let e = e.unwrap(); let t = to.join(e.file_name()); if e.path().is_dir() { copy_tree(&e.path(), &t) } else { std::fs::copy(e.path(), t).unwrap(); } }
}
const APPEND: [&str; 5] = ["epochs.pack", "epoch_certs.pack", "epochs.idx/index.pdx", "epochs.hash/index.odx", "epoch_certs.hash/index.odx"];
/// files in the order `persist` makes them durable
const ORDER: [&[&str]; 5] = [&["epochs.pack"], &["epoch_certs.pack"], &["epochs.idx/index.pdx"], &["epochs.hash/index.odx", "epochs.hash/index.hdx"], &["epoch_certs.hash/index.odx", "epoch_certs.hash/index.hdx"]];
fn record(r: &mut Rng, epoch: Epoch, last: u64) -> EpochRecord {
    let n = 1 + r.us(5); let key = |r: &mut Rng| BlsPublicKey(r.below(9));
    EpochRecord { epoch, committee: (0..n).map(|_| key(r)).collect(), next_committee: (0..r.us(4)).map(|_| key(r)).collect(), parent_hash: B256::from_slice(&r.bytes(32)),
        final_state: BlockNumHash { number: r.below(1000), hash: B256::from_slice(&r.bytes(32)) }, final_consensus: ConsensusNumHash { number: last + 1 + r.below(4), hash: B256::from_slice(&r.bytes(32)) } }
}
fn cert(r: &mut Rng, d: EpochDigest) -> EpochCertificate {
    EpochCertificate { epoch_hash: d, signature: BlsSignature(r.below(1 << 40)), signed_authorities: (0..r.us(5)).map(|_| r.below(70_000) as u32).collect() }
}
struct Life<'a> { rt: tokio::runtime::Runtime, dir: &'a Path, at: PathBuf, base: PathBuf, db: Option<EpochRecordDb>, recs: Vec<EpochRecord>, certs: BTreeMap<EpochDigest, EpochCertificate>, ghosts: Vec<EpochRecord>, kept: usize, kept_certs: usize, cert_log: Vec<EpochDigest>, log: Vec<String>, n: u32 }
impl<'a> Life<'a> {
    fn open(&mut self, rep: &mut vx::Rep) -> bool {
        match EpochRecordDb::open(&self.at) { Ok(d) => { self.db = Some(d); true } Err(e) => { rep.fail("open", format!("the database does not open: {e} ({})", self.log.join(", "))); false } }
    }
    fn ctx(&self) -> String { self.log.join(", ") }
    fn snap(&mut self) { let _ = self.rt.block_on(self.db.as_ref().unwrap().latest_record()); let _ = std::fs::remove_dir_all(&self.base); copy_tree(&self.at, &self.base); }
    /// everything the database answers against the records and certificates that were saved
    fn read(&mut self, rep: &mut vx::Rep, r: &mut Rng) {
        let db = self.db.as_ref().unwrap().clone(); let c = self.ctx(); let (recs, certs) = (self.recs.clone(), self.certs.clone());
        self.rt.block_on(async {
            let n = recs.len();
            for e in 0..n as Epoch + 2 {
                let want = recs.get(e as usize).cloned();
                let got = db.record_by_epoch(e).await;
                rep.check(got == want, "by-epoch", || format!("epoch {e}: {got:?}, saved was {want:?} ({c})"));
                let has = db.contains_epoch(e).await;
                rep.check(has == want.is_some(), "contains", || format!("contains epoch {e}: {has} ({c})"));
                if let Some(w) = &want {
                    let d = w.digest();
                    let got = db.record_by_digest(d).await;
                    rep.check(got.as_ref() == Some(w), "by-digest", || format!("record of epoch {e} by its digest: {got:?} ({c})"));
                    rep.check(db.contains_record_digest(d).await, "contains-digest", || format!("contains denies the digest of epoch {e} ({c})"));
                    let got = db.cert_by_digest(d).await;
                    rep.check(got == certs.get(&d).cloned(), "cert", || format!("certificate of epoch {e}: {got:?}, saved was {:?} ({c})", certs.get(&d)));
                    let got = db.get_epoch_by_number(e).await;
                    rep.check(got == Some((w.clone(), certs.get(&d).cloned())), "pair", || format!("epoch {e} by number: {got:?} ({c})"));
                    let got = db.get_epoch_by_hash(d).await;
                    rep.check(got == Some((w.clone(), certs.get(&d).cloned())), "pair", || format!("epoch {e} by hash: {got:?} ({c})"));
                }
            }
            let got = db.latest_record().await;
            rep.check(got == recs.last().cloned(), "latest", || format!("latest {got:?} ({c})"));
            let top = recs.last().map(|x| x.final_consensus.number).unwrap_or(0) + 3;
            for k in 0..top {
                let want = recs.iter().filter(|x| x.final_consensus.number < k).count() as u32;
                let got = db.number_to_epoch(k);
                rep.check(got == want, "number", || format!("header number {k} belongs to epoch {want}, answered {got} ({c})"));
            }
            let tip = r.below(n as u64 + 3) as Epoch;
            let want = (0..tip).find(|e| !recs.get(*e as usize).is_some_and(|x| certs.contains_key(&x.digest())));
            let got = db.first_missing_historical_cert(tip).await;
            rep.check(got == want, "first-missing", || format!("first epoch below {tip} without a certificate is {want:?}, answered {got:?} ({c})"));
            let d = B256::from_slice(&r.bytes(32));
            rep.check(db.record_by_digest(d).await.is_none() && db.cert_by_digest(d).await.is_none() && !db.contains_record_digest(d).await, "foreign", || format!("an unknown digest is answered ({c})"));
        });
        for g in self.ghosts.clone() {
            let d = g.digest();
            if recs.iter().any(|x| x.digest() == d) { continue; }
            let got = self.rt.block_on(db.record_by_digest(d));
            rep.check(got.as_ref().is_none_or(|x| *x == g), "wrong-record", || format!("the digest of a lost record of epoch {} is answered with another one, of epoch {} ({c})", g.epoch, got.as_ref().map(|x| x.epoch).unwrap_or(0)));
        }
    }
    fn step(&mut self, rep: &mut vx::Rep, r: &mut Rng) {
        let db = self.db.as_ref().unwrap().clone();
        let n = self.recs.len() as Epoch; let last = self.recs.last().map(|x| x.final_consensus.number).unwrap_or(0);
        match r.below(10) {
            0..=2 => { let x = record(r, n, last); self.log.push(format!("save_record {n}")); let a = self.rt.block_on(db.save_record(x.clone())); self.recs.push(x); let c = self.ctx(); rep.check(a.is_ok(), "save", || format!("{a:?} ({c})")); }
            3 | 4 => { let x = record(r, n, last); let d = x.digest(); let y = cert(r, d); self.log.push(format!("save {n}")); let a = self.rt.block_on(db.save(x.clone(), y.clone())); self.recs.push(x); self.certs.insert(d, y); self.cert_log.push(d); let c = self.ctx(); rep.check(a.is_ok(), "save", || format!("{a:?} ({c})")); }
            5 | 6 if n > 0 => {
                let e = r.us(n as usize); let x = self.recs[e].clone(); let d = x.digest(); let y = cert(r, d);
                if r.chance(1, 2) { self.log.push(format!("save_certificate {e}")); let _ = self.rt.block_on(db.save_certificate(d, y.clone())); } else { self.log.push(format!("save {e} again")); let _ = self.rt.block_on(db.save(x, y.clone())); }
                if !self.certs.contains_key(&d) { self.certs.insert(d, y); self.cert_log.push(d); }
            }
            7 => { let e = n + 1 + r.below(2) as Epoch; let x = record(r, e, last + 10); let a = self.rt.block_on(db.save_record(x.clone())); let c = self.ctx(); rep.check(a.is_err(), "gap", || format!("epoch {e} is taken after {n} epochs ({c})")); }
            8 => { self.log.push("persist".into()); let a = self.rt.block_on(db.persist()); let c = self.ctx(); rep.check(a.is_ok(), "persist", || format!("{a:?} ({c})")); self.snap(); self.kept = self.recs.len(); self.kept_certs = self.cert_log.len(); }
            _ => self.read(rep, r),
        }
    }
    /// the power goes: files as they are, or any mix of what was durable and what was written since
    fn crash(&mut self, rep: &mut vx::Rep, r: &mut Rng) {
        let db = self.db.take().unwrap();
        let _ = self.rt.block_on(db.latest_record());
        self.n += 1; let now = self.dir.join(format!("now{}", self.n)); copy_tree(&self.at, &now);
        let kind = r.below(4);
        // a persist that is cut short: the first j files are durable as they would be at its end
        let mut full = now.clone();
        if kind >= 1 { let _ = self.rt.block_on(db.persist()); self.n += 1; full = self.dir.join(format!("now{}", self.n)); copy_tree(&self.at, &full); }
        drop(db);
        let _ = std::fs::remove_dir_all(&self.at); std::fs::create_dir_all(&self.at).unwrap(); copy_tree(&now, &self.at);
        match kind {
            0 => self.log.push("killed".into()),
            _ => {
                let j = r.us(6);
                self.log.push(format!("power cut after {j} of 5 files of a persist"));
                for (k, fs) in ORDER.iter().enumerate() { for f in fs.iter() {
                    let (b, w) = (std::fs::read(self.base.join(f)).unwrap_or_default(), std::fs::read(full.join(f)).unwrap());
                    let out = if k < j { w } else if k > j || kind == 1 { b } else if APPEND.contains(f) { let mut l = b.len() + r.us(w.len() - b.len() + 1); if l < 28.min(w.len()) { l = b.len(); } self.log.push(format!("{f} {} of {}..{}", l, b.len(), w.len())); w[..l].to_vec() } else if r.chance(1, 2) { w } else { b };
                    std::fs::write(self.at.join(f), out).unwrap();
                } }
            }
        }
        for p in [now, full] { let _ = std::fs::remove_dir_all(&p); }
        self.settle(rep, r);
    }
    /// the disk fills up, some saves are tried, there is room again, some are tried again; then the database is reopened
    fn full_disk(&mut self, rep: &mut vx::Rep, r: &mut Rng) {
        let db = self.db.take().unwrap();
        let _ = self.rt.block_on(db.latest_record());
        let from = self.recs.len();
        let pack = std::fs::metadata(self.at.join("epochs.pack")).map(|m| m.len()).unwrap_or(0);
        let lim = [pack, pack + r.below(200), 1_300_000 - r.below(600_000), 4096][r.us(4)];
        self.log.push(format!("disk full at {lim}"));
        let mut k = 1 + r.us(3);
        let mut last = self.recs.last().map(|x| x.final_consensus.number).unwrap_or(0);
        for i in 0..k { let x = record(r, (from + i) as Epoch, last); last = x.final_consensus.number; self.recs.push(x); }
        for round in 0..2 {
            let full = if round == 0 { Some(fault::Full::at(lim)) } else { None };
            for i in 0..k {
                let x = self.recs[from + i].clone(); let d = x.digest();
                if r.chance(1, 2) { let a = self.rt.block_on(db.save_record(x)).is_ok(); self.log.push(format!("save_record {} {}", from + i, a)); }
                else { let y = self.certs.get(&d).cloned().unwrap_or_else(|| cert(r, d)); let a = self.rt.block_on(db.save(x, y.clone())).is_ok(); self.log.push(format!("save {} {}", from + i, a)); if !self.certs.contains_key(&d) { self.certs.insert(d, y); self.cert_log.push(d); } }
                if r.chance(1, 3) { let a = self.rt.block_on(db.persist()).is_ok(); self.log.push(format!("persist {a}")); }
            }
            let _ = self.rt.block_on(db.latest_record());
            drop(full);
            let _ = db.get_error();
            if r.chance(1, 2) { break; }
            k = self.recs.len() - from;
        }
        drop(db);
        self.settle(rep, r);
    }
    fn settle(&mut self, rep: &mut vx::Rep, r: &mut Rng) {
        if !self.open(rep) { return; }
        // what is left: a prefix, at least as long as what was persisted
        let db = self.db.as_ref().unwrap().clone(); let c = self.ctx();
        let mut left = 0;
        while self.rt.block_on(db.contains_epoch(left)) { left += 1; }
        rep.check(left as usize >= self.kept && left as usize <= self.recs.len(), "lost", || format!("{left} epochs are left of {} persisted, {} saved ({c})", self.kept, self.recs.len()));
        let lost = self.recs.split_off((left as usize).min(self.recs.len()));
        let mut keep = vec![];
        for (i, d) in self.cert_log.clone().into_iter().enumerate() {
            let got = self.rt.block_on(db.cert_by_digest(d));
            if i < self.kept_certs { rep.check(got.is_some(), "lost", || format!("a certificate that was persisted is gone ({c})")); }
            if got.is_some() { keep.push(d); } else { self.certs.remove(&d); }
        }
        self.kept_certs = keep.len().min(self.kept_certs);
        self.cert_log = keep;
        // a certificate stored without its record stays: the record is written again or never
        for g in lost { self.certs.remove(&g.digest()); self.cert_log.retain(|d| *d != g.digest()); self.ghosts.push(g); }
        self.log.push(format!("{left} epochs left"));
        self.snap(); // what an open leaves behind counts as written, not as durable: keep the older base
        self.kept = self.recs.len(); self.kept_certs = self.cert_log.len();
        self.read(rep, r);
    }
}
fn life(rep: &mut vx::Rep, dir: &Path) {
    let mut r = Rng::new(rep.rng.next());
    let mut l = Life { rt: rt(), dir, at: dir.join("db"), base: dir.join("base"), db: None, recs: vec![], certs: BTreeMap::new(), ghosts: vec![], kept: 0, kept_certs: 0, cert_log: vec![], log: vec![], n: 0 };
    if l.open(rep) {
        l.snap();
        for _ in 0..3 + r.us(20) { if l.db.is_none() { break; } match r.below(9) { 0 => l.crash(rep, &mut r), 8 => l.full_disk(rep, &mut r), 1 => { l.log.push("closed".into()); l.db = None; if l.open(rep) { l.snap(); l.kept = l.recs.len(); l.kept_certs = l.cert_log.len(); l.read(rep, &mut r); } } _ => l.step(rep, &mut r) } }
        if l.db.is_some() { l.read(rep, &mut r); }
    }
    l.db = None;
    rep.case(l.log.len() > 1);
    for p in [dir.join("db"), dir.join("base")] { let _ = std::fs::remove_dir_all(&p); }
}
fn main() {
    let mut rep = vx::Rep::new();
    let dir = PathBuf::from(std::env::var("VX_SCRATCH").unwrap()).join(format!("c05-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir); std::fs::create_dir_all(&dir).unwrap();
    while rep.time_left(1.0) { life(&mut rep, &dir); }
    let _ = std::fs::remove_dir_all(&dir);
    rep.finish();
}
