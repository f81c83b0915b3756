// C24 replay: the redb store against an ordered map per table, over histories with transactions and reopening
//@include lib/rs/native.rs
pub mod tn_types {
pub mod codec {
//@module file=crates/types/src/codec.rs
//@end
}
pub mod database_traits {
//@module file=crates/types/src/database_traits.rs
//@end
}
pub use codec::*;
pub use database_traits::*;
}
pub mod store {
pub mod database {
//@module file=crates/storage/src/redb/database.rs keep=derive,repr,default,self_referencing,borrows,covariant
//@sub /use tn_types::/ => use crate::tn_types::
//@end
}
pub mod wraps {
//@module file=crates/storage/src/redb/wraps.rs
//@sub /use tn_types::/ => use crate::tn_types::
//@end
}
}
use store::database::ReDB;
use tn_types::{Database, DbTx, DbTxMut, Table, TableHint};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::path::Path;
type Res<T> = Result<T, (&'static str, String)>;
type M<T> = BTreeMap<<T as Table>::Key, <T as Table>::Value>;
trait Gen: Table where Self::Key: Debug, Self::Value: PartialEq { fn key(g: &mut vx::Rng) -> Self::Key; fn val(g: &mut vx::Rng) -> Self::Value; }
macro_rules! table { ($n:ident, $h:ident, $s:expr, $k:ty, $v:ty, $gk:expr, $gv:expr) => {
    #[derive(Debug)] struct $n;
    impl Table for $n { type Key = $k; type Value = $v; const NAME: &'static str = $s; const HINT: TableHint = TableHint::$h; }
    impl Gen for $n { fn key(g: &mut vx::Rng) -> $k { ($gk)(g) } fn val(g: &mut vx::Rng) -> $v { ($gv)(g) } }
} }
fn small(g: &mut vx::Rng) -> u64 { let e = [0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 1 << 24, 1 << 32, 1 << 40, u64::MAX - 1, u64::MAX]; if g.chance(3, 4) { e[g.us(e.len())] } else { g.below(600) } }
fn h32(g: &mut vx::Rng) -> [u8; 32] { let mut a = [0u8; 32]; a[31] = g.below(3) as u8; a[0] = g.below(3) as u8 * 127; a }
table!(TA, Epoch, "a", u64, String, small, |g: &mut vx::Rng| format!("v{}", g.below(1000)));
table!(TB, Cache, "b", u64, String, small, |g: &mut vx::Rng| "x".repeat(g.us(5000)));
table!(TC, Kad, "c", (u32, [u8; 32]), Vec<u8>, |g: &mut vx::Rng| (small(g) as u32, h32(g)), |g: &mut vx::Rng| { let n = g.us(40); g.bytes(n) });
table!(TD, Cache, "d", ([u8; 32], u32), u64, |g: &mut vx::Rng| (h32(g), small(g) as u32), |g: &mut vx::Rng| g.edgy());
table!(TE, Epoch, "e", u16, (u64, Option<u8>), |g: &mut vx::Rng| small(g) as u16, |g: &mut vx::Rng| (g.edgy(), if g.chance(1, 2) { None } else { Some(g.next() as u8) }));
struct State { a: M<TA>, b: M<TB>, c: M<TC>, d: M<TD>, e: M<TE> }
impl Clone for State { fn clone(&self) -> Self { State { a: self.a.clone(), b: self.b.clone(), c: self.c.clone(), d: self.d.clone(), e: self.e.clone() } } }
impl State { fn new() -> Self { State { a: M::<TA>::new(), b: M::<TB>::new(), c: M::<TC>::new(), d: M::<TD>::new(), e: M::<TE>::new() } } }
fn er(tag: &'static str) -> impl Fn(eyre::Report) -> (&'static str, String) { move |e| (tag, format!("error: {e}")) }
fn key_near<T: Gen>(m: &M<T>, g: &mut vx::Rng) -> T::Key where T::Key: Ord + Clone + Debug, T::Value: PartialEq {
    if !m.is_empty() && g.chance(1, 2) { m.keys().nth(g.us(m.len())).unwrap().clone() } else { T::key(g) }
}
/// every read of one table, against the ordered map
fn reads<T: Gen>(db: &ReDB, m: &M<T>, g: &mut vx::Rng) -> Res<()> where T::Value: PartialEq {
    let n = T::NAME;
    if db.is_empty::<T>() != m.is_empty() { return Err(("is-empty", format!("is_empty of table {n} with {} records is {}", m.len(), db.is_empty::<T>()))); }
    let all: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let bad = |w: &str, tag: &'static str, got: &dyn Debug| Err((tag, format!("{w} of table {n} holding keys {:?}: {:.300}", m.keys().collect::<Vec<_>>(), format!("{got:?}"))));
    let i: Vec<_> = db.iter::<T>().collect(); if i != all { return bad("iter", "iter", &i); }
    let i: Vec<_> = db.reverse_iter::<T>().collect(); if i != all.iter().rev().cloned().collect::<Vec<_>>() { return bad("reverse_iter", "reverse-iter", &i); }
    let l = db.last_record::<T>(); if l != all.last().cloned() { return bad("last_record", "last-record", &l); }
    let tx = db.read_txn().map_err(er("read-txn"))?;
    let mut ks = vec![];
    for _ in 0..3 {
        let k = key_near::<T>(m, g);
        let x = db.get::<T>(&k).map_err(er("get"))?; if x.as_ref() != m.get(&k) { return bad(&format!("get({k:?})"), "get", &x); }
        let x = tx.get::<T>(&k).map_err(er("get"))?; if x.as_ref() != m.get(&k) { return bad(&format!("read transaction get({k:?})"), "tx-get", &x); }
        let x = db.contains_key::<T>(&k).map_err(er("contains"))?; if x != m.contains_key(&k) { return bad(&format!("contains_key({k:?})"), "contains", &x); }
        let x = tx.contains_key::<T>(&k).map_err(er("contains"))?; if x != m.contains_key(&k) { return bad(&format!("read transaction contains_key({k:?})"), "contains", &x); }
        let x: Vec<_> = db.skip_to::<T>(&k).map_err(er("skip-to"))?.collect(); if x != m.range(k.clone()..).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>() { return bad(&format!("skip_to({k:?})"), "skip-to", &x); }
        let x = db.record_prior_to::<T>(&k); if x != m.range(..k.clone()).next_back().map(|(k, v)| (k.clone(), v.clone())) { return bad(&format!("record_prior_to({k:?})"), "prior", &x); }
        ks.push(k);
    }
    let x = db.multi_get::<T>(ks.iter()).map_err(er("multi-get"))?; if x != ks.iter().map(|k| m.get(k).cloned()).collect::<Vec<_>>() { return bad(&format!("multi_get({ks:?})"), "multi-get", &x); }
    Ok(())
}
fn reads_all(db: &ReDB, s: &State, g: &mut vx::Rng) -> Res<()> { reads::<TA>(db, &s.a, g)?; reads::<TB>(db, &s.b, g)?; reads::<TC>(db, &s.c, g)?; reads::<TD>(db, &s.d, g)?; reads::<TE>(db, &s.e, g) }
fn open(p: &Path) -> Res<ReDB> {
    let db = ReDB::open(p).map_err(er("open"))?;
    db.open_table::<TA>().map_err(er("open-table"))?; db.open_table::<TB>().map_err(er("open-table"))?; db.open_table::<TC>().map_err(er("open-table"))?; db.open_table::<TD>().map_err(er("open-table"))?; db.open_table::<TE>().map_err(er("open-table"))?;
    Ok(db)
}
/// one write on the table, through the database or an open transaction; the model follows
fn write<T: Gen>(db: &ReDB, tx: Option<&mut store::database::ReDbTxMut>, m: &mut M<T>, g: &mut vx::Rng, log: &mut Vec<String>) -> Res<()> where T::Value: PartialEq {
    let mut op = g.below(12);
    // redb 3.1.1 built with debug assertions panics at the commit of a transaction that deletes a table it wrote to: not this repository's code
    if op == 0 && tx.is_some() && log.iter().rev().take_while(|l| *l != "begin").any(|l| l.starts_with(&format!("tx.insert {}", T::NAME)) || l.starts_with(&format!("tx.remove {}", T::NAME))) { op = 1; }
    let k = key_near::<T>(m, g); let v = T::val(g);
    let tag = if tx.is_some() { "tx-write" } else { "write" };
    let w = if tx.is_some() { "tx." } else { "" };
    match op {
        0 => { log.push(format!("{w}clear {}", T::NAME)); match tx { Some(t) => t.clear_table::<T>(), None => db.clear_table::<T>() }.map_err(er(tag))?; m.clear(); }
        1..=3 => { log.push(format!("{w}remove {}[{k:?}]", T::NAME)); match tx { Some(t) => t.remove::<T>(&k), None => db.remove::<T>(&k) }.map_err(er(tag))?; m.remove(&k); }
        _ => { log.push(format!("{w}insert {}[{k:?}]", T::NAME)); match tx { Some(t) => t.insert::<T>(&k, &v), None => db.insert::<T>(&k, &v) }.map_err(er(tag))?; m.insert(k, v); }
    }
    Ok(())
}
fn write_any(db: &ReDB, tx: Option<&mut store::database::ReDbTxMut>, s: &mut State, g: &mut vx::Rng, log: &mut Vec<String>) -> Res<()> {
    match g.below(5) { 0 => write::<TA>(db, tx, &mut s.a, g, log), 1 => write::<TB>(db, tx, &mut s.b, g, log), 2 => write::<TC>(db, tx, &mut s.c, g, log), 3 => write::<TD>(db, tx, &mut s.d, g, log), _ => write::<TE>(db, tx, &mut s.e, g, log) }
}
fn tx_reads<T: Gen>(tx: &impl DbTx, m: &M<T>, g: &mut vx::Rng, tag: &'static str) -> Res<()> where T::Value: PartialEq {
    for _ in 0..2 { let k = key_near::<T>(m, g);
        let x = tx.get::<T>(&k).map_err(er(tag))?; if x.as_ref() != m.get(&k) { return Err((tag, format!("get {}[{k:?}] in a transaction: {:.200}", T::NAME, format!("{x:?}")))); }
        let x = tx.contains_key::<T>(&k).map_err(er(tag))?; if x != m.contains_key(&k) { return Err((tag, format!("contains_key {}[{k:?}] in a transaction: {x}", T::NAME))); } }
    Ok(())
}
fn tx_reads_all(tx: &impl DbTx, s: &State, g: &mut vx::Rng, tag: &'static str) -> Res<()> { tx_reads::<TA>(tx, &s.a, g, tag)?; tx_reads::<TB>(tx, &s.b, g, tag)?; tx_reads::<TC>(tx, &s.c, g, tag)?; tx_reads::<TD>(tx, &s.d, g, tag)?; tx_reads::<TE>(tx, &s.e, g, tag) }
fn history(r: &mut vx::Rep, p: &Path) {
    let _ = std::fs::remove_file(p);
    let mut log: Vec<String> = vec![];
    let mut g = vx::Rng(r.rng.next());
    let steps = 1 + g.us(14);
    r.case(steps > 1);
    let res = vx::guard(|| -> Res<()> {
        let mut s = State::new();
        let mut db = open(p)?;
        for _ in 0..steps {
            match g.below(8) {
                0 => { log.push("reopen".into()); drop(db); db = open(p)?; }
                1 => { log.push("compact".into()); db.compact().map_err(er("compact"))?; }
                2..=4 => {
                    // a transaction: its own reads see it, nobody else's do until the commit, then everybody's
                    let before = db.read_txn().map_err(er("read-txn"))?;
                    let mut t = db.write_txn().map_err(er("write-txn"))?;
                    let mut s2 = s.clone();
                    log.push("begin".into());
                    for _ in 0..g.us(6) { write_any(&db, Some(&mut t), &mut s2, &mut g, &mut log)?; }
                    tx_reads_all(&t, &s2, &mut g, "own-writes")?;
                    reads_all(&db, &s, &mut g).map_err(|(_, e)| ("uncommitted-visible", format!("with a transaction open: {e}")))?;
                    tx_reads_all(&before, &s, &mut g, "snapshot")?;
                    if g.chance(2, 3) { log.push("commit".into()); t.commit().map_err(er("commit"))?; let s0 = std::mem::replace(&mut s, s2); tx_reads_all(&before, &s0, &mut g, "snapshot")?; } else { log.push("drop".into()); drop(t); }
                }
                5 => {
                    // an iterator started before a write goes on over what it started with
                    let it = db.iter::<TA>(); let rev = db.reverse_iter::<TA>();
                    let all: Vec<_> = s.a.iter().map(|(k, v)| (*k, v.clone())).collect();
                    let mut s2 = s.clone();
                    write::<TA>(&db, None, &mut s2.a, &mut g, &mut log)?;
                    let (x, y): (Vec<_>, Vec<_>) = (it.collect(), rev.collect());
                    if x != all || y != all.iter().rev().cloned().collect::<Vec<_>>() { return Err(("iter-snapshot", format!("iterators over {} records, one write later, gave {} and {}, or others", all.len(), x.len(), y.len()))); }
                    s = s2;
                }
                _ => write_any(&db, None, &mut s, &mut g, &mut log)?,
            }
            reads_all(&db, &s, &mut g)?;
            if g.chance(1, 6) {
                // the process dies here: what the file holds now, opened again
                let c = p.with_extension("crash");
                std::fs::copy(p, &c).map_err(|e| ("copy", e.to_string()))?;
                let d = open(&c).map_err(|(_, e)| ("crash", format!("the file of a killed process does not open: {e}")))?;
                let x = reads_all(&d, &s, &mut g).map_err(|(_, e)| ("crash", format!("in the file of a process killed after a successful call: {e}")));
                drop(d);
                let _ = std::fs::remove_file(&c);
                x?;
            }
        }
        drop(db);
        let db = open(p)?;
        reads_all(&db, &s, &mut g).map_err(|(_, e)| ("reopen", format!("after reopening: {e}")))
    });
    match res { Ok(Ok(())) => {} Ok(Err((t, e))) => r.fail(t, format!("{e}; after {}", log.join(", "))), Err(e) => r.fail("panic", format!("{e}; after {}", log.join(", "))) }
    if log.len() > 3 { r.sample(log.join(", ")); }
}
/// threads write and read at once: a read never sees half a transaction
fn concurrent(r: &mut vx::Rep, p: &Path) {
    let _ = std::fs::remove_file(p);
    let n = if r.thorough { 200 } else { 40 };
    r.case(true);
    let res = vx::guard(|| -> Res<()> {
        let db = open(p)?;
        let stop = std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|sc| {
            let rd = sc.spawn(|| -> Res<()> {
                let mut last = 0;
                while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                    let t = db.read_txn().map_err(er("read-txn"))?;
                    let (x, y) = (t.get::<TA>(&1).map_err(er("get"))?, t.get::<TB>(&1).map_err(er("get"))?);
                    if x != y { return Err(("half-txn", format!("one read transaction saw {x:?} and {y:?}, written together"))); }
                    let v: u64 = x.map(|s| s.parse().unwrap()).unwrap_or(0);
                    if v < last { return Err(("went-back", format!("a later read saw {v} after {last}"))); }
                    last = v;
                    let c = db.iter::<TA>().count(); if c % 2 != 0 { return Err(("half-txn", format!("an iterator saw {c} of an even number of records"))); }
                }
                Ok(())
            });
            let mut out = Ok(());
            for i in 1..=n {
                let w = (|| -> eyre::Result<()> { let mut t = db.write_txn()?; t.insert::<TA>(&1, &format!("{i}"))?; t.insert::<TA>(&2, &format!("{i}"))?; t.insert::<TB>(&1, &format!("{i}"))?; t.commit() })();
                if let Err(e) = w { out = Err(("write", format!("{e}"))); break; }
            }
            stop.store(true, std::sync::atomic::Ordering::SeqCst);
            out?;
            rd.join().unwrap_or(Err(("panic", "the reader panicked".into())))
        })
    });
    match res { Ok(Ok(())) => {} Ok(Err((t, e))) => r.fail(t, e), Err(e) => r.fail("panic", e) }
}
fn main() {
    let mut r = vx::Rep::new();
    let dir = std::path::PathBuf::from(std::env::var("VX_SCRATCH").expect("VX_SCRATCH"));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("db.redb");
    concurrent(&mut r, &p);
    while r.time_left(0.95) { history(&mut r, &p); }
    let _ = std::fs::remove_file(&p);
    r.finish()
}
