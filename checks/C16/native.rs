// the archive module tree and the codec, compiled where they lie in /repo (no text changed)
extern crate self as tn_types;
//@path pub mod codec = crates/types/src/codec.rs
pub use codec::*;
pub use alloy_primitives::{Address, Bytes, B256, U256};
pub use blake3::Hasher as DefaultHashFunction;
//@path pub mod archive = crates/storage/src/archive/mod.rs
//@include lib/rs/native.rs
//@include lib/rs/fault.rs
use archive::digest_index::index::HdxIndex;
use archive::digest_index::bloom::{Bloom, BLOOM_SIZE_BYTES};
use archive::error::fetch::FetchError;
use archive::fxhasher::FxHasher;
use archive::index::Index;
use archive::pack::{DataHeader, PackCompression};
use std::collections::BTreeMap;
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};
use std::path::Path;
type Res<T> = Result<T, (&'static str, String)>;
/// a stable hasher that puts keys where the driver wants them: the first eight bytes of the last write
#[derive(Default, Clone, Debug)] struct Placed(u64);
impl Hasher for Placed {
    fn write(&mut self, b: &[u8]) { if b.len() >= 8 { self.0 = u64::from_le_bytes(b[..8].try_into().unwrap()); } }
    fn write_u64(&mut self, n: u64) { self.0 = n.rotate_left(7) ^ 0x5bd1_e995; }
    fn finish(&self) -> u64 { self.0 }
}
trait Hs: BuildHasher + Default { const SPREAD: bool; }
impl Hs for BuildHasherDefault<Placed> { const SPREAD: bool = false; }
impl Hs for BuildHasherDefault<FxHasher> { const SPREAD: bool = true; }
const HDR: usize = 68;
const BUCKET: usize = 16 + 40 * 32;
fn crc(b: &mut [u8]) { let n = b.len(); let c = crc32fast::hash(&b[..n - 4]); b[n - 4..].copy_from_slice(&c.to_le_bytes()); }
fn key(g: &mut vx::Rng, hot: &[u64]) -> B256 {
    let mut b = g.bytes(32);
    if g.chance(3, 4) { let h = hot[g.us(hot.len())] + 1024 * (if g.chance(1, 2) { 0 } else { g.below(4) }); b[..8].copy_from_slice(&h.to_le_bytes()); }
    B256::from_slice(&b)
}
fn check_some<S: Hs>(f: &mut HdxIndex<32, S>, m: &BTreeMap<B256, u64>, g: &mut vx::Rng, all: bool, tag: &'static str) -> Res<()> {
    for (i, (k, v)) in m.iter().enumerate() {
        if !all && i >= 40 && !g.chance(40, m.len() as u64) { continue; }
        match f.load(*k) { Ok(w) if w == *v => {} x => return Err((tag, format!("key {k} ({} of {} keys) was saved with {v}, load says {x:?}", i, m.len()))) }
        if i == 0 && !f.contains(*k) { return Err((tag, format!("contains denies {k}"))); }
    }
    for _ in 0..20 {
        let mut k = key(g, &[488, 0]);
        if g.chance(1, 2) { if let Some(x) = m.keys().next() { let mut y = x.0; y[31] ^= 1; k = B256::from(y); } }
        if m.contains_key(&k) { continue; }
        match f.load(k) { Err(FetchError::NotFound) => {} x => return Err((tag, format!("key {k} was never saved, load says {x:?}"))) }
    }
    Ok(())
}
fn history<S: Hs>(r: &mut vx::Rep, dir: &Path, n: u64) {
    let sub = dir.join("hdx");
    let (hp, op) = (sub.join("index.hdx"), sub.join("index.odx"));
    for p in [&hp, &op] { let _ = std::fs::remove_file(p); } let _ = std::fs::remove_dir(&sub);
    let h = DataHeader::new(r.rng.edgy(), PackCompression::None, r.rng.below(4) as u16);
    let hot: Vec<u64> = { let k = 1 + r.rng.us(3); (0..k).map(|_| [488, 489, 0, 999, 1000, 1023, 511, 512][r.rng.us(8)]).collect() };
    let mut log = vec![format!("open({h:?}), busy buckets {hot:?}")];
    let mut m: BTreeMap<B256, u64> = BTreeMap::new();
    let mut saved = 0u64; let mut dup = false;
    let mut dfl: Option<u64> = None;
    let mut f: Option<HdxIndex<32, S>> = None;
    let big = n % 2 == 1;
    let steps = 2 + r.rng.us(10);
    r.case(true);
    let mut synced_len = 0u64;
    for step in 0..steps {
        let act = if step == 0 { 0 } else { r.rng.below(13) };
        let mut g = vx::Rng(r.rng.next());
        let res = vx::guard(|| -> Res<()> {
            let e = |e: String| ("error", e);
            let open = |ro: bool| HdxIndex::<32, S>::open_hdx_file(&sub, &h, S::default(), ro);
            if f.is_none() { f = Some(open(false).map_err(|x| e(format!("open: {x}")))?); }
            let p = f.as_mut().unwrap();
            match act {
                0..=3 => {
                    let k = if step == 0 && big { 15_960 + g.us(80) } else { match g.below(3) { 0 => 1, 1 => g.us(90), _ => g.us(400) } };
                    log.push(format!("save {k} keys"));
                    for i in 0..k {
                        let (q, v) = (if step == 0 && big && i >= 250 { B256::from_slice(&g.bytes(32)) } else if g.chance(1, if big { 3 } else { 8 }) && !m.is_empty() { *m.keys().nth(g.us(m.len().min(60))).unwrap() } else { key(&mut g, &hot) }, if g.chance(1, 3) { g.below(3) } else { g.edgy() });
                        p.save(q, v).map_err(|x| e(format!("save: {x}")))?;
                        if m.insert(q, v).is_some() { dup = true; }
                        saved += 1;
                        if i % 37 == 0 { match p.load(q) { Ok(w) if w == v => {} x => return Err(("load", format!("key {q} just saved with {v}, load says {x:?}"))) } }
                    }
                    if (p.len() as u64) < m.len() as u64 || p.len() as u64 > saved || !dup && p.len() != m.len() || p.is_empty() != m.is_empty() { return Err(("len", format!("{} keys from {saved} saves, len says {}, is_empty {}", m.len(), p.len(), p.is_empty()))); }
                }
                4 => { log.push("sync".into()); p.sync().map_err(|x| e(format!("sync: {x}")))?; }
                5 => { log.push("load".into()); check_some(p, &m, &mut g, true, "load")?; }
                6 => { let v = g.edgy(); log.push(format!("data_file_length {v}")); p.set_data_file_length(v); dfl = Some(v); if p.data_file_length() != v { return Err(("data-file-length", format!("set to {v}, reads {}", p.data_file_length()))); } }
                7 | 8 => {
                    let ro = g.chance(1, 2);
                    log.push(format!("close, reopen{}", if ro { " read only" } else { "" }));
                    let l = p.len();
                    f = None;
                    let before = (std::fs::read(&hp).unwrap(), std::fs::read(&op).unwrap());
                    let mut q = open(ro).map_err(|x| e(format!("reopen: {x}")))?;
                    check_some(&mut q, &m, &mut g, false, "reopen")?;
                    if q.len() != l { return Err(("len", format!("{l} at close, {} at open", q.len()))); }
                    if let Some(v) = dfl { if q.data_file_length() != v { return Err(("data-file-length", format!("set to {v}, reopened as {}", q.data_file_length()))); } }
                    if ro { if q.save(key(&mut g, &hot), 1).is_ok() || q.sync().is_ok() { return Err(("read-only", "a read-only index takes saves".into())); } }
                    drop(q);
                    if before != (std::fs::read(&hp).unwrap(), std::fs::read(&op).unwrap()) { return Err(("read-only", "opening and reading changed the files".into())); }
                }
                9 => { // other identity, other hasher, damaged headers
                    p.sync().map_err(|x| e(format!("sync: {x}")))?;
                    drop(f.take());
                    let ro = g.chance(1, 2);
                    let o = if g.chance(1, 2) { let mut v = g.below(8) as u16; if v == h.version() { v += 1; } DataHeader::new(h.uid(), PackCompression::None, v) } else { DataHeader::new(g.next(), PackCompression::None, h.version()) };
                    if (o.uid() != h.uid() || o.version() != h.version()) && HdxIndex::<32, S>::open_hdx_file(&sub, &o, S::default(), ro).is_ok() { return Err(("identity", format!("the index of {h:?} opened under {o:?}"))); }
                    let other = if S::SPREAD { HdxIndex::<32, BuildHasherDefault<Placed>>::open_hdx_file(&sub, &h, Default::default(), ro).is_ok() } else { HdxIndex::<32, BuildHasherDefault<FxHasher>>::open_hdx_file(&sub, &h, Default::default(), ro).is_ok() };
                    if other { return Err(("hasher", "an index opened under another hasher".into())); }
                    let file = if g.chance(1, 2) { (&hp, HDR) } else { (&op, std::fs::metadata(&op).unwrap().len().min(28) as usize) };
                    let mut b = std::fs::read(file.0).unwrap(); let keep = b.clone();
                    let at = g.us(file.1); let w = (1 + g.us(4)).min(file.1 - at);
                    for k in 0..w { b[at + k] ^= if k == 0 { 1 + g.below(255) as u8 } else { g.next() as u8 }; }
                    log.push(format!("damage {} header bytes {at}..{}", file.0.display(), at + w));
                    std::fs::write(file.0, &b).unwrap();
                    let x = open(ro).is_ok();
                    if x { return Err(("damage", format!("header bytes {at}..{} of {} damaged, opened all the same", at + w, file.0.file_name().unwrap().to_string_lossy()))); }
                    std::fs::write(file.0, &keep).unwrap();
                }
                10 => { // damaged buckets, damaged, cut or looping overflow records: never a wrong position, never "not found" for a key that was saved
                    p.sync().map_err(|x| e(format!("sync: {x}")))?;
                    drop(f.take());
                    let (kh, ko) = (std::fs::read(&hp).unwrap(), std::fs::read(&op).unwrap());
                    let (mut bh, mut bo) = (kh.clone(), ko.clone());
                    let base = HDR + BLOOM_SIZE_BYTES;
                    let recs = (bo.len() - 28) / BUCKET;
                    match g.below(4) {
                        0 => { let c = (bh.len() - base) / BUCKET; for _ in 0..1 + g.us(200) { let x = base + BUCKET * (if g.chance(1, 2) { hot[g.us(hot.len())] as usize % c } else { g.us(c) }) + g.us(BUCKET); if bh[x] == kh[x] { bh[x] ^= 1 + g.below(255) as u8; } } log.push("damage buckets".into()); }
                        1 if recs > 0 => { for i in 0..recs { if g.chance(1, 2) { let x = 28 + i * BUCKET + g.us(BUCKET); bo[x] ^= 1 + g.below(255) as u8; } } log.push("damage overflow records".into()); }
                        2 if recs > 0 => { let c = 28 + g.us(bo.len() - 28); bo.truncate(c); log.push(format!("cut the overflow file to {c}")); }
                        _ if recs > 0 => { let i = g.us(recs); let at = 28 + i * BUCKET; let to = [at, at + BUCKET, 28 + recs * BUCKET][g.us(3)] as u64; let rec = &mut bo[at..at + BUCKET]; rec[..8].copy_from_slice(&to.to_le_bytes()); crc(rec); log.push(format!("overflow record {i} points to {to}")); }
                        _ => {}
                    }
                    std::fs::write(&hp, &bh).unwrap(); std::fs::write(&op, &bo).unwrap();
                    let mut q = open(true).map_err(|x| e(format!("open: {x}")))?;
                    for (i, (k, v)) in m.iter().enumerate() {
                        if i >= 300 && !g.chance(1, 20) { continue; }
                        match q.load(*k) { Ok(w) if w == *v => {} Err(FetchError::NotFound) => return Err(("damage", format!("key {k} was saved; after damage the index says it was not"))), Ok(w) => return Err(("damage", format!("key {k} was saved with {v}; after damage the index says {w}"))), Err(_) => {} }
                    }
                    drop(q);
                    if big { // growing over damage must not forget what it cannot read
                        let mut q = open(false).map_err(|x| e(format!("open: {x}")))?;
                        let before: Vec<B256> = m.keys().copied().filter(|k| matches!(q.load(*k), Err(ref x) if !matches!(x, FetchError::NotFound))).take(50).collect();
                        for _ in 0..200 { let k = B256::from_slice(&g.bytes(32)); if q.save(k, 5).is_err() { break; } }
                        for k in before { match q.load(k) { Err(FetchError::NotFound) => return Err(("damage", format!("key {k} was unreadable; after more saves the index says it was never there"))), Ok(w) if w != m[&k] => return Err(("damage", format!("key {k}: {w}"))), _ => {} } }
                        std::mem::forget(q);
                    }
                    std::fs::write(&hp, &kh).unwrap(); std::fs::write(&op, &ko).unwrap();
                }
                11 => { // bloom alone
                    let mut b = Bloom::new(); let ks: Vec<B256> = (0..50).map(|_| { let k = g.bytes(32); B256::from_slice(&k) }).collect();
                    for (i, k) in ks.iter().enumerate() { b.accrue(*k); for j in &ks[..=i] { if !b.contains(*j) { return Err(("bloom", format!("{j} was added and is denied"))); } } }
                    if b.contains(B256::from_slice(&g.bytes(32))) && b.contains(B256::from_slice(&g.bytes(32))) { return Err(("bloom", "the filter of fifty keys passes everything".into())); }
                    let v: Vec<u8> = b.clone().into();
                    if v != b.data() || Bloom::try_from(v.clone()).map(|c| c.data() == b.data()).unwrap_or(false) != true || Bloom::try_from(v[1..].to_vec()).is_ok() || Bloom::try_from([&v[..], &[0]].concat()).is_ok() { return Err(("bloom", "a filter does not read back from its bytes".into())); }
                }
                _ => { // the disk refuses writes for a while, then works again
                    p.sync().map_err(|x| e(format!("sync: {x}")))?;
                    let lim = match g.below(3) { 0 => std::fs::metadata(&op).unwrap().len() + g.below(3 * BUCKET as u64), 1 => HDR as u64 + BLOOM_SIZE_BYTES as u64 + g.below(1000 * BUCKET as u64), _ => g.below(4000) };
                    let l = fault::Full::at(lim);
                    let mut refused = vec![];
                    for _ in 0..g.us(200) { let (q, v) = (key(&mut g, &hot), g.edgy()); match p.save(q, v) { Ok(()) => { if m.insert(q, v).is_some() { dup = true; } } Err(_) => { refused.push((q, v)); } } saved += 1; }
                    let s = p.sync().is_ok();
                    let mid = check_some(p, &{ let mut c = m.clone(); for (k, _) in &refused { c.remove(k); } c }, &mut vx::Rng(g.next()), false, "full");
                    drop(l);
                    log.push(format!("no file beyond {lim}: {} saves refused, sync {}", refused.len(), if s { "done" } else { "refused" }));
                    for (k, v) in refused { match p.load(k) { Err(FetchError::NotFound) if !m.contains_key(&k) => {} Ok(w) if w == v || m.get(&k) == Some(&w) => { m.insert(k, w); } x => return Err(("full", format!("key {k} refused: load says {x:?}"))) } }
                    mid?;
                    p.sync().map_err(|x| ("full", format!("sync once the disk works again: {x}")))?;
                    check_some(p, &m, &mut g, true, "full")?;
                    drop(f.take());
                    let mut q = open(true).map_err(|x| e(format!("open: {x}")))?;
                    check_some(&mut q, &m, &mut g, true, "full")?;
                }
            }
            Ok(())
        });
        match res {
            Err(p) => { std::mem::forget(f); r.fail("panic", format!("{p}, after {log:?}")); return; }
            Ok(Err((k, w))) => { std::mem::forget(f); r.fail(k, format!("{w}, after {log:?}")); return; }
            Ok(Ok(())) => {}
        }
    }
    if n < 4 { r.sample(log.join("; ")); }
}
fn main() {
    let mut r = vx::Rep::new();
    let dir = std::path::PathBuf::from(std::env::var("VX_SCRATCH").expect("VX_SCRATCH")).join(format!("c16-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut n = 0;
    while r.time_left(1.0) {
        if n % 3 == 2 { history::<BuildHasherDefault<FxHasher>>(&mut r, &dir, n); } else { history::<BuildHasherDefault<Placed>>(&mut r, &dir, n); }
        n += 1;
    }
    let _ = std::fs::remove_dir_all(&dir);
    r.finish()
}
