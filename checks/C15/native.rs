//@include lib/rs/native.rs
//@include lib/rs/archive.rs
//@include lib/rs/fault.rs
use archive::error::{fetch::FetchError, load_header::LoadHeaderError};
use archive::index::Index;
use archive::pack::{DataHeader, PackCompression};
use archive::position_index::index::{PosIndexValue, PositionIndex};
use std::path::Path;
type Res<T> = Result<T, (&'static str, String)>;
// ---- the stored form, stated independently
trait V: PosIndexValue + Clone + PartialEq + std::fmt::Debug + Copy { fn gen(g: &mut vx::Rng) -> Self; fn bytes(&self) -> Vec<u8>; const W: usize; }
impl V for u64 { fn gen(g: &mut vx::Rng) -> Self { g.edgy() } fn bytes(&self) -> Vec<u8> { self.to_le_bytes().to_vec() } const W: usize = 8; }
impl V for (u64, u64) { fn gen(g: &mut vx::Rng) -> Self { (g.edgy(), g.edgy()) } fn bytes(&self) -> Vec<u8> { [self.0.to_le_bytes(), self.1.to_le_bytes()].concat() } const W: usize = 16; }
fn header(h: &DataHeader) -> Vec<u8> {
    let mut b = b"telcoinx".to_vec();
    b.extend(h.version().to_le_bytes()); b.extend(h.uid().to_le_bytes()); b.extend(h.appnum().to_le_bytes());
    let c = crc32fast::hash(&b);
    b.extend(c.to_le_bytes());
    b
}
fn image<T: V>(h: &DataHeader, m: &[T]) -> Vec<u8> { let mut b = header(h); for v in m { b.extend(v.bytes()); } b }
fn check_disk<T: V>(path: &Path, h: &DataHeader, m: &[T], tag: &'static str) -> Res<()> {
    let b = std::fs::read(path).unwrap();
    if b != image(h, m) { return Err((tag, format!("file has {} bytes, not the header and the {} values in order", b.len(), m.len()))); }
    Ok(())
}
fn check_all<T: V>(f: &mut PositionIndex<T>, m: &[T], g: &mut vx::Rng, tag: &'static str) -> Res<()> {
    if f.len() != m.len() || f.is_empty() != m.is_empty() { return Err((tag, format!("len {} is_empty {}, expected {}", f.len(), f.is_empty(), m.len()))); }
    for k in 0..6 {
        let i = if m.is_empty() { 0 } else if k == 0 { m.len() - 1 } else { g.us(m.len()) };
        match (f.load(i as u64), m.get(i)) { (Ok(v), Some(w)) if v == *w => {} (Err(FetchError::NotFound), None) => {} (x, w) => return Err((tag, format!("load {i} of {}: {x:?}, expected {w:?}", m.len()))) }
    }
    for i in [m.len() as u64, m.len() as u64 + 1, u64::MAX, u64::MAX / 8, 1 << 61] { if let Ok(v) = f.load(i) { return Err((tag, format!("load {i} of {} values: {v:?}", m.len()))); } }
    for n in [0, 1, m.len() / 2, m.len(), m.len() + 3, usize::MAX, usize::MAX / 8] {
        let n2 = n.min(m.len());
        let a: Vec<_> = f.iter(n).map_err(|e| (tag, format!("iter({n}): {e}")))?.map(|x| x.ok()).collect();
        if a != m[..n2].iter().map(|v| Some(*v)).collect::<Vec<_>>() { return Err((tag, format!("iter({n}) over {} values gave {} of them, or others", m.len(), a.len()))); }
        let a: Vec<_> = f.rev_iter(n).map_err(|e| (tag, format!("rev_iter({n}): {e}")))?.map(|x| x.ok()).collect();
        if a != m[m.len() - n2..].iter().rev().map(|v| Some(*v)).collect::<Vec<_>>() { return Err((tag, format!("rev_iter({n}) over {} values gave {} of them, or others", m.len(), a.len()))); }
    }
    Ok(())
}
fn history<T: V>(r: &mut vx::Rep, dir: &Path, n: u64) {
    let name = "index.pdx";
    let sub = dir.join("pdx");
    let path = sub.join(name);
    let _ = std::fs::remove_file(&path); let _ = std::fs::remove_dir(&sub);
    let h = DataHeader::new(r.rng.edgy(), PackCompression::None, r.rng.below(4) as u16);
    let mut log = vec![format!("open({h:?}), width {}", T::W)];
    let mut m: Vec<T> = vec![];
    let mut f: Option<PositionIndex<T>> = None;
    let steps = 1 + r.rng.us(if n % 3 == 0 { 40 } else { 12 });
    r.case(steps > 1);
    for _ in 0..steps {
        let op = r.rng.below(14);
        let mut g = vx::Rng(r.rng.next());
        let res = vx::guard(|| -> Res<()> {
            let e = |e: String| ("error", e);
            if f.is_none() { f = Some(PositionIndex::open_pdx_file(&sub, &h, name, false).map_err(|x| e(format!("open: {x}")))?); }
            let p = f.as_mut().unwrap();
            match op {
                0..=3 => {
                    let k = match g.below(3) { 0 => 1, 1 => g.us(20), _ => g.us(3000) };
                    log.push(format!("save {k} values from {}", m.len()));
                    for _ in 0..k { let v = T::gen(&mut g); p.save(m.len() as u64, v).map_err(|x| e(format!("save: {x}")))?; m.push(v); }
                }
                4 => { let k = match g.below(3) { 0 => m.len() as u64 + 1 + g.below(3), 1 => (m.len() as u64).wrapping_sub(1 + g.below(3)), _ => g.edgy() };
                    if k != m.len() as u64 { log.push(format!("save at {k}")); if p.save(k, T::gen(&mut g)).is_ok() { return Err(("gap", format!("a value was accepted at {k}, the next position is {}", m.len()))); } } }
                5 => { log.push("sync".into()); p.sync().map_err(|x| e(format!("sync: {x}")))?; check_disk(&path, &h, &m, "sync")?; }
                6 => { log.push("check".into()); check_all(p, &m, &mut g, "load")?; }
                7 => { let k = match g.below(4) { 0 => m.len() as u64 + g.below(4), 1 => g.edgy(), _ => g.below(m.len() as u64 + 1) };
                    log.push(format!("truncate_to_index {k} of {}", m.len()));
                    p.truncate_to_index(k).map_err(|x| e(format!("truncate: {x}")))?;
                    if k < m.len() as u64 { m.truncate(k as usize + 1); }
                    check_all(p, &m, &mut g, "truncate")?; }
                8 => { if g.chance(1, 3) { log.push("truncate_all".into()); p.truncate_all().map_err(|x| e(format!("truncate_all: {x}")))?; m.clear(); check_all(p, &m, &mut g, "truncate")?; } }
                9 | 10 => { log.push("close, reopen".into()); f = None; check_disk(&path, &h, &m, "close")?;
                    f = Some(PositionIndex::open_pdx_file(&sub, &h, name, false).map_err(|x| e(format!("reopen: {x}")))?);
                    check_disk(&path, &h, &m, "reopen")?; check_all(f.as_mut().unwrap(), &m, &mut g, "reopen")?; }
                11 => { // a torn last record
                    f = None;
                    let b = std::fs::read(&path).unwrap();
                    let at = 26 + g.us(b.len() - 25);
                    log.push(format!("cut at {at} of {}", b.len()));
                    std::fs::write(&path, &b[..at]).unwrap();
                    let torn = (at - 26) % T::W != 0;
                    m.truncate((at - 26) / T::W);
                    match PositionIndex::<T>::open_pdx_file(&sub, &h, name, true) { Err(LoadHeaderError::InvalidIndexGeometry) if torn => {} Ok(mut q) if !torn => { check_all(&mut q, &m, &mut g, "read only")?; if q.save(m.len() as u64, T::gen(&mut g)).is_ok() { return Err(("read only", "save on a read-only index".into())); } } x => return Err(("torn", format!("read-only open of a file cut at {at}: {:?}", x.map(|q| q.len())))) }
                    if std::fs::read(&path).unwrap() != b[..at] { return Err(("read only", "a read-only open changed the file".into())); }
                    let mut q = PositionIndex::<T>::open_pdx_file(&sub, &h, name, false).map_err(|x| ("torn", format!("open of a file cut at {at}: {x}")))?;
                    check_all(&mut q, &m, &mut g, "torn")?;
                    f = Some(q); }
                12 => { // another identity, or a damaged header
                    p.sync().map_err(|x| e(format!("sync: {x}")))?;
                    let before = std::fs::read(&path).unwrap();
                    let ro = g.chance(1, 2);
                    let o = if g.chance(1, 2) { let mut v = g.below(8) as u16; if v == h.version() { v += 1; } DataHeader::new(0, PackCompression::None, v) } else { DataHeader::new(g.next(), PackCompression::None, h.version()) };
                    if o.uid() != h.uid() || o.version() != h.version() { log.push("foreign open".into());
                        if PositionIndex::<T>::open_pdx_file(&sub, &o, name, ro).is_ok() { return Err(("identity", format!("the index of {h:?} opened under {o:?}"))); } }
                    if std::fs::read(&path).unwrap() != before { return Err(("identity", "a refused open changed the file".into())); }
                    let at = g.us(26); let w = (1 + g.us(4)).min(26 - at);
                    let mut b = before.clone();
                    for k in 0..w { b[at + k] ^= if k == 0 { 1 + g.below(255) as u8 } else { g.next() as u8 }; }
                    log.push(format!("damage header bytes {at}..{}", at + w));
                    std::fs::write(sub.join("bad"), &b).unwrap();
                    let x = PositionIndex::<T>::open_pdx_file(&sub, &h, "bad", ro).is_ok();
                    let _ = std::fs::remove_file(sub.join("bad"));
                    if x { return Err(("damage", format!("header bytes {at}..{} damaged, opened all the same", at + w))); } }
                _ => { // the disk fills up
                    p.sync().map_err(|x| e(format!("sync: {x}")))?;
                    let base = m.len();
                    let room = g.below(20_000);
                    let l = fault::Full::at(std::fs::metadata(&path).unwrap().len() + room);
                    log.push(format!("full disk after {room} more bytes"));
                    let mut hit = false;
                    for _ in 0..4000 { let v = T::gen(&mut g); match p.save(m.len() as u64, v) { Ok(()) => m.push(v), Err(_) => { hit = true; break } } if p.len() != m.len() { return Err(("full", format!("{} values accepted, len says {}", m.len(), p.len()))); } }
                    let ok = !hit && p.sync().is_ok();
                    drop(f.take());
                    drop(l);
                    let b = std::fs::read(&path).unwrap();
                    let want = image(&h, &m);
                    if ok && b != want { return Err(("full", "a sync succeeded without the accepted values in the file".into())); }
                    if !want.starts_with(&b) || b.len() < 26 + base * T::W { return Err(("full", format!("the file ({} bytes) is not a prefix of the {} accepted values, or lost one of the {base} synced before", b.len(), m.len()))); }
                    m.truncate((b.len() - 26) / T::W); }
            }
            Ok(())
        });
        match res {
            Err(p) => { std::mem::forget(f); r.fail("panic", format!("{p}, after {log:?}")); return; }
            Ok(Err((k, w))) => { r.fail(k, format!("{w}, after {log:?}")); return; }
            Ok(Ok(())) => {}
        }
    }
    if n < 3 { r.sample(log.join("; ")); }
}
fn main() {
    let mut r = vx::Rep::new();
    let dir = std::path::PathBuf::from(std::env::var("VX_SCRATCH").expect("VX_SCRATCH")).join(format!("c15-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut n = 0;
    while r.time_left(1.0) { if n % 2 == 0 { history::<u64>(&mut r, &dir, n); } else { history::<(u64, u64)>(&mut r, &dir, n); } n += 1; }
    // an empty file cannot be opened read-only and is left alone
    std::fs::write(dir.join("e"), b"").unwrap();
    r.check(matches!(PositionIndex::<u64>::open_pdx_file(&dir, &DataHeader::new(1, PackCompression::None, 0), "e", true), Err(LoadHeaderError::ReadOnlyEmpty)) && std::fs::read(dir.join("e")).unwrap().is_empty(), "read only", || "an empty file opened read-only".into());
    std::fs::remove_dir_all(&dir).unwrap();
    r.finish()
}
