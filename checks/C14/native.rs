//@include lib/rs/native.rs
//@include lib/rs/archive.rs
//@include lib/rs/fault.rs
//@include lib/rs/block_on.rs
use archive::error::{commit::CommitError, fetch::FetchError, insert::AppendError};
use archive::pack::{Pack, PackCompression};
use archive::pack_iter::{AsyncPackIter, PackIter};
use std::path::{Path, PathBuf};
type Val = (u64, String, Vec<u8>);
type Res<T> = Result<T, (&'static str, String)>;
const MAX: usize = 16 * 1024 * 1024;
// ---- an independent statement of the file format
fn fx(words: &[u64]) -> u64 { words.iter().fold(0u64, |h, w| (h.rotate_left(5) ^ w).wrapping_mul(0x517cc1b727220a95)) }
fn uid(idx: u64) -> u64 {
    let b = b"telcoin-network-epoch-";
    let w = |r: std::ops::Range<usize>| { let mut x = [0u8; 8]; x[..r.len()].copy_from_slice(&b[r]); u64::from_le_bytes(x) };
    fx(&[w(0..8), w(8..16), w(16..20), w(20..22), idx])
}
fn header(idx: u64, version: u16, comp: u32) -> Vec<u8> {
    let mut h = b"telnet".to_vec();
    h.extend(version.to_le_bytes()); h.extend(uid(idx).to_le_bytes()); h.extend(1u32.to_le_bytes()); h.extend(comp.to_le_bytes());
    let c = crc32fast::hash(&h);
    h.extend(c.to_le_bytes());
    h
}
fn frame(p: &[u8]) -> Vec<u8> { let mut f = (p.len() as u32).to_le_bytes().to_vec(); f.extend_from_slice(p); let c = crc32fast::hash(&f); f.extend(c.to_le_bytes()); f }
fn comp(z: bool) -> PackCompression { if z { PackCompression::ZStd } else { PackCompression::None } }
struct M { recs: Vec<(u64, Val)>, len: u64, failed: Option<(std::io::ErrorKind, String)> }
fn val(g: &mut vx::Rng, n: u64) -> Val {
    let k = match g.below(8) { 0 => 0, 1 => g.us(4), 2 => g.us(100), 3 => 16 * 1024 + g.us(64) - 32, 4 => g.us(70_000), 5 => 8 * 1024 + g.us(16), _ => g.us(600) };
    let b = if g.chance(1, 2) { vec![g.next() as u8; k] } else { g.bytes(k) };
    (n, "v".repeat(g.us(20)), b)
}
fn small<T: std::fmt::Debug>(v: &T) -> String { let s = format!("{v:?}"); if s.len() > 120 { format!("{}..({} chars)", &s[..100], s.len()) } else { s } }
fn check_all(f: &mut Pack<Val>, m: &M, tag: &'static str) -> Res<()> {
    if f.file_len() != m.len { return Err((tag, format!("length {} expected {}", f.file_len(), m.len))); }
    for (i, (at, v)) in m.recs.iter().enumerate() {
        match f.fetch(*at) { Ok(x) if x == *v => {} x => return Err((tag, format!("record {i} at {at}: fetched {} instead of {}", small(&x), small(v)))) }
        let end = m.recs.get(i + 1).map(|r| r.0).unwrap_or(m.len);
        match f.record_size(*at) { Ok(n) if n as u64 == end - at => {} x => return Err((tag, format!("record {i} at {at}: size {x:?}, expected {}", end - at))) }
    }
    for p in [m.len, m.len + 1, m.len + 40] { if let Ok(v) = f.fetch(p) { return Err((tag, format!("fetch past the end at {p} returned {}", small(&v)))); } }
    Ok(())
}
fn check_file(path: &Path, idx: u64, m: &M, z: bool, ver: u16, tag: &'static str) -> Res<()> {
    let b = std::fs::read(path).unwrap();
    if b.len() as u64 != m.len { return Err((tag, format!("file has {} bytes, expected {}", b.len(), m.len))); }
    if b[..28] != header(idx, ver, z as u32)[..] { return Err((tag, format!("header bytes {:?}, expected {:?}", &b[..28], header(idx, ver, z as u32)))); }
    let mut at = 28usize;
    for (i, (p, v)) in m.recs.iter().enumerate() {
        if *p != at as u64 { return Err((tag, format!("record {i} at {at}, append said {p}"))); }
        let n = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
        if b[at..at + n + 8] != frame(&b[at + 4..at + 4 + n])[..] { return Err((tag, format!("record {i} at {at} is not length + payload + crc32"))); }
        let raw = &b[at + 4..at + 4 + n];
        let e = bcs::to_bytes(v).unwrap();
        let ok = if z { zstd::stream::decode_all(raw).ok().as_deref() == Some(&e[..]) } else { raw == &e[..] };
        if !ok { return Err((tag, format!("record {i} at {at}: stored payload is not the encoding of its value"))); }
        at += n + 8;
    }
    let sync: Vec<_> = PackIter::<Val, _>::open(std::fs::File::open(path).unwrap(), idx).map_err(|e| (tag, format!("iterator: {e}")))?.map(|x| x.map_err(|e| format!("{e}"))).collect();
    let mut it = block_on(AsyncPackIter::<Val, _>::open(&b[..], idx)).map_err(|e| (tag, format!("async iterator: {e}")))?;
    let mut asy = vec![];
    while let Some(x) = block_on(it.next()) { let e = x.is_err(); asy.push(x.map_err(|e| format!("{e}"))); if e { break; } }
    let mut part = block_on(AsyncPackIter::<Val, _>::open_partial(&b[28..], comp(z), ver)).map_err(|e| (tag, format!("partial iterator: {e}")))?;
    let mut par = vec![];
    while let Some(x) = block_on(part.next()) { let e = x.is_err(); par.push(x.map_err(|e| format!("{e}"))); if e { break; } }
    let want: Vec<Result<Val, String>> = m.recs.iter().map(|r| Ok(r.1.clone())).collect();
    for (w, got) in [("iterator", &sync), ("async iterator", &asy), ("partial iterator", &par)] {
        if *got != want { return Err(("iterate", format!("{w}: {} records, expected {} ({})", got.len(), want.len(), small(got)))); }
    }
    Ok(())
}
fn history(r: &mut vx::Rep, dir: &Path, n: u64) {
    let path = dir.join("p");
    let _ = std::fs::remove_file(&path);
    let z = r.rng.chance(1, 2);
    let idx = r.rng.edgy();
    let ver = r.rng.below(4) as u16;
    let mut log = vec![format!("open(idx {idx}, zstd {z}, version {ver})")];
    let mut f = Some(Pack::<Val>::open(&path, idx, false, comp(z), ver).expect("open"));
    let mut m = M { recs: vec![], len: 28, failed: None };
    let steps = 1 + r.rng.us(if n % 3 == 0 { 30 } else { 10 });
    r.case(steps > 1);
    for _ in 0..steps {
        let op = r.rng.below(16);
        let mut g = vx::Rng(r.rng.next());
        let res = vx::guard(|| -> Res<()> {
            let e = |e: String| ("error", e);
            match op {
                0..=5 => {
                    let v = val(&mut g, m.recs.len() as u64);
                    log.push(format!("append {}", small(&v)));
                    let p = f.as_mut().unwrap();
                    let at = p.append(&v).map_err(|x| e(format!("append: {x}")))?;
                    if at != m.len { return Err(("append", format!("position {at}, expected {}", m.len))); }
                    m.recs.push((at, v)); m.len = p.file_len();
                }
                6 => { log.push("commit".into()); let p = f.as_mut().unwrap(); p.commit().map_err(|x| e(format!("commit: {x}")))?; check_file(&path, idx, &m, z, ver, "commit")?; }
                7 => { log.push("flush".into()); f.as_mut().unwrap().flush().map_err(|x| e(format!("flush: {x}")))?; check_file(&path, idx, &m, z, ver, "flush")?;
                    let v: Vec<_> = f.as_ref().unwrap().raw_iter().map_err(|x| e(format!("raw_iter: {x}")))?.map(|x| x.ok()).collect();
                    if v != m.recs.iter().map(|r| Some(r.1.clone())).collect::<Vec<_>>() { return Err(("iterate", format!("raw_iter gives {} records, expected {}", v.len(), m.recs.len()))); } }
                8 => { log.push("close, reopen".into()); drop(f.take()); check_file(&path, idx, &m, z, ver, "close")?;
                    // any caller compression: the file's own setting is used; an older file opens under a newer version
                    f = Some(Pack::open(&path, idx, false, comp(g.chance(1, 2)), ver + g.below(3) as u16).map_err(|x| e(format!("reopen: {x}")))?); }
                9 => { log.push("fetch all".into()); check_all(f.as_mut().unwrap(), &m, "fetch")?; }
                10 => { let p = f.as_mut().unwrap();
                    let k = g.us(m.recs.len() + 1);
                    let to = if k < m.recs.len() { m.recs[k].0 } else { m.len };
                    log.push(format!("truncate {to}"));
                    p.truncate(to).map_err(|x| e(format!("truncate: {x}")))?; m.recs.truncate(k); m.len = to; check_all(p, &m, "truncate")?; }
                11 => { let p = f.as_mut().unwrap(); p.flush().map_err(|x| e(format!("flush: {x}")))?;
                    let b = std::fs::read(&path).unwrap();
                    let s = g.below(m.len + 2); let t = g.below(m.len + 2);
                    log.push(format!("read_bytes {s} {t}"));
                    match (p.read_bytes(s, t), s <= t && t <= m.len) { (Ok(x), true) if x == b[s as usize..t as usize] => {} (Err(_), false) => {} (x, _) => return Err(("read_bytes", format!("{s}..{t} of {}: {}", m.len, small(&x)))) } }
                12 => { let p = f.as_mut().unwrap(); p.flush().map_err(|x| e(format!("flush: {x}")))?;
                    log.push("read only handle".into());
                    let mut q = Pack::<Val>::open(&path, idx, true, comp(z), ver).map_err(|x| e(format!("read-only open: {x}")))?;
                    check_all(&mut q, &m, "read only")?;
                    if !matches!(q.append(&(1, String::new(), vec![])), Err(AppendError::ReadOnly)) || !matches!(q.commit(), Err(CommitError::ReadOnly)) { return Err(("read only", "append or commit on a read-only pack".into())); }
                    drop(q);
                    check_file(&path, idx, &m, z, ver, "read only")?; }
                13 => { // wrong identity: another index, an older expected version
                    let p = f.as_mut().unwrap(); p.flush().map_err(|x| e(format!("flush: {x}")))?;
                    let before = std::fs::read(&path).unwrap();
                    log.push("foreign opens".into());
                    let other = idx ^ (1 << g.below(64));
                    if Pack::<Val>::open(&path, other, g.chance(1, 2), comp(z), ver).is_ok() || PackIter::<Val, _>::open(std::fs::File::open(&path).unwrap(), other).is_ok() || block_on(AsyncPackIter::<Val, _>::open(&before[..], other)).is_ok() { return Err(("identity", format!("opened under index {other}"))); }
                    if ver > 0 && Pack::<Val>::open(&path, idx, g.chance(1, 2), comp(z), g.below(ver as u64) as u16).is_ok() { return Err(("version", "a newer file opened under an older version".into())); }
                    if std::fs::read(&path).unwrap() != before { return Err(("identity", "a refused open changed the file".into())); } }
                14 => { // damage: any burst of up to 32 bits in the header or a record, then undo
                    let p = f.as_mut().unwrap(); p.flush().map_err(|x| e(format!("flush: {x}")))?;
                    let good = std::fs::read(&path).unwrap();
                    let bad = dir.join("bad");
                    let at = if g.chance(1, 4) { g.us(28) } else { g.us(good.len()) };
                    let w = (1 + g.us(4)).min(good.len() - at);
                    let mut b = good.clone();
                    for k in 0..w { b[at + k] ^= if k == 0 { 1 + g.below(255) as u8 } else { g.next() as u8 }; }
                    log.push(format!("damage bytes {at}..{}", at + w));
                    std::fs::write(&bad, &b).unwrap();
                    let o = Pack::<Val>::open(&bad, idx, true, comp(z), ver);
                    if at < 28 { if o.is_ok() { return Err(("damage", "a damaged header was accepted".into())); } }
                    else {
                        let mut q = o.map_err(|x| e(format!("open damaged: {x}")))?;
                        for (i, (p0, v)) in m.recs.iter().enumerate() {
                            let end = m.recs.get(i + 1).map(|r| r.0).unwrap_or(m.len);
                            let hit = (at as u64) < end && (at + w) as u64 > *p0;
                            match q.fetch(*p0) { Ok(x) if !hit && x == *v => {} Err(_) if hit => {} x => return Err(("damage", format!("record {i} ({p0}..{end}): {}", small(&x)))) }
                            match q.record_size(*p0) { Ok(n) if !hit && n as u64 == end - p0 => {} Err(_) if hit => {} x => return Err(("damage", format!("record {i} ({p0}..{end}): size {x:?}"))) }
                        }
                        drop(q);
                        // an iterator gives the records before the damage, then an error or the end; never another value
                        let mut k = 0;
                        for x in PackIter::<Val, _>::open(std::fs::File::open(&bad).unwrap(), idx).map_err(|x| e(format!("{x}")))? { match x { Ok(v) => { if m.recs.get(k).map(|r| &r.1) != Some(&v) || (m.recs.get(k + 1).map(|r| r.0).unwrap_or(m.len)) > at as u64 { return Err(("damage", format!("iterator returned {} as record {k}", small(&v)))); } k += 1; } Err(_) => break } }
                    }
                    let _ = std::fs::remove_file(&bad); }
                _ => { // a cut file: every complete record is there, the cut one is not
                    let p = f.as_mut().unwrap(); p.flush().map_err(|x| e(format!("flush: {x}")))?;
                    let good = std::fs::read(&path).unwrap();
                    let at = 28 + g.us(good.len() - 27);
                    let bad = dir.join("cut");
                    log.push(format!("cut at {at}"));
                    std::fs::write(&bad, &good[..at]).unwrap();
                    let whole: Vec<Val> = m.recs.iter().enumerate().filter(|(i, _)| m.recs.get(i + 1).map(|r| r.0).unwrap_or(m.len) <= at as u64).map(|(_, r)| r.1.clone()).collect();
                    let got: Vec<_> = PackIter::<Val, _>::open(std::fs::File::open(&bad).unwrap(), idx).map_err(|x| e(format!("{x}")))?.take_while(|x| x.is_ok()).map(|x| x.unwrap()).collect();
                    if got != whole { return Err(("cut", format!("cut at {at}: iterator gave {} records, {} are complete", got.len(), whole.len()))); }
                    let mut q = Pack::<Val>::open(&bad, idx, true, comp(z), ver).map_err(|x| e(format!("open cut: {x}")))?;
                    for (k, (p0, _)) in m.recs.iter().enumerate() { if q.fetch(*p0).is_ok() != (k < whole.len()) { return Err(("cut", format!("record {k} at {p0} of a file cut at {at}"))); } }
                    let _ = std::fs::remove_file(&bad); }
            }
            Ok(())
        });
        match res {
            Err(p) => { std::mem::forget(f); r.fail("panic", format!("{p}, after {log:?}")); return; }
            Ok(Err((k, w))) => { r.fail(k, format!("{w}, after {log:?}")); return; }
            Ok(Ok(())) => {}
        }
    }
    if n < 3 { r.sample(log.join("; ")); }
    drop(f);
    if let Ok(Err((k, w))) = vx::guard(|| check_file(&path, idx, &m, z, ver, "close")) { r.fail(k, format!("{w}, after {log:?}, closed")); }
}
/// the disk fills up during an append or a commit
fn full(r: &mut vx::Rep, dir: &Path) {
    let path = dir.join("f");
    let _ = std::fs::remove_file(&path);
    let z = r.rng.chance(1, 4);
    let mut g = vx::Rng(r.rng.next());
    r.case(true);
    let mut log = vec![];
    let res = vx::guard(|| -> Res<()> {
        let mut f = Pack::<Val>::open(&path, 7, false, comp(z), 1).map_err(|e| ("error", format!("{e}")))?;
        let mut m = M { recs: vec![], len: 28, failed: None };
        let mut committed = 0;
        for i in 0..1 + g.us(6) { let v = val(&mut g, i as u64); let at = f.append(&v).map_err(|e| ("error", format!("{e}")))?; m.recs.push((at, v)); m.len = f.file_len(); if g.chance(1, 2) { f.commit().map_err(|e| ("error", format!("{e}")))?; committed = m.recs.len(); } }
        let room = g.below(40_000);
        log.push(format!("{} records of {:?} bytes, {committed} committed, room for {room} more bytes", m.recs.len(), m.recs.iter().map(|r| r.1 .2.len()).collect::<Vec<_>>()));
        let disk = std::fs::metadata(&path).unwrap().len();
        {
            let l = fault::Full::at(disk + room);
            for k in 0..12 {
                if g.chance(1, 3) { // a commit that fails leaves the pack usable
                    match f.commit() { Ok(()) => { committed = m.recs.len(); } Err(CommitError::Flush(_)) => { log.push("commit failed".into()); } Err(e) => return Err(("full disk", format!("commit: {e:?}"))) }
                } else {
                    let v = (k, "w".into(), g.bytes(1 + (k as usize) * 3000));
                    match f.append(&v) {
                        Ok(at) => { if at != m.len { return Err(("full disk", format!("append at {at}, expected {}", m.len))); } m.recs.push((at, v)); m.len = f.file_len(); }
                        Err(AppendError::WriteDataError(e)) => { log.push(format!("append of {} bytes failed: {e}", v.2.len())); m.failed = Some((e.kind(), e.to_string())); break; }
                        Err(e) => return Err(("full disk", format!("append: {e}"))),
                    }
                }
            }
            drop(l);
        }
        if let Some((k, t)) = &m.failed {
            let before = f.file_len();
            for i in 0..3 {
                match f.append(&(9, String::new(), vec![])) { Err(AppendError::WriteDataError(e)) if e.kind() == *k && e.to_string() == *t => {} x => return Err(("failed state", format!("append {i} after the failure `{t}`: {x:?}"))) }
                match f.commit() { Err(CommitError::Failed(e)) if e.kind() == *k && e.to_string() == *t => {} x => return Err(("failed state", format!("commit {i} after the failure `{t}`: {x:?}"))) }
            }
            if f.file_len() != before { return Err(("failed state", "a refused append changed the length".into())); }
            // what was there stays readable
            for (i, (at, v)) in m.recs.iter().enumerate() { match f.fetch(*at) { Ok(x) if x == *v => {} x => return Err(("full disk", format!("record {i} after the failure: {}", small(&x)))) } }
        } else {
            let v = (5u64, "after".to_string(), g.bytes(300));
            let at = f.append(&v).map_err(|e| ("full disk", format!("append with room again: {e}")))?;
            m.recs.push((at, v)); m.len = f.file_len();
            f.commit().map_err(|e| ("full disk", format!("commit with room again: {e}")))?;
            committed = m.recs.len();
            check_all(&mut f, &m, "full disk")?;
            check_file(&path, 7, &m, z, 1, "full disk")?;
        }
        drop(f);
        let got: Vec<_> = PackIter::<Val, _>::open(std::fs::File::open(&path).unwrap(), 7).map_err(|e| ("full disk", format!("{e}")))?.take_while(|x| x.is_ok()).map(|x| x.unwrap()).collect();
        if got.len() < committed || got[..] != m.recs.iter().map(|r| r.1.clone()).collect::<Vec<_>>()[..got.len()] { return Err(("full disk", format!("after reopening {} records read, {committed} were committed (or contents differ)", got.len()))); }
        Ok(())
    });
    match res { Err(p) => r.fail("panic", format!("{p}, {log:?}")), Ok(Err((k, w))) => r.fail(k, format!("{w}, {log:?}")), _ => {} }
}
/// records at the size limit, and stored payloads that lie about themselves
fn sizes(r: &mut vx::Rep, dir: &Path) {
    let path = dir.join("s");
    for (z, n, ok) in [(false, MAX - 5, true), (false, MAX - 4, true), (false, MAX - 3, false), (false, MAX + 1, false), (true, MAX - 4, true), (true, MAX - 3, false), (true, MAX + 1, false)] {
        let _ = std::fs::remove_file(&path);
        r.case(true);
        let mut f = Pack::<Vec<u8>>::open(&path, 1, false, comp(z), 0).expect("open");
        let a = f.append(&vec![1, 2, 3]).expect("append");
        let before = f.file_len();
        let v = vec![7u8; n];
        let x = f.append(&v);
        r.check(x.is_ok() == ok, "size limit", || format!("append of {n} bytes (zstd {z}): ok {}", x.is_ok()));
        if let Ok(at) = x {
            r.check(f.fetch(at).is_ok_and(|b| b == v), "size limit", || format!("a {n}-byte record accepted by append is not returned"));
            let end = f.file_len();
            r.check(f.record_size(at).is_ok_and(|s| s as u64 == end - at), "size limit", || format!("record_size of a {n}-byte record accepted by append"));
            f.commit().expect("commit");
            let it = PackIter::<Vec<u8>, _>::open(std::fs::File::open(&path).unwrap(), 1).expect("iter").map(|x| x.ok()).nth(1).flatten();
            let b = std::fs::read(&path).unwrap();
            let asy = block_on(async { let mut i = AsyncPackIter::<Vec<u8>, _>::open(&b[..], 1).await.unwrap(); i.next().await; i.next().await.and_then(|x| x.ok()) });
            r.check(it.as_ref() == Some(&v) && asy.as_ref() == Some(&v), "size limit", || format!("a {n}-byte record accepted by append is not iterated (iterator {}, async iterator {})", it.is_some(), asy.is_some()));
        }
        else { r.check(f.file_len() == before, "size limit", || "a refused record changed the file".into()); }
        r.check(f.fetch(a).is_ok(), "size limit", || "the record before it is gone".into());
        drop(f);
    }
    // crafted payloads: a bomb, garbage, a stream with trailing bytes, wrong value encoding
    let enc = |v: &Vec<u8>| bcs::to_bytes(v).unwrap();
    let bomb = zstd::stream::encode_all(&vec![0u8; MAX + 1][..], 1).unwrap();
    let okz = zstd::stream::encode_all(&enc(&vec![1, 2, 3])[..], 1).unwrap();
    let short = okz[..okz.len() - 1].to_vec();
    let mut trail = enc(&vec![1, 2, 3]); trail.push(0);
    for (what, z, p, want) in [("valid", true, okz.clone(), Some(vec![1u8, 2, 3])), ("bomb", true, bomb, None), ("cut stream", true, short, None), ("garbage", true, vec![9; 40], None), ("trailing byte", false, trail, None), ("valid", false, enc(&vec![4]), Some(vec![4]))] {
        r.case(true);
        let mut b = header(3, 0, z as u32); b.extend(frame(&p));
        std::fs::write(&path, &b).unwrap();
        let mut f = Pack::<Vec<u8>>::open(&path, 3, true, PackCompression::None, 0).expect("open");
        let a = f.fetch(28).ok();
        let i = PackIter::<Vec<u8>, _>::open(std::fs::File::open(&path).unwrap(), 3).expect("iter").next().and_then(|x| x.ok());
        let s = block_on(async { AsyncPackIter::<Vec<u8>, _>::open(&b[..], 3).await.unwrap().next().await.and_then(|x| x.ok()) });
        r.check(a == want && i == want && s == want, "payload", || format!("{what} (zstd {z}): fetch {a:?} iterator {i:?} async {s:?}, expected {want:?}"));
    }
    // a length beyond the limit is refused before the allocation
    let mut b = header(3, 0, 0); b.extend((MAX as u32 + 1).to_le_bytes()); b.extend([0u8; 64]);
    std::fs::write(&path, &b).unwrap();
    let mut f = Pack::<Vec<u8>>::open(&path, 3, true, PackCompression::None, 0).expect("open");
    r.check(matches!(f.fetch(28), Err(FetchError::RequestedSizeTooLarge(..))) && matches!(f.record_size(28), Err(FetchError::RequestedSizeTooLarge(..))), "size limit", || "a length over the limit was not refused".into());
    // header fields
    for (what, h) in [("app number", { let mut h = header(3, 0, 0); h[16] = 2; let c = crc32fast::hash(&h[..24]); h[24..].copy_from_slice(&c.to_le_bytes()); h }),
        ("compression", header(3, 0, 2)), ("type", { let mut h = header(3, 0, 0); h[0] = b'T'; let c = crc32fast::hash(&h[..24]); h[24..].copy_from_slice(&c.to_le_bytes()); h }), ("short", header(3, 0, 0)[..27].to_vec())] {
        std::fs::write(&path, &h).unwrap();
        r.case(true);
        let o = [Pack::<Vec<u8>>::open(&path, 3, true, PackCompression::None, 0).is_ok(), PackIter::<Vec<u8>, _>::open(std::fs::File::open(&path).unwrap(), 3).is_ok(), block_on(AsyncPackIter::<Vec<u8>, _>::open(&h[..], 3)).is_ok()];
        r.check(o == [false; 3], "header", || format!("a header with a wrong {what} was accepted: {o:?}"));
    }
}
fn main() {
    let mut r = vx::Rep::new();
    let dir: PathBuf = PathBuf::from(std::env::var("VX_SCRATCH").unwrap()).join("c14");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    sizes(&mut r, &dir);
    let mut n = 0;
    while r.time_left(1.0) { n += 1; if n % 4 == 0 { full(&mut r, &dir) } else { history(&mut r, &dir, n) } }
    let _ = std::fs::remove_dir_all(&dir);
    r.finish()
}
