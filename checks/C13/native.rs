//@include lib/rs/native.rs
//@include lib/rs/archive.rs
use archive::data_file::DataFile;
use std::io::{Read, Seek, SeekFrom, Write};
#[derive(Clone, Debug)]
enum Op { Write(usize), WriteAll(usize), Flush, Sync, Start(u64), End(i64), Cur(i64), Read(usize), ReadExact(usize), SetLen(u64), Reopen, RoCheck, RoWrite, Rename, RoFollow, FaultWrite(usize, u64), FaultFlush(u64), FaultSetLen(u64, u64) }
//@include lib/rs/fault.rs
fn pat(i: u64, salt: u8) -> u8 { (i.wrapping_mul(167) ^ (i >> 7) ^ (i >> 13)) as u8 ^ salt }
fn run(r: &mut vx::Rep, dir: &std::path::Path, ops: &[Op]) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let mut path = dir.join("f0");
    let mut nname = 0;
    let mut m: Vec<u8> = vec![];
    let mut pos = 0u64;
    let mut d = Some(DataFile::open(&path, false).expect("open"));
    let mut ro: Option<(DataFile, Vec<u8>)> = None;
    r.case(ops.len() > 1);
    let mut salt = 0u8;
    for (i, op) in ops.iter().enumerate() {
        salt = salt.wrapping_add(29);
        let what = |s: String| format!("{s}, operations {:?}", &ops[..=i]);
        let res = vx::guard(|| -> Result<(), (&'static str, String)> {
            if let Op::Reopen = *op {
                d = None;
                let disk = std::fs::read(&path).unwrap();
                if disk != m { return Err(("drop", format!("dropped file holds {} bytes, expected {} (or contents differ)", disk.len(), m.len()))); }
                d = Some(DataFile::open(&path, false).map_err(|e| ("io error", format!("{e}")))?); pos = 0;
            }
            let f = d.as_mut().unwrap();
            let e = |e: std::io::Error| ("io error", format!("{e}"));
            match *op {
                Op::Write(n) | Op::WriteAll(n) => {
                    let b: Vec<u8> = (0..n).map(|k| pat((m.len() + k) as u64, salt)).collect();
                    if matches!(op, Op::Write(_)) {
                        let k = f.write(&b).map_err(e)?;
                        if k > n || (n > 0 && k == 0) { return Err(("write count", format!("write of {n} bytes returned {k}"))); }
                        m.extend_from_slice(&b[..k]);
                    } else { f.write_all(&b).map_err(e)?; m.extend_from_slice(&b); }
                }
                // the file may grow by only `k` more bytes while the operation runs (a full disk), then the disk has room again
                Op::FaultWrite(n, k) => {
                    let b: Vec<u8> = (0..n).map(|j| pat((m.len() + j) as u64, salt)).collect();
                    let before = m.len();
                    let at = std::fs::metadata(&path).unwrap().len();
                    let g = { let _l = fault::Full::at(at + k); f.write_all(&b) };
                    let took = (f.len() as usize).wrapping_sub(before);
                    match g {
                        Ok(()) if took != n => return Err(("full disk", format!("write_all of {n} bytes succeeded but the length grew by {took}"))),
                        Err(_) if took >= n => return Err(("full disk", format!("write_all of {n} bytes failed but the length grew by {took}"))),
                        _ => {}
                    }
                    m.extend_from_slice(&b[..took]);
                }
                Op::FaultFlush(k) => { let at = std::fs::metadata(&path).unwrap().len(); let g = { let _l = fault::Full::at(at + k); f.flush() };
                    if g.is_ok() && std::fs::read(&path).unwrap() != m { return Err(("full disk", "flush succeeded on a full disk but the file lacks the bytes".into())); } }
                Op::FaultSetLen(n, k) => { let at = std::fs::metadata(&path).unwrap().len(); let g = { let _l = fault::Full::at(at + k); f.set_len(n) }; if g.is_ok() { m.resize(n as usize, 0); ro = None; } else {
                    // writing the buffer out may have succeeded before the extension failed
                } }
                Op::Flush => { f.flush().map_err(e)?; let disk = std::fs::read(&path).unwrap();
                    if disk != m { return Err(("flush", format!("after flush the file holds {} bytes, expected {} (or contents differ)", disk.len(), m.len()))); } }
                Op::Sync => f.sync_all().map_err(e)?,
                Op::Start(p) => { let k = f.seek(SeekFrom::Start(p)).map_err(e)?; pos = p; if k != p { return Err(("seek", format!("returned {k}, expected {p}"))); } }
                Op::End(o) | Op::Cur(o) => {
                    let want = if matches!(op, Op::End(_)) { m.len() as i64 } else { pos as i64 } + o;
                    let got = f.seek(if matches!(op, Op::End(_)) { SeekFrom::End(o) } else { SeekFrom::Current(o) });
                    match (got, want >= 0) { (Ok(k), true) if k as i64 == want => pos = want as u64, (Err(_), false) => {}, (g, _) => return Err(("seek", format!("returned {g:?}, expected {want}"))) }
                }
                Op::Read(n) | Op::ReadExact(n) => {
                    let mut b = vec![0xA5u8; n];
                    let avail = (m.len() as u64).saturating_sub(pos) as usize;
                    if matches!(op, Op::Read(_)) {
                        let k = f.read(&mut b).map_err(e)?;
                        if k > n.min(avail) || (k == 0 && n > 0 && avail > 0) { return Err(("read count", format!("read of {n} at {pos} of {} returned {k}", m.len()))); }
                        if k > 0 && b[..k] != m[pos as usize..pos as usize + k] { return Err(("read bytes", format!("{k} bytes at {pos} differ from what was written"))); }
                        if b[k..].iter().any(|x| *x != 0xA5) { return Err(("read bytes", "bytes beyond the count changed".into())); }
                        pos += k as u64;
                    } else {
                        match (f.read_exact(&mut b), n <= avail) {
                            (Ok(()), true) => { if n > 0 && b[..] != m[pos as usize..pos as usize + n] { return Err(("read bytes", format!("{n} bytes at {pos} differ from what was written"))); } pos += n as u64; }
                            (Err(_), false) => { pos = f.seek(SeekFrom::Current(0)).map_err(e)?; }
                            (g, _) => return Err(("read count", format!("read_exact of {n} at {pos} of {}: {g:?}", m.len()))),
                        }
                    }
                }
                Op::SetLen(n) => { f.set_len(n).map_err(e)?; m.resize(n as usize, 0); let l = std::fs::metadata(&path).unwrap().len();
                    ro = None;
                    if l != n { return Err(("set_len", format!("file has {l} bytes after truncation to {n}"))); } }
                Op::Reopen => {}
                Op::RoCheck => {
                    f.flush().map_err(e)?;
                    let mut g = DataFile::open(&path, true).map_err(e)?;
                    let mut b = vec![]; g.read_to_end(&mut b).map_err(e)?;
                    if b != m { return Err(("read only", "a read-only handle sees other bytes".into())); }
                    ro = Some((g, m.clone()));
                }
                Op::RoWrite => {
                    f.flush().map_err(e)?;
                    let mut g = DataFile::open(&path, true).map_err(e)?;
                    if g.write(b"x").is_ok() || g.len() != m.len() as u64 { return Err(("read only", "a read-only handle accepted a write".into())); }
                    drop(g);
                    if std::fs::read(&path).unwrap() != m { return Err(("read only", "a read-only handle changed the file".into())); }
                }
                Op::RoFollow => if let Some((g, _)) = ro.as_mut() {
                    g.refresh_data_file_end().map_err(e)?;
                    let disk = std::fs::read(&path).unwrap();
                    if g.len() != disk.len() as u64 { return Err(("refresh", format!("follower sees length {}, file has {}", g.len(), disk.len()))); }
                    let mut at = 0usize;
                    g.seek(SeekFrom::Start(0)).map_err(e)?;
                    let mut b = vec![0u8; 5000];
                    while at < disk.len() { let k = g.read(&mut b).map_err(e)?; if k == 0 || disk[at..at + k] != b[..k] { return Err(("refresh", format!("follower read {k} bytes at {at} that differ"))); } at += k; }
                },
                Op::Rename => { nname += 1; let to = dir.join(format!("f{nname}")); f.rename(&to).map_err(|e| ("rename", format!("{e}")))?; path = to; if !path.exists() { return Err(("rename", "renamed file missing".into())); } }
            }
            let f = d.as_ref().unwrap();
            if f.len() != m.len() as u64 || f.is_empty() != m.is_empty() { return Err(("len", format!("length {} (empty {}), expected {}", f.len(), f.is_empty(), m.len()))); }
            let disk = std::fs::metadata(&path).unwrap().len();
            if f.data_file_end() != disk { return Err(("end", format!("bytes on disk reported {}, file has {disk}", f.data_file_end()))); }
            Ok(())
        });
        match res {
            Err(p) => { std::mem::forget(d); r.fail("panic", what(p)); return; }
            Ok(Err((k, w))) => { r.fail(k, what(w)); return; }
            Ok(Ok(())) => {}
        }
    }
    drop(d);
    let disk = std::fs::read(&path).unwrap();
    if disk != m { r.fail("drop", format!("dropped file holds {} bytes, expected {}, operations {ops:?}", disk.len(), m.len())); }
}
fn main() {
    let mut r = vx::Rep::new();
    let dir = std::path::PathBuf::from(std::env::var("VX_SCRATCH").unwrap()).join("c13");
    const B: usize = 16 * 1024;
    let mut n = 0;
    while r.time_left(1.0) {
        n += 1;
        // sizes around the two buffers' capacity are where pieces of the array meet
        fn sz(g: &mut vx::Rng, small: bool) -> usize {
            if small { return g.us(40); }
            match g.below(6) { 0 => g.us(8), 1 => g.us(200), 2 => g.us(5000), 3 => (B + g.us(5)).saturating_sub(2), 4 => B / 2 + g.us(3), _ => g.us(3 * B) }
        }
        let len = 1 + r.rng.us(if n % 2 == 0 { 12 } else { 60 });
        let small = n % 3 == 0;
        let mut est = 0u64;
        let mut ops = vec![];
        for _ in 0..len {
            let g = &mut r.rng;
            let near = |g: &mut vx::Rng, est: u64| -> u64 { match g.below(6) { 0 => 0, 1 => est, 2 => est.saturating_sub(g.below(20)), 3 => g.below(est + 3), 4 => (est / B as u64 * B as u64).saturating_sub(g.below(3)).max(g.below(2)), _ => est.saturating_sub((B / 2) as u64 + g.below(3)) } };
            ops.push(match g.below(25) {
                0..=1 => { let s = sz(g, small); est += s as u64; Op::Write(s) }
                2..=5 => { let s = sz(g, small); est += s as u64; Op::WriteAll(s) }
                6 => Op::Flush, 7 => Op::Sync,
                8..=10 => Op::Start(near(g, est)),
                11 => Op::End(-(g.below(est + 3) as i64) + g.below(3) as i64),
                12 => Op::Cur(g.below(est + 2) as i64 - (est / 2) as i64),
                13..=14 => Op::Read(sz(g, small)), 15..=16 => Op::ReadExact(sz(g, small)),
                17 => { if g.chance(1, 2) { let e = near(g, est); est = e; Op::SetLen(e) } else { Op::Read(sz(g, small)) } }
                22 => { let s = sz(g, small); est += s as u64; Op::FaultWrite(s, if g.chance(1, 3) { 0 } else { sz(g, small) as u64 }) }
                23 => Op::FaultFlush(sz(g, small) as u64),
                24 => { let e = near(g, est); Op::FaultSetLen(e, sz(g, small) as u64) }
                18 => Op::Reopen, 19 => Op::RoCheck, 20 => if g.chance(1, 3) { Op::RoWrite } else { Op::RoFollow },
                _ => if g.chance(1, 4) { Op::Rename } else { Op::ReadExact(1) },
            });
        }
        if n < 3 { r.sample(format!("{ops:?}")); }
        run(&mut r, &dir, &ops);
    }
    let _ = std::fs::remove_dir_all(&dir);
    r.finish()
}
