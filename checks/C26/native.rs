#![allow(dead_code, unused_imports)]
//@include lib/rs/native.rs
//@include lib/rs/archive.rs
//@include lib/rs/fault.rs
pub use alloy_consensus::Header as ExecHeader;
pub use alloy_genesis::GenesisAccount;
//@path pub mod exec_state_pack = crates/storage/src/exec_state_pack.rs
use archive::pack::{Pack, PackCompression};
use archive::pack_iter::PackIter;
use exec_state_pack::{ExecStateAccount, ExecStatePackError as E, ExecStatePackReader as Reader, ExecStatePackWriter as Writer, ExecStateStats, StateEntry, STORAGE_CHUNK_SLOTS};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
// ---- the exporter, with the database rows as plain values
mod export {
use super::*;
use std::iter::Peekable;
#[derive(Debug)] pub enum TnRethError { Snapshot(String) }
pub type TnRethResult<T> = Result<T, TnRethError>;
#[derive(Debug, Clone, Copy)] pub struct Account { pub nonce: u64, pub balance: U256, pub bytecode_hash: Option<B256> }
#[derive(Debug, Clone, Copy)] pub struct StorageEntry { pub key: B256, pub value: U256 }
pub const KECCAK_EMPTY: B256 = alloy_consensus::constants::KECCAK_EMPTY;
type ExecStatePackWriter = Writer;
//@item file=crates/tn-reth/src/snapshot.rs path="trait StatePackSink"
//@sub? /^trait\b/ => pub trait
//@end
impl StatePackSink for ExecStatePackWriter {
//@fn file=crates/tn-reth/src/snapshot.rs path="impl StatePackSink for ExecStatePackWriter :: fn account_header" trait
//@end
//@fn file=crates/tn-reth/src/snapshot.rs path="impl StatePackSink for ExecStatePackWriter :: fn storage_chunk" trait
//@end
}
//@fn file=crates/tn-reth/src/snapshot.rs path="fn export_plain_state"
//@sub? /^fn\b/ => pub fn
//@end
//@fn file=crates/tn-reth/src/snapshot.rs path="fn stream_account_slots"
//@end
}
// ---- an independent statement of the record format
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
struct Meta { state_root: B256, block_number: u64, block_hash: B256, header_count: u32 }
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
struct Acc { address: Address, nonce: u64, balance: B256, code: Option<Bytes> }
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
struct Stats { account_count: u64, storage_slots: u64, bytecodes: u64 }
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
enum Rec { Meta(Meta), Header(Vec<u8>), Account(Acc), Storage(Vec<(B256, B256)>), End(Stats) }
type Res<T> = Result<T, (&'static str, String)>;
const CHUNK: usize = 65536;
fn rlp(h: &ExecHeader) -> Vec<u8> { let mut b = vec![]; alloy_rlp::Encodable::encode(h, &mut b); b }
fn be(n: U256) -> B256 { B256::from(n.to_be_bytes::<32>()) }
fn slot(k: u64, v: u64) -> (B256, B256) { (be(U256::from(k)), be(U256::from(v))) }
fn kind(e: &E) -> String { let s = format!("{e:?}"); s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string() }
/// what an account is as records
fn recs_of(a: &ExecStateAccount) -> Vec<Rec> {
    let g = &a.account;
    let mut v = vec![Rec::Account(Acc { address: a.address, nonce: g.nonce.unwrap_or(0), balance: be(g.balance), code: g.code.clone() })];
    if let Some(m) = &g.storage { let all: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect(); for c in all.chunks(CHUNK) { v.push(Rec::Storage(c.to_vec())); } }
    v
}
/// reading does not tell an absent nonce from 0 nor empty storage from none
fn canon(a: &ExecStateAccount) -> ExecStateAccount {
    let g = &a.account;
    ExecStateAccount { address: a.address, account: GenesisAccount { nonce: Some(g.nonce.unwrap_or(0)), balance: g.balance, code: g.code.clone(), storage: g.storage.clone().filter(|s| !s.is_empty()), private_key: None } }
}
fn stats_of(v: &[Rec]) -> Stats {
    let mut s = Stats { account_count: 0, storage_slots: 0, bytecodes: 0 };
    for r in v { match r { Rec::Account(a) => { s.account_count += 1; if a.code.as_ref().is_some_and(|c| !c.is_empty()) { s.bytecodes += 1; } } Rec::Storage(c) => s.storage_slots += c.len() as u64, _ => {} } }
    s
}
// ---- the model of the reader: outcomes of a record list
fn m_open(v: &[Rec]) -> Result<usize, &'static str> {
    let Some(Rec::Meta(m)) = v.first() else { return Err("MetaNotFirst") };
    if m.header_count == 0 { return Err("MissingHeaders"); }
    if m.header_count > 4096 { return Err("TooManyHeaders"); }
    if (m.header_count as u64) < m.block_number.min(256) { return Err("InsufficientHeaders"); }
    for i in 0..m.header_count as usize {
        match v.get(1 + i) { Some(Rec::Header(b)) => { if <ExecHeader as alloy_rlp::Decodable>::decode(&mut &b[..]).is_err() { return Err("HeaderRlp"); } } Some(_) => return Err("CorruptPack"), None => return Err("MissingHeaders") }
    }
    Ok(m.header_count as usize)
}
fn vet(r: Option<&Rec>) -> Result<&Rec, &'static str> { match r { None => Err("MissingFooter"), Some(Rec::Storage(c)) if c.len() > CHUNK => Err("OversizedStorageChunk"), Some(r) => Ok(r) } }
fn m_accounts(b: &[Rec]) -> (Vec<ExecStateAccount>, Option<&'static str>) {
    let (mut out, mut i) = (vec![], 0);
    loop {
        match vet(b.get(i)) {
            Err(e) => return (out, Some(e)),
            Ok(Rec::End(_)) => return (out, None),
            Ok(Rec::Account(a)) => {
                i += 1;
                let mut st = BTreeMap::new();
                loop { match vet(b.get(i)) { Err(e) => return (out, Some(e)), Ok(Rec::Storage(c)) => { st.extend(c.iter().copied()); i += 1; } Ok(_) => break } }
                out.push(ExecStateAccount { address: a.address, account: GenesisAccount { nonce: Some(a.nonce), balance: U256::from_be_bytes(a.balance.0), code: a.code.clone(), storage: if st.is_empty() { None } else { Some(st) }, private_key: None } });
            }
            Ok(_) => return (out, Some("CorruptPack")),
        }
    }
}
fn m_entries(b: &[Rec]) -> (Vec<Rec>, Option<&'static str>) {
    let mut out = vec![];
    for i in 0.. { match vet(b.get(i)) { Err(e) => return (out, Some(e)), Ok(Rec::End(_)) => return (out, None), Ok(r @ (Rec::Account(_) | Rec::Storage(_))) => out.push(r.clone()), Ok(_) => return (out, Some("CorruptPack")) } }
    unreachable!()
}
fn m_verify(v: &[Rec]) -> Result<(u32, Stats), &'static str> {
    let n = m_open(v)?;
    let Rec::Meta(m) = &v[0] else { unreachable!() };
    let Rec::Header(h) = &v[1] else { unreachable!() };
    let h = <ExecHeader as alloy_rlp::Decodable>::decode(&mut &h[..]).unwrap();
    if h.state_root != m.state_root { return Err("StateRootMismatch"); }
    if h.number != m.block_number || h.hash_slow() != m.block_hash { return Err("BlockIdentityMismatch"); }
    let b = &v[1 + n..];
    let mut seen = false;
    for i in 0.. {
        match vet(b.get(i))? {
            Rec::Account(_) => seen = true,
            Rec::Storage(_) => if !seen { return Err("CorruptPack") },
            Rec::End(s) => { let got = stats_of(&b[..i]); return if s.account_count == got.account_count { Ok((n as u32, got)) } else { Err("AccountCountMismatch") } }
            _ => return Err("CorruptPack"),
        }
    }
    unreachable!()
}
// ---- the real reader
fn accounts(r: &mut Reader) -> (Vec<ExecStateAccount>, Option<String>) {
    let mut out = vec![];
    while let Some(x) = r.next_account() { match x { Ok(a) => out.push(a), Err(e) => { let more = r.next_account().is_some(); return (out, Some(kind(&e) + if more { " and more" } else { "" })) } } }
    if r.next_account().is_some() { return (out, Some("more after the end".into())); }
    (out, None)
}
fn entries(r: &mut Reader) -> (Vec<Rec>, Option<String>) {
    let mut out = vec![];
    while let Some(x) = r.next_entry() { match x {
        Ok(StateEntry::Account(a)) => out.push(Rec::Account(Acc { address: a.address, nonce: a.nonce, balance: be(a.balance), code: a.code })),
        Ok(StateEntry::Storage(c)) => out.push(Rec::Storage(c)),
        Err(e) => { let more = r.next_entry().is_some(); return (out, Some(kind(&e) + if more { " and more" } else { "" })) }
    } }
    if r.next_entry().is_some() { return (out, Some("more after the end".into())); }
    (out, None)
}
fn brief(v: &[Rec]) -> String {
    let s: Vec<String> = v.iter().map(|r| match r { Rec::Meta(m) => format!("meta(block {}, {} headers)", m.block_number, m.header_count), Rec::Header(b) => format!("header({} bytes)", b.len()), Rec::Account(a) => format!("account({}, code {:?})", a.address, a.code.as_ref().map(|c| c.len())), Rec::Storage(c) => format!("storage({} slots)", c.len()), Rec::End(s) => format!("end({s:?})") }).collect();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < s.len() { let mut j = i; while j < s.len() && s[j] == s[i] { j += 1; } out.push(if j - i > 1 { format!("{} x {}", j - i, s[i]) } else { s[i].clone() }); i = j; }
    out.join(", ")
}
fn brief_a(v: &[ExecStateAccount]) -> String { v.iter().map(|a| format!("{}: nonce {:?} balance {} code {:?} slots {:?}", a.address, a.account.nonce, a.account.balance, a.account.code.as_ref().map(|c| c.len()), a.account.storage.as_ref().map(|s| s.len()))).collect::<Vec<_>>().join("; ") }
fn read_recs(dir: &Path) -> Vec<Result<Rec, String>> {
    PackIter::<Rec, _>::open(std::fs::File::open(dir.join("state_data")).unwrap(), 0).expect("pack header").map(|x| x.map_err(|e| e.to_string())).collect()
}
fn craft(dir: &Path, v: &[Rec]) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let mut p = Pack::<Rec>::open(dir.join("state_data"), 0, false, PackCompression::ZStd, 1).expect("open");
    for r in v { p.append(r).expect("append"); }
    p.commit().expect("commit");
}
fn check_reads(dir: &Path, v: &[Rec]) -> Res<()> {
    let o = Reader::open(dir);
    match (&o, m_open(v)) {
        (Err(e), Err(k)) if kind(e) == k => {}
        (Ok(r), Ok(n)) => {
            let Rec::Meta(m) = &v[0] else { unreachable!() };
            if (r.meta().state_root, r.meta().block_number, r.meta().block_hash, r.meta().header_count) != (m.state_root, m.block_number, m.block_hash, m.header_count) { return Err(("meta", format!("{:?} instead of {m:?}", r.meta()))); }
            let hs: Vec<Vec<u8>> = r.headers().iter().map(rlp).collect();
            let want: Vec<Vec<u8>> = v[1..1 + n].iter().map(|r| { let Rec::Header(b) = r else { unreachable!() }; rlp(&<ExecHeader as alloy_rlp::Decodable>::decode(&mut &b[..]).unwrap()) }).collect();
            if hs != want || rlp(r.snapshot_header()) != want[0] { return Err(("headers", format!("headers of {} differ", brief(v)))); }
        }
        (o, m) => return Err(("open", format!("open of [{}]: {:?}, expected {m:?}", brief(v), o.as_ref().map(|_| ()).map_err(kind)))),
    }
    if let Ok(mut r) = o {
        let n = m_open(v).unwrap();
        let b = &v[1 + n..];
        let (a, e) = accounts(&mut r);
        let (wa, we) = m_accounts(b);
        if a != wa || e.as_deref() != we { return Err(("accounts", format!("[{}]: read {} accounts ({}) then {e:?}, expected {} ({}) then {we:?}", brief(v), a.len(), brief_a(&a), wa.len(), brief_a(&wa)))); }
        let (a, e) = entries(&mut Reader::open(dir).map_err(|e| ("open", kind(&e)))?);
        let (wa, we) = m_entries(b);
        if a != wa || e.as_deref() != we { return Err(("entries", format!("[{}]: read [{}] then {e:?}, expected [{}] then {we:?}", brief(v), brief(&a), brief(&wa)))); }
    }
    let got = Reader::verify(dir).map(|r| (r.header_count, Stats { account_count: r.account_count, storage_slots: r.storage_slots, bytecodes: r.bytecodes })).map_err(|e| kind(&e));
    if got != m_verify(v).map_err(|e| e.to_string()) { return Err(("verify", format!("verify of [{}]: {got:?}, expected {:?}", brief(v), m_verify(v)))); }
    Ok(())
}
// ---- generators
fn gen_header(g: &mut vx::Rng, number: u64, root: B256) -> ExecHeader {
    let mut h = ExecHeader { number, state_root: root, ..Default::default() };
    if g.chance(1, 2) { h.gas_limit = g.edgy(); h.timestamp = g.edgy(); h.extra_data = Bytes::from({ let n = g.us(40); g.bytes(n) }); h.base_fee_per_gas = Some(g.edgy()); h.parent_hash = be(U256::from(g.next())); }
    if g.chance(1, 4) { h.withdrawals_root = Some(be(U256::from(g.next()))); h.blob_gas_used = Some(g.edgy()); h.excess_blob_gas = Some(0); h.parent_beacon_block_root = Some(be(U256::from(g.next()))); h.base_fee_per_gas = Some(7); }
    h
}
fn gen_account(g: &mut vx::Rng, n: u64, big: bool) -> ExecStateAccount {
    let slots = if big { [CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, 2 * CHUNK + 1][g.us(5)] } else { [0, 0, 1, 2, 3, 40][g.us(6)] };
    let storage = match g.below(3) { 0 if slots == 0 => Some(BTreeMap::new()), _ if slots == 0 => None, _ => { let o = g.below(1000); Some((0..slots as u64).map(|k| slot(k.wrapping_mul(if big { 1 } else { 0x9E37_79B9_7F4A_7C15 }) ^ o, 1 + g.below(9))).collect()) } };
    let code = match g.below(4) { 0 => Some(Bytes::from(vec![0x60, n as u8])), 1 => Some(Bytes::new()), 2 => Some(Bytes::from({ let n = g.us(30_000); g.bytes(n) })), _ => None };
    let mut adr = [0u8; 20];
    adr[12..].copy_from_slice(&(n.wrapping_mul(257)).to_be_bytes());
    ExecStateAccount { address: Address::from(adr), account: GenesisAccount { nonce: match g.below(3) { 0 => None, 1 => Some(0), _ => Some(g.edgy()) }, balance: match g.below(3) { 0 => U256::ZERO, 1 => U256::MAX, _ => U256::from(g.edgy()) << g.us(200) }, code, storage, private_key: None } }
}
fn head(hs: &[ExecHeader]) -> Vec<Rec> {
    let mut v = vec![Rec::Meta(Meta { state_root: hs[0].state_root, block_number: hs[0].number, block_hash: hs[0].hash_slow(), header_count: hs.len() as u32 })];
    v.extend(hs.iter().map(|h| Rec::Header(rlp(h))));
    v
}
fn gen_headers(g: &mut vx::Rng) -> Vec<ExecHeader> {
    let n = match g.below(12) { 0 => 255 + g.us(3), 1 => 300, _ => 1 + g.us(4) };
    let tip = match g.below(3) { 0 if n >= 256 => g.edgy(), 1 => n as u64 - g.below(2), _ => n as u64 };
    (0..n).map(|i| { let root = be(U256::from(g.next())); gen_header(g, tip.wrapping_sub(i as u64), root) }).collect()
}
// ---- write through the writer, read back
fn written(r: &mut vx::Rep, dir: &Path, n: u64) {
    let mut g = vx::Rng(r.rng.next());
    let _ = std::fs::remove_dir_all(dir);
    let hs = gen_headers(&mut g);
    let k = g.us(6);
    let mut body = vec![];
    let mut log = vec![];
    r.case(k > 0);
    let res = vx::guard(|| -> Res<()> {
        let e = |x: E| ("error", format!("{x}"));
        if g.chance(1, 10) { match Writer::create(dir, be(U256::from(1)), &hs) { Err(E::StateRootMismatch) => {} x => return Err(("create", format!("a state root other than the snapshot header's: {:?}", x.map(|_| ())))) } match Writer::create(dir, hs[0].state_root, &[]) { Err(E::MissingHeaders) => {} x => return Err(("create", format!("no headers: {:?}", x.map(|_| ())))) } }
        let mut w = Writer::create(dir, hs[0].state_root, &hs).map_err(e)?;
        let mut want = vec![];
        for i in 0..k as u64 {
            let big = n % 40 == 7 && i == 1;
            let a = gen_account(&mut g, n * 8 + i, big);
            let st: Vec<_> = a.account.storage.iter().flatten().map(|(k, v)| (*k, *v)).collect();
            if g.chance(1, 2) {
                log.push(format!("append_account({} slots)", st.len()));
                w.append_account(&a).map_err(e)?;
                body.extend(recs_of(&a));
            } else {
                w.append_account_header(a.address, a.account.nonce.unwrap_or(0), a.account.balance, a.account.code.clone()).map_err(e)?;
                body.push(recs_of(&a)[0].clone());
                let mut at = 0;
                while at < st.len() {
                    if g.chance(1, 6) { w.append_storage_chunk(&[]).map_err(e)?; }
                    let c = (1 + if st.len() > 1000 { CHUNK - 1 - g.us(2) * g.us(CHUNK - 1) } else { g.us(st.len()) }).min(st.len() - at);
                    log.push(format!("chunk of {c}"));
                    if g.chance(1, 2) { w.append_storage_chunk(&st[at..at + c]).map_err(e)?; } else { w.append_storage_chunk_owned(st[at..at + c].to_vec()).map_err(e)?; }
                    body.push(Rec::Storage(st[at..at + c].to_vec()));
                    at += c;
                }
                if big { let over: Vec<_> = (0..CHUNK as u64 + 1).map(|k| slot(k, 1)).collect(); match w.append_storage_chunk(&over) { Err(E::OversizedStorageChunk { len, max }) if (len, max) == (CHUNK + 1, CHUNK) => {} x => return Err(("oversized", format!("chunk of {} slots: {x:?}", CHUNK + 1))) } }
            }
            want.push(canon(&a));
        }
        let s = w.finish().map_err(e)?;
        let t = stats_of(&body);
        if (s.account_count, s.storage_slots, s.bytecodes) != (t.account_count, t.storage_slots, t.bytecodes) { return Err(("stats", format!("finish says {s:?}, written {t:?}"))); }
        let mut all = head(&hs);
        all.extend(body.iter().cloned());
        all.push(Rec::End(t.clone()));
        let raw: Vec<_> = read_recs(dir);
        if raw.iter().map(|x| x.as_ref().ok()).ne(all.iter().map(Some)) { return Err(("file", format!("the file holds [{}], written [{}]", brief(&raw.iter().filter_map(|x| x.clone().ok()).collect::<Vec<_>>()), brief(&all)))); }
        check_reads(dir, &all)?;
        let (mut got, mut rd) = (vec![], Reader::open(dir).map_err(e)?);
        for x in rd.accounts() { got.push(x.map_err(e)?); }
        if got != want { return Err(("round trip", format!("read [{}], written [{}]", brief_a(&got), brief_a(&want)))); }
        // damage: never other accounts, verify refuses
        let file = dir.join("state_data");
        let good = std::fs::read(&file).unwrap();
        for _ in 0..if all.len() > 100 || good.len() > 100_000 { 2 } else { 8 } {
            let mut b = good.clone();
            let what = if g.chance(1, 3) { let at = g.us(b.len()); b.truncate(at); format!("cut at {at} of {}", good.len()) } else { let at = g.us(b.len()); let w = (1 + g.us(4)).min(b.len() - at); for j in 0..w { b[at + j] ^= if j == 0 { 1 + g.below(255) as u8 } else { g.next() as u8 }; } format!("bytes {at}..{} of {} damaged", at + w, good.len()) };
            std::fs::write(&file, &b).unwrap();
            if let Ok(x) = Reader::verify(dir) { return Err(("damage", format!("{what}: verify accepts [{}]: {x:?}", brief(&all)))); }
            if let Ok(mut rd) = Reader::open(dir) {
                let (got, e) = accounts(&mut rd);
                if e.is_none() || got.len() > want.len() || got[..] != want[..got.len()] { return Err(("damage", format!("{what}: read [{}] then {e:?}, written [{}]", brief_a(&got), brief_a(&want)))); }
            }
        }
        std::fs::write(&file, &good).unwrap();
        Ok(())
    });
    match res { Err(p) => r.fail("panic", format!("{p}, {} headers, {log:?}, [{}]", hs.len(), brief(&body))), Ok(Err((k, w))) => r.fail(k, format!("{w}, after {log:?}")), _ => {} }
    if n < 4 { r.sample(format!("{} headers; {}; {}", hs.len(), log.join(", "), brief(&body))); }
}
/// record lists no writer makes
fn crafted(r: &mut vx::Rep, dir: &Path, n: u64) {
    let mut g = vx::Rng(r.rng.next());
    let hs = gen_headers(&mut g);
    let mut v = head(&hs);
    for i in 0..g.us(4) as u64 { v.extend(recs_of(&gen_account(&mut g, n * 8 + i, false))); }
    let t = stats_of(&v);
    v.push(Rec::End(t));
    for _ in 0..1 + g.us(2) {
        let k = v.len();
        if k == 0 { break; }
        let lo = if g.chance(1, 2) { (1 + hs.len()).min(k - 1) } else { 0 };
        let at = lo + g.us(k - lo);
        match g.below(10) {
            0 => { v.remove(at); }
            1 => { let x = v[at].clone(); v.insert(g.us(k + 1), x); }
            2 => { let b = g.us(k); v.swap(at, b); }
            3 => v.truncate(at),
            4 => { if let Some(Rec::Meta(m)) = v.first_mut() { m.header_count = [0, m.header_count.wrapping_add(1), m.header_count.wrapping_sub(1), 4096, 4097, u32::MAX, 1 << 31][g.us(7)]; } }
            5 => { if let Some(Rec::Meta(m)) = v.first_mut() { match g.below(3) { 0 => m.state_root.0[g.us(32)] ^= 1, 1 => m.block_number = [m.block_number + 1, 0, 256, 257, u64::MAX][g.us(5)], _ => m.block_hash.0[g.us(32)] ^= 4 } } }
            6 => { if let Some(Rec::End(s)) = v.last_mut() { match g.below(3) { 0 => s.account_count = s.account_count.wrapping_add(1), 1 => s.account_count = s.account_count.wrapping_sub(1), _ => { s.storage_slots = s.storage_slots.wrapping_add(1); s.bytecodes = g.next(); } } } }
            7 => { if let Rec::Header(b) = &mut v[at.min(k - 1)] { match g.below(4) { 0 => { b.pop(); } 1 => b.clear(), 2 => b.push(0), _ => { let i = g.us(b.len().max(1)); if let Some(x) = b.get_mut(i) { *x ^= 1 << g.below(8); } } } } }
            8 => { let n = [CHUNK, CHUNK + 1, 0, 3][if g.chance(1, 6) { g.us(2) } else { 2 + g.us(2) }]; v.insert(at, Rec::Storage((0..n as u64).map(|k| slot(k / 2, k)).collect())); }
            _ => { let x = Rec::Account(Acc { address: Address::from([at as u8; 20]), nonce: 1, balance: be(U256::from(5)), code: None }); v.insert(at, x); }
        }
    }
    r.case(true);
    match vx::guard(|| { craft(dir, &v); check_reads(dir, &v) }) { Err(p) => r.fail("panic", format!("{p}, [{}]", brief(&v))), Ok(Err((k, w))) => r.fail(k, w), _ => {} }
    if n < 5 { r.sample(brief(&v)); }
}
/// header counts at the bounds
fn bounds(r: &mut vx::Rep, dir: &Path) {
    for (count, tip) in [(1usize, 0u64), (1, 1), (1, 2), (255, 255), (255, 256), (255, 1000), (256, 256), (256, 257), (256, u64::MAX), (257, 300), (4096, 5000), (4096, 4096), (4097, 4097)] {
        r.case(true);
        let hs: Vec<ExecHeader> = (0..count).map(|i| ExecHeader { number: tip.wrapping_sub(i as u64), ..Default::default() }).collect();
        let _ = std::fs::remove_dir_all(dir);
        let res = vx::guard(|| -> Res<()> {
            let w = Writer::create(dir, hs[0].state_root, &hs).map_err(|e| ("error", format!("{e}")))?;
            w.finish().map_err(|e| ("error", format!("{e}")))?;
            let mut all = head(&hs);
            all.push(Rec::End(Stats { account_count: 0, storage_slots: 0, bytecodes: 0 }));
            check_reads(dir, &all)
        });
        match res { Err(p) => r.fail("panic", format!("{p}, {count} headers at block {tip}")), Ok(Err((k, w))) => r.fail(k, format!("{w}; {count} headers at block {tip}")), _ => {} }
    }
    // a version from the future, another container identity, no file, an empty file
    let v = { let h = ExecHeader { number: 1, ..Default::default() }; let mut v = head(&[h]); v.push(Rec::End(Stats { account_count: 0, storage_slots: 0, bytecodes: 0 })); v };
    for (idx, ver) in [(0u64, 2u16), (1, 1), (u64::MAX, 1)] {
        let _ = std::fs::remove_dir_all(dir); std::fs::create_dir_all(dir).unwrap();
        let mut p = Pack::<Rec>::open(dir.join("state_data"), idx, false, PackCompression::ZStd, ver).expect("open");
        for x in &v { p.append(x).expect("append"); }
        p.commit().expect("commit"); drop(p);
        r.case(true);
        r.check(Reader::open(dir).is_err() && Reader::verify(dir).is_err(), "identity", || format!("a pack of container {idx} version {ver} accepted"));
    }
    let _ = std::fs::remove_dir_all(dir);
    r.case(true);
    r.check(Reader::open(dir).is_err() && Reader::verify(dir).is_err(), "missing", || "a pack opened where there is none".into());
}
/// the disk fills up: finish does not succeed on a pack that lacks a record
fn full(r: &mut vx::Rep, dir: &Path) {
    let mut g = vx::Rng(r.rng.next());
    let _ = std::fs::remove_dir_all(dir);
    let hs = vec![gen_header(&mut g, 1, B256::ZERO)];
    let mut body = vec![];
    r.case(true);
    let room = g.below(60_000);
    let res = vx::guard(|| -> Res<()> {
        let mut w = Writer::create(dir, hs[0].state_root, &hs).map_err(|e| ("error", format!("{e}")))?;
        let l = fault::Full::at(room);
        let mut refused = None;
        for i in 0..1 + g.us(12) as u64 {
            let a = gen_account(&mut g, i, false);
            body.extend(recs_of(&a));
            if let Err(e) = w.append_account(&a) { refused = Some(format!("{e}")); if g.chance(1, 2) { break; } }
        }
        let l = if g.chance(1, 2) { drop(l); None } else { Some(l) };
        let f = w.finish();
        drop(l);
        if let (Ok(s), Some(e)) = (&f, &refused) { return Err(("full disk", format!("finish succeeded with {s:?} though an append failed: {e}"))); }
        if f.is_ok() {
            let mut all = head(&hs); all.extend(body.iter().cloned()); all.push(Rec::End(stats_of(&body)));
            check_reads(dir, &all)?;
        } else if Reader::verify(dir).is_ok() { 
            let mut all = head(&hs); all.extend(body.iter().cloned()); all.push(Rec::End(stats_of(&body)));
            check_reads(dir, &all)?;
        }
        Ok(())
    });
    match res { Err(p) => r.fail("panic", format!("{p}, room {room}, [{}]", brief(&body))), Ok(Err((k, w))) => r.fail(k, format!("{w}, room {room}, [{}]", brief(&body))), _ => {} }
}
/// the export walk: rows in, the account records they stand for out
fn exported(r: &mut vx::Rep, dir: &Path, n: u64) {
    use export::*;
    let mut g = vx::Rng(r.rng.next());
    let adr = |k: u64| { let mut a = [0u8; 20]; a[..8].copy_from_slice(&(k * 31).to_be_bytes()); Address::from(a) };
    let (mut accounts, mut rows, mut want, mut bad) = (vec![], vec![], vec![], None::<String>);
    let mut log = vec![];
    let err_at = if g.chance(1, 6) { Some(g.below(8)) } else { None };
    for k in 0..8u64 {
        let present = g.chance(2, 3);
        let a = Account { nonce: g.edgy(), balance: U256::from(g.edgy()), bytecode_hash: match g.below(3) { 0 => None, 1 => Some(KECCAK_EMPTY), _ => Some(be(U256::from(100 + k))) } };
        let m = if n % 50 == 3 && k == 4 { [CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, 2 * CHUNK + 3][g.us(5)] } else { [0, 0, 1, 3, 9][g.us(5)] };
        let mut st: Vec<(B256, U256)> = (0..m as u64).map(|i| (be(U256::from(i * 3 + 1)), if m < 100 && g.chance(1, 4) { U256::ZERO } else { U256::from(1 + g.below(3)) << (8 * g.us(31)) })).collect();
        // a database that breaks its own order
        let broken = present && m >= 3 && m < 100 && g.chance(1, 12);
        if broken { let i = g.us(m - 1); if g.chance(1, 2) { st.swap(i, i + 1); } else { st[i + 1].0 = st[i].0; } }
        let kept: Vec<(B256, B256)> = st.iter().filter(|e| !e.1.is_zero()).map(|e| (e.0, be(e.1))).collect();
        log.push(format!("{k}: {} with {m} rows, {} non-zero{}", if present { "account" } else { "no account" }, kept.len(), if broken { ", out of order" } else { "" }));
        if present && bad.is_none() {
            if kept.windows(2).any(|w| w[0].0 >= w[1].0) { bad = Some("order".into()); }
            else {
                want.push(Rec::Account(Acc { address: adr(k), nonce: a.nonce, balance: be(a.balance), code: match a.bytecode_hash { Some(h) if h != KECCAK_EMPTY => Some(Bytes::from(h.to_vec())), _ => None } }));
                want.extend(kept.chunks(CHUNK).map(|c| Rec::Storage(c.to_vec())));
            }
        }
        if present { accounts.push(Ok((adr(k), a))); }
        rows.extend(st.iter().map(|e| Ok((adr(k), StorageEntry { key: e.0, value: e.1 }))));
        // a failed read of a row or an account ends the export
        if err_at == Some(k) && bad.is_none() { if g.chance(1, 2) && present { accounts.push(Err(TnRethError::Snapshot("read".into()))); bad = Some("read".into()); } else if present && m > 0 { let i = rows.len() - 1; rows[i] = Err(TnRethError::Snapshot("read".into())); bad = Some("read".into()); } }
    }
    r.case(true);
    let res = vx::guard(|| -> Res<()> {
        let _ = std::fs::remove_dir_all(dir);
        let hs = vec![gen_header(&mut g, 1, B256::ZERO)];
        let mut w = Writer::create(dir, hs[0].state_root, &hs).map_err(|e| ("error", format!("{e}")))?;
        let out = export_plain_state(accounts.into_iter(), rows.into_iter(), |_, h| Ok(Bytes::from(h.to_vec())), &mut w);
        if out.is_err() != bad.is_some() { return Err(("export", format!("export says {out:?}, a fault in the rows: {bad:?}"))); }
        if bad.is_some() { return Ok(()); }
        w.finish().map_err(|e| ("error", format!("{e}")))?;
        let mut all = head(&hs);
        let t = stats_of(&want);
        all.extend(want.iter().cloned());
        all.push(Rec::End(t));
        let raw: Vec<Rec> = read_recs(dir).into_iter().filter_map(|x| x.ok()).collect();
        if raw != all { return Err(("export", format!("exported [{}], the rows are [{}]", brief(&raw), brief(&all)))); }
        check_reads(dir, &all)
    });
    match res { Err(p) => r.fail("panic", format!("{p}, {log:?}")), Ok(Err((k, w))) => r.fail(k, format!("{w}, {log:?}")), _ => {} }
}
fn main() {
    let mut r = vx::Rep::new();
    let dir: PathBuf = PathBuf::from(std::env::var("VX_SCRATCH").unwrap()).join("c26");
    let _ = std::fs::remove_dir_all(&dir);
    bounds(&mut r, &dir);
    let mut n = 0;
    while r.time_left(1.0) { n += 1; match n % 8 { 2 => exported(&mut r, &dir, n / 8), 0 => full(&mut r, &dir), 1 | 3 | 5 => crafted(&mut r, &dir, n), _ => written(&mut r, &dir, n) } }
    let _ = std::fs::remove_dir_all(&dir);
    r.finish()
}
