#![allow(dead_code, unused)]
//@include lib/rs/native.rs
use serde::{Deserialize, Serialize};
use serde_with::{DeserializeAs as _, SerializeAs as _};
use std::fmt::Debug;
mod codec {
//@module file=crates/types/src/codec.rs
//@end
}
mod rserde {
//@module file=crates/types/src/serde.rs
//@end
}
pub struct HeaderInner { round: u32, epoch: u32 }
pub struct Header { inner: HeaderInner }
impl Header {
//@fn file=crates/types/src/primary/header.rs path="impl Header :: fn nonce"
//@end
}
//@fn file=crates/types/src/helpers.rs path="fn deconstruct_nonce"
//@end
#[derive(Clone, Debug, PartialEq)] struct Bm(roaring::RoaringBitmap);
impl Serialize for Bm { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { rserde::RoaringBitmapSerde::serialize_as(&self.0, s) } }
impl<'de> Deserialize<'de> for Bm { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { rserde::RoaringBitmapSerde::deserialize_as(d).map(Bm) } }
/// a writer with room for so many bytes
struct Small(Vec<u8>, usize);
impl std::io::Write for Small {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.1 -= n; self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn key<T: Serialize + for<'a> Deserialize<'a> + Ord + Debug>(r: &mut vx::Rep, a: T, b: T, fixed: bool) {
    r.case(a != b);
    let (x, y) = (codec::encode_key(&a), codec::encode_key(&b));
    r.check(x.cmp(&y) == a.cmp(&b), "key-order", || format!("keys {a:?} and {b:?} are stored as {x:?} and {y:?}: other order"));
    match vx::guard(|| codec::decode_key::<T>(&x)) { Ok(v) => r.check(v == a, "key-decode", || format!("key {a:?} reads back as {v:?}")), Err(p) => r.fail("key-decode", format!("key {a:?}: {p}")) }
    r.check(codec::try_decode_key::<T>(&x).ok() == Some(a), "key-try-decode", || format!("try_decode_key of {x:?}"));
    if fixed {
        r.check(x.len() == y.len(), "key-width", || format!("{} and {} bytes", x.len(), y.len()));
        if !x.is_empty() { r.check(codec::try_decode_key::<T>(&x[..x.len() - 1]).is_err(), "key-short", || format!("a key of {:?} accepted", &x[..x.len() - 1])); }
        let mut z = x.clone(); z.push(0);
        r.check(codec::try_decode_key::<T>(&z).is_err(), "key-long", || format!("a key of {z:?} accepted"));
    }
}
fn val<T: Serialize + for<'a> Deserialize<'a> + PartialEq + Debug>(r: &mut vx::Rep, v: T) {
    let x = codec::encode(&v);
    r.case(!x.is_empty());
    match vx::guard(|| codec::decode::<T>(&x)) { Ok(w) => r.check(w == v, "decode", || format!("{v:?} reads back as {w:?}")), Err(p) => r.fail("decode", format!("{v:?}: {p}")) }
    r.check(codec::try_decode::<T>(&x).ok().as_ref() == Some(&v), "try-decode", || format!("try_decode of {v:?}"));
    r.check(codec::encoded_size(&v).ok() == Some(x.len()), "size", || format!("encoded_size of {v:?} is {:?}, {} bytes are written", codec::encoded_size(&v), x.len()));
    let mut b = vec![7u8, 9];
    let ok = codec::encode_into_buffer(&mut b, &v).is_ok();
    r.check(ok && b[..2] == [7, 9] && b[2..] == x[..], "into-buffer", || format!("encode_into_buffer of {v:?}"));
    let k = r.rng.us(x.len() + 1);
    let mut w = Small(vec![], k);
    let e = codec::encode_into_buffer(&mut w, &v);
    r.check(e.is_ok() == (k >= x.len()), "into-full-buffer", || format!("writing {} bytes into room for {k}: {e:?}", x.len()));
    if !x.is_empty() { r.check(codec::try_decode::<T>(&x[..x.len() - 1]).is_err(), "short", || format!("{v:?} cut by one byte accepted")); }
    let mut z = x.clone(); z.push(0);
    r.check(codec::try_decode::<T>(&z).is_err(), "long", || format!("{v:?} with one byte more accepted"));
}
fn bitmap(r: &mut vx::Rep, m: Bm) {
    let n = m.0.len();
    let mut want = vec![]; m.0.serialize_into(&mut want).unwrap();
    let b = codec::encode(&m);
    r.check(b == codec::encode(&serde_bytes(&want)), "bitmap-bytes", || format!("a bitmap of {n} is not written as its portable form"));
    val(r, m.clone());
    let j = serde_json::to_string(&m).unwrap();
    r.check(j == format!("\"{}\"", bs58::encode(&want).into_string()), "bitmap-text", || format!("a bitmap of {n} is written as {j}"));
    r.check(serde_json::from_str::<Bm>(&j).ok().as_ref() == Some(&m), "bitmap-text-decode", || format!("a bitmap of {n} does not read back from {j}"));
    for k in [0, 1, want.len() / 2, want.len() - 1] {
        if k < want.len() { let t = codec::encode(&serde_bytes(&want[..k])); r.check(vx::guard(|| codec::try_decode::<Bm>(&t).is_err()) == Ok(true), "bitmap-cut", || format!("a bitmap of {n} cut to {k} of {} bytes accepted", want.len())); }
    }
}
struct Raw(Vec<u8>);
impl Serialize for Raw { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
fn serde_bytes(b: &[u8]) -> Raw { Raw(b.to_vec()) }
fn nonce(r: &mut vx::Rep, e: u32, d: u32) {
    r.case(e > 0);
    let n = Header { inner: HeaderInner { round: d, epoch: e } }.nonce();
    r.check(n as u128 == e as u128 * (1u128 << 32) + d as u128, "nonce", || format!("nonce of epoch {e} round {d} is {n:#x}"));
    r.check(deconstruct_nonce(n) == (e, d), "nonce-inverse", || format!("epoch {e} round {d} read back as {:?}", deconstruct_nonce(n)));
}
fn main() {
    let mut r = vx::Rep::new();
    let edge32 = [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX - 1, u32::MAX];
    for e in edge32 { for d in edge32 { nonce(&mut r, e, d); key(&mut r, e, d, true); key(&mut r, (e, d), (d, e), true); key(&mut r, e as u64 * d as u64, d as u64, true); } }
    for a in 0..=255u8 { for b in [0, 1, 127, 128, 254, 255] { key(&mut r, a, b, true); } }
    r.sample("keys at the edges of u8, u32, u64 and pairs, in both orders".into());
    while r.time_left(1.0) {
        let (a, b) = (r.rng.edgy(), r.rng.edgy());
        nonce(&mut r, a as u32, b as u32);
        key(&mut r, a, b, true); key(&mut r, a as u16, b as u16, true); key(&mut r, a as u32, b as u32, true);
        key(&mut r, (a as u32, b), (b as u32, a), true); key(&mut r, (a, b as u8), (a, a as u8), true);
        key(&mut r, a as u128 * b as u128, b as u128, true);
        key(&mut r, (a & 1 == 1, b), (b & 1 == 1, a), true);
        let mut x = [0u8; 32]; let mut y = [0u8; 32];
        for i in 0..32 { x[i] = r.rng.next() as u8; y[i] = if r.rng.chance(9, 10) { x[i] } else { r.rng.next() as u8 }; }
        key(&mut r, x, y, true);
        key(&mut r, (a as u32, x), (a as u32, y), true);
        val(&mut r, a); val(&mut r, (a as u32, b, vec![a as u16; (b % 9) as usize]));
        let n = r.rng.us(300); let bs = r.rng.bytes(n); val(&mut r, bs.clone());
        val(&mut r, Some(String::from_utf8_lossy(&bs).into_owned())); val(&mut r, None::<u8>);
        val(&mut r, std::collections::BTreeMap::from([(a, vec![b]), (b, vec![a, a])]));
        let mut m = roaring::RoaringBitmap::new();
        let top = [8u64, 200, 70_000, 1 << 32][r.rng.us(4)];
        for _ in 0..r.rng.us(120) { m.insert(r.rng.below(top) as u32); }
        if r.rng.chance(1, 6) { m.insert_range(r.rng.below(70_000) as u32..r.rng.below(140_000) as u32); }
        bitmap(&mut r, Bm(m));
        r.sample(format!("keys {a} and {b}"));
    }
    r.finish()
}
