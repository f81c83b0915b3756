#![allow(dead_code, unused)]
//@include lib/rs/native.rs
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash as _, Hasher as _};
mod codec {
//@module file=crates/types/src/codec.rs
//@end
}
pub use alloy::primitives::B256;
pub use alloy::genesis::Genesis;
use alloy::primitives::Address;
pub use codec::*;
mod crypto {
//@module file=crates/types/src/crypto/mod.rs
//@sub? /mod bls_keypair;/ =>
//@sub? /mod bls_public_key;/ =>
//@sub? /mod bls_signature;/ =>
//@sub? /mod intent;/ =>
//@sub? /mod network;/ =>
//@end
mod bls_keypair {
//@module file=crates/types/src/crypto/bls_keypair.rs
//@end
}
mod bls_public_key {
//@module file=crates/types/src/crypto/bls_public_key.rs
//@end
}
mod bls_signature {
//@module file=crates/types/src/crypto/bls_signature.rs
//@end
}
mod intent {
//@module file=crates/types/src/crypto/intent.rs
//@end
}
mod network {
//@module file=crates/types/src/crypto/network.rs
//@end
}
}
use crypto::*;
crypto::digest_newtype! { #[doc = "a domain's digest"] pub struct Foo; }
const R_ORDER: [u8; 32] = [1, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 2, 0xa4, 0xbd, 0x53, 5, 0xd8, 0xa1, 9, 8, 0xd8, 0x39, 0x33, 0x48, 0x7d, 0x9d, 0x29, 0x53, 0xa7, 0xed, 0x73];
/// the signature plus a point whose order divides the cofactor: it pairs like the signature, but is outside the group
fn off_group_sig(r: &mut vx::Rng, s: &BlsSignature) -> BlsSignature {
    loop { unsafe {
        let mut x = r.bytes(48); x[0] = 0x80 | (x[0] & 0x1f) >> 1;
        let mut a = blst::blst_p1_affine::default();
        if blst::blst_p1_uncompress(&mut a, x.as_ptr()) != blst::BLST_ERROR::BLST_SUCCESS || blst::blst_p1_affine_in_g1(&a) { continue; }
        let (mut p, mut t, mut q, mut o) = (blst::blst_p1::default(), blst::blst_p1::default(), blst::blst_p1::default(), blst::blst_p1::default());
        blst::blst_p1_from_affine(&mut p, &a);
        blst::blst_p1_mult(&mut t, &p, R_ORDER.as_ptr(), 255);
        let b = s.to_bytes(); let mut sa = blst::blst_p1_affine::default();
        assert!(blst::blst_p1_uncompress(&mut sa, b.as_ptr()) == blst::BLST_ERROR::BLST_SUCCESS);
        blst::blst_p1_from_affine(&mut q, &sa);
        blst::blst_p1_add_or_double(&mut o, &q, &t);
        let mut c = [0u8; 48]; blst::blst_p1_compress(c.as_mut_ptr(), &o);
        return BlsSignature::from_bytes(&c).unwrap();
    } }
}
fn off_group_key(r: &mut vx::Rng, k: &BlsPublicKey) -> BlsPublicKey {
    loop { unsafe {
        let mut x = r.bytes(96); x[0] = 0x80 | (x[0] & 0x1f) >> 1; x[48] &= 0x0f;
        let mut a = blst::blst_p2_affine::default();
        if blst::blst_p2_uncompress(&mut a, x.as_ptr()) != blst::BLST_ERROR::BLST_SUCCESS || blst::blst_p2_affine_in_g2(&a) { continue; }
        let (mut p, mut t, mut q, mut o) = (blst::blst_p2::default(), blst::blst_p2::default(), blst::blst_p2::default(), blst::blst_p2::default());
        blst::blst_p2_from_affine(&mut p, &a);
        blst::blst_p2_mult(&mut t, &p, R_ORDER.as_ptr(), 255);
        let b = k.to_bytes(); let mut ka = blst::blst_p2_affine::default();
        assert!(blst::blst_p2_uncompress(&mut ka, b.as_ptr()) == blst::BLST_ERROR::BLST_SUCCESS);
        blst::blst_p2_from_affine(&mut q, &ka);
        blst::blst_p2_add_or_double(&mut o, &q, &t);
        let mut c = [0u8; 96]; blst::blst_p2_compress(c.as_mut_ptr(), &o);
        return BlsPublicKey::from_literal_bytes(&c).unwrap();
    } }
}
fn hash<T: std::hash::Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn pair(r: &mut vx::Rng) -> BlsKeypair {
    loop { let mut b = r.bytes(32); b[0] &= 0x3f; if let Ok(k) = BlsKeypair::from_bytes(&b) { return k; } }
}
const INF_SIG: [u8; 48] = { let mut a = [0; 48]; a[0] = 0xc0; a };
const INF_KEY: [u8; 96] = { let mut a = [0; 96]; a[0] = 0xc0; a };
fn flip(r: &mut vx::Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match r.us(4) { 0 => v.push(0), 1 if !v.is_empty() => { v.pop(); } 2 if !v.is_empty() => { let i = r.us(v.len()); v[i] ^= 1 << r.us(8); } _ => v.insert(0, r.next() as u8) }
    v
}
fn rejects(r: &mut vx::Rep, what: &str, s: &BlsSignature, k: &BlsPublicKey, m: &[u8]) {
    r.check(!s.verify_raw(m, k), "verify-raw", || format!("verify_raw accepts {what}"));
    r.check(!bls_verify_secure(s, k, m), "verify-precompile", || format!("bls_verify_secure accepts {what}"));
}
fn signatures(r: &mut vx::Rep) {
    let (k, other) = (pair(&mut r.rng), pair(&mut r.rng));
    let n = [0, 1, 31, 32, 48, 96, 119, 200][r.rng.us(8)];
    let m = r.rng.bytes(n);
    let s = k.sign(&m);
    r.case(true);
    let want = blst::min_sig::SecretKey::from_bytes(&k.to_bytes()).unwrap().sign(&m, b"BLS_SIG_BLS12381G1_XMD:SHA-256_SSWU_RO_NUL_", &[]);
    r.check(s.to_bytes() == want.to_bytes(), "sign", || "sign is not the min-sig signature under the protocol ciphersuite".into());
    let sk = blst::min_sig::SecretKey::from_bytes(&k.to_bytes()).unwrap();
    r.check(Signer::sign(&sk, &m) == s, "sign-secret", || "a secret key and its key pair sign differently".into());
    r.check(s.verify_raw(&m, k.public()) && bls_verify_secure(&s, k.public(), &m) && s.verify_secure_bytes(&m, k.public()), "verify", || format!("an honest signature over {n} bytes is refused"));
    let w = flip(&mut r.rng, &m);
    rejects(r, "another message", &s, k.public(), &w);
    r.check(!s.verify_secure_bytes(&w, k.public()), "verify-bytes", || "verify_secure_bytes accepts another message".into());
    rejects(r, "another key", &s, other.public(), &m);
    r.check(!s.verify_secure_bytes(&m, other.public()), "verify-bytes", || "verify_secure_bytes accepts another key".into());
    rejects(r, "another key's signature", &other.sign(&m), k.public(), &m);
    rejects(r, "the infinity signature", &BlsSignature::default(), k.public(), &m);
    if let Ok(inf) = BlsPublicKey::from_literal_bytes(&INF_KEY) {
        rejects(r, "the infinity key", &s, &inf, &m);
        rejects(r, "infinity signature under the infinity key", &BlsSignature::default(), &inf, &m);
        r.check(!BlsSignature::default().verify_secure_bytes(&m, &inf), "verify-bytes", || "verify_secure_bytes accepts the infinity key".into());
    }
    let off = off_group_sig(&mut r.rng, &s);
    rejects(r, "a signature outside its group", &off, k.public(), &m);
    let offk = off_group_key(&mut r.rng, k.public());
    rejects(r, "a key outside its group", &s, &offk, &m);
    // intents keep domains apart
    let scopes = [IntentScope::ProofOfPossession, IntentScope::EpochBoundary, IntentScope::ConsensusDigest, IntentScope::SystemMessage, IntentScope::EpochCloseSeed];
    let i = r.rng.us(10);
    let mk = |i: usize| if i < 5 { Intent::telcoin(scopes[i]) } else { Intent::consensus(scopes[i - 5]) };
    let v: B256 = B256::from_slice(&r.rng.bytes(32));
    let im = IntentMessage::new(mk(i), v);
    let si = BlsSignature::new_secure(&im, &k);
    r.check(si.verify_secure(&im, k.public()) && si.verify_raw(&encode(&im), k.public()), "intent", || format!("a signature over intent {i} is refused"));
    for j in 0..10 {
        let o = IntentMessage::new(mk(j), v);
        r.check(si.verify_secure(&o, k.public()) == (i == j), "intent-apart", || format!("a signature over intent {i} checked as intent {j}"));
    }
    r.check(!si.verify_secure(&IntentMessage::new(mk(i), B256::ZERO), k.public()) && !si.verify_secure(&im, other.public()), "intent", || "another value or key accepted".into());
    let offi = off_group_sig(&mut r.rng, &si);
    r.check(!offi.verify_secure(&im, k.public()) && !si.verify_secure(&im, &offk), "intent-group", || "verify_secure accepts a point outside its group".into());
    r.check(BlsSignature::default().new_secure_bytes(&encode(&im), &k) == si, "sign-bytes", || "new_secure_bytes differs from new_secure".into());
    let t = to_intent_message(v);
    r.check(t.value == v && t.intent == Intent::consensus(IntentScope::ConsensusDigest), "to-intent", || "to_intent_message".into());
    // aggregates
    let n = 1 + r.rng.us(5);
    let ks: Vec<BlsKeypair> = (0..n).map(|_| pair(&mut r.rng)).collect();
    let sigs: Vec<BlsSignature> = ks.iter().map(|k| BlsSignature::new_secure(&im, k)).collect();
    let mut pks: Vec<BlsPublicKey> = ks.iter().map(|k| *k.public()).collect();
    let a = match BlsAggregateSignature::aggregate(&sigs, r.rng.chance(1, 2)) { Ok(a) => a, Err(e) => return r.fail("aggregate", format!("{n} signatures: {e}")) };
    r.check(a.verify_secure(&im, &pks), "aggregate", || format!("the aggregate of {n} honest signatures is refused"));
    r.rng.shuffle(&mut pks);
    let back = BlsAggregateSignature::from_signature(&a.to_signature());
    r.check(back.verify_secure(&im, &pks) && back.to_signature() == a.to_signature(), "aggregate-signature", || "an aggregate taken from its signature is refused".into());
    r.check(!a.verify_secure(&im, &[]) && !BlsAggregateSignature::from_signature(&BlsSignature::default()).verify_secure(&im, &[]), "aggregate-empty", || "an aggregate over nobody accepted".into());
    r.check(!a.verify_secure(&im, &pks[1..]), "aggregate-missing", || "an aggregate with a signer too many accepted".into());
    let mut more = pks.clone(); more.push(if r.rng.chance(1, 2) { *other.public() } else { pks[0] });
    r.check(!a.verify_secure(&im, &more), "aggregate-extra", || "an aggregate with a signer too few accepted".into());
    let mut swapped = pks.clone(); swapped[r.rng.us(n)] = *other.public();
    r.check(!a.verify_secure(&im, &swapped), "aggregate-other", || "an aggregate with another signer accepted".into());
    let oi = IntentMessage::new(mk((i + 1 + r.rng.us(9)) % 10), v);
    r.check(!a.verify_secure(&oi, &pks) && !a.verify_secure(&IntentMessage::new(mk(i), B256::ZERO), &pks), "aggregate-message", || "an aggregate accepted for another message".into());
    let offa = BlsAggregateSignature::from_signature(&off_group_sig(&mut r.rng, &a.to_signature()));
    r.check(!offa.verify_secure(&im, &pks), "aggregate-group", || "an aggregate outside the signature group accepted".into());
    let mut offp = pks.clone(); let z = r.rng.us(n); offp[z] = off_group_key(&mut r.rng, &pks[z]);
    r.check(!a.verify_secure(&im, &offp), "aggregate-key-group", || "an aggregate with a key outside its group accepted".into());
    r.check(BlsAggregateSignature::aggregate(&[], true).is_err(), "aggregate-none", || "the aggregate of nothing exists".into());
    let mut bad = sigs.clone(); bad[r.rng.us(n)] = off_group_sig(&mut r.rng, &sigs[0]);
    r.check(BlsAggregateSignature::aggregate(&bad, true).is_err(), "aggregate-groupcheck", || "aggregate takes a point outside its group when told to check".into());
    pop(r, &k, &other);
    serde(r, &k, &s);
}
fn pop(r: &mut vx::Rep, k: &BlsKeypair, other: &BlsKeypair) {
    let a = Address::from_slice(&r.rng.bytes(20));
    let m = construct_proof_of_possession_message(k.public(), &a);
    let want: Vec<u8> = [&[0u8, 0, 0][..], &k.public().to_bytes(), a.as_slice()].concat();
    r.check(m == want, "pop-message", || format!("the proof of possession message is {}", hex::encode(&m)));
    let p = generate_proof_of_possession_bls_for_test(k, &a).unwrap();
    r.check(p == k.sign(&want), "pop-sign", || "the proof is not the signature of the message".into());
    r.check(verify_proof_of_possession_bls(&p, k.public(), &a).is_ok(), "pop", || "an honest proof is refused".into());
    let mut b = a.0 .0; b[r.rng.us(20)] ^= 1 << r.rng.us(8);
    r.check(verify_proof_of_possession_bls(&p, k.public(), &Address::from(b)).is_err(), "pop-address", || "a proof for another address accepted".into());
    r.check(verify_proof_of_possession_bls(&p, other.public(), &a).is_err(), "pop-key", || "a proof for another key accepted".into());
    let forged = other.sign(&m);
    r.check(verify_proof_of_possession_bls(&forged, k.public(), &a).is_err(), "pop-forged", || "another key's signature accepted as a proof".into());
    let offp = off_group_sig(&mut r.rng, &p);
    r.check(verify_proof_of_possession_bls(&offp, k.public(), &a).is_err(), "pop-group", || "a proof outside its group accepted".into());
    let off = off_group_key(&mut r.rng, k.public());
    let po = k.sign(&construct_proof_of_possession_message(&off, &a));
    r.check(verify_proof_of_possession_bls(&po, &off, &a).is_err(), "pop-key-group", || "a proof for a key outside its group accepted".into());
    // network keys
    let n = NetworkKeypair::ed25519_from_bytes(r.rng.bytes(32)).unwrap();
    let (g, mut g2) = (Genesis { nonce: r.rng.next(), ..Default::default() }, Genesis::default());
    g2.nonce = g.nonce ^ 1 << r.rng.us(64);
    let pk = NetworkPublicKey::from(n.public());
    let p = generate_proof_of_possession_network(&n, &g);
    r.check(verify_proof_of_possession_network(&p, &pk, &g), "network-pop", || "an honest network proof is refused".into());
    r.check(!verify_proof_of_possession_network(&p, &pk, &g2), "network-pop-genesis", || "a proof for another genesis accepted".into());
    let o = NetworkPublicKey::from(NetworkKeypair::generate_ed25519().public());
    r.check(!verify_proof_of_possession_network(&p, &o, &g), "network-pop-key", || "a proof for another network key accepted".into());
    let q = flip(&mut r.rng, &p);
    r.check(!verify_proof_of_possession_network(&q, &pk, &g), "network-pop-proof", || "a changed proof accepted".into());
    // what it signs is this key's message, under the proof-of-possession intent
    let body: Vec<u8> = [n.public().encode_protobuf(), encode(&g)].concat();
    let msg: Vec<u8> = [vec![0u8, 0, 0], encode(&body)].concat();
    r.check(n.public().verify(&msg, &p), "network-pop-message", || "a network proof is not over intent, key and genesis".into());
    let t = serde_json::to_string(&pk).unwrap();
    r.check(t == format!("\"{}\"", bs58::encode(n.public().encode_protobuf()).into_string()) && serde_json::from_str::<NetworkPublicKey>(&t).ok().as_ref() == Some(&pk), "network-key-text", || format!("a network key as text: {t}"));
    r.check(try_decode::<NetworkPublicKey>(&encode(&pk)).ok().as_ref() == Some(&pk), "network-key-bytes", || "a network key as bytes".into());
}
fn serde(r: &mut vx::Rep, k: &BlsKeypair, s: &BlsSignature) {
    let p = *k.public();
    // keys
    let c = p.to_bytes(); let u = p.serialize();
    let (a, b) = (BlsPublicKey::from_literal_bytes(&c), BlsPublicKey::from_literal_bytes(&u));
    r.check(a == Ok(p) && b == Ok(p), "key-literal", || "a key does not read back from its compressed and its uncompressed form".into());
    if let (Ok(a), Ok(b)) = (a, b) {
        r.check(a.cmp(&b).is_eq() && hash(&a) == hash(&b) && a.as_ref() == &c[..] && b.as_ref() == &c[..], "key-identity", || "the same key in two forms is two keys".into());
    }
    let o = *pair(&mut r.rng).public();
    r.check((p == o) == (c == o.to_bytes()) && p.cmp(&o) == c.cmp(&o.to_bytes()) && p.partial_cmp(&o) == Some(c.cmp(&o.to_bytes())), "key-order", || "keys do not compare as their bytes".into());
    r.check(hash(&p) != hash(&o), "key-hash", || "two keys hash alike".into());
    r.check(BlsPublicKey::is_plausible_encoding(&c) && BlsPublicKey::is_plausible_encoding(&u), "key-screen", || "a key's own encoding is screened out".into());
    for cut in [0, 1, 47, 95, 97, 191, 193] { let mut v = u.to_vec(); v.resize(cut, 0); r.check(!BlsPublicKey::is_plausible_encoding(&v) && BlsPublicKey::from_literal_bytes(&v).is_err(), "key-length", || format!("a key of {cut} bytes")); }
    let j = serde_json::to_string(&p).unwrap();
    r.check(j == format!("\"{}\"", bs58::encode(c).into_string()) && p.encode_base58() == bs58::encode(c).into_string() && p.to_string() == p.encode_base58(), "key-text", || format!("a key as text: {j}"));
    r.check(serde_json::from_str::<BlsPublicKey>(&j).ok() == Some(p), "key-text-read", || format!("{j} does not read back"));
    r.check(try_decode::<BlsPublicKey>(&encode(&p)).ok() == Some(p), "key-bytes", || "a key does not read back from its binary form".into());
    let q: BlsPublicKeyBytes = p.into();
    r.check(BlsPublicKey::from(q) == p && BlsPublicKey::from(&q) == p && BlsPublicKeyBytes::from(&p) == q && encode(&q) == encode(&p) && <[u8; 96]>::from(q) == c, "key-as-bytes", || "a key and its bytes disagree".into());
    // a private key
    r.check(BlsKeypair::from_bytes(&k.to_bytes()).map(|z| *z.public()).ok() == Some(p) && *k.copy().public() == p && k.copy().to_bytes() == k.to_bytes(), "keypair", || "a key pair does not read back".into());
    // signatures
    let sb = s.to_bytes();
    r.check(BlsSignature::from_bytes(&sb).ok() == Some(*s) && BlsSignature::from_bytes(&sb[1..]).is_err(), "signature-bytes", || "a signature does not read back".into());
    let j = serde_json::to_string(s).unwrap();
    r.check(j == format!("\"{}\"", bs58::encode(sb).into_string()) && serde_json::from_str::<BlsSignature>(&j).ok() == Some(*s), "signature-text", || format!("a signature as text: {j}"));
    r.check(try_decode::<BlsSignature>(&encode(s)).ok() == Some(*s), "signature-binary", || "a signature does not read back from its binary form".into());
    // reading from data that is not what was written
    for n in [0, 1, 31, 32, 33, 47, 49, 95, 97, 191] {
        let v = r.rng.bytes(n);
        let t = format!("\"{}\"", bs58::encode(&v).into_string());
        r.check(serde_json::from_str::<BlsPublicKey>(&t).is_err() && serde_json::from_str::<BlsSignature>(&t).is_err(), "text-length", || format!("{n} bytes of text read as a key or signature"));
        digest(r, &v);
    }
    let mut z = r.rng.bytes(32); let lead = r.rng.us(33); z[..lead].fill(0); digest(r, &z);
    z.truncate(r.rng.us(32)); digest(r, &z);
}
fn digest(r: &mut vx::Rep, v: &[u8]) {
    let t = format!("\"{}\"", bs58::encode(v).into_string());
    let got = serde_json::from_str::<Digest<32>>(&t).ok().map(|d| d.digest.to_vec());
    r.check(got.as_deref() == if v.len() == 32 { Some(v) } else { None }, "digest-text", || format!("{} bytes of text read as the digest {got:?}", v.len()));
    struct Raw<'a>(&'a [u8]);
    impl serde::Serialize for Raw<'_> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(self.0) } }
    let got = try_decode::<Digest<32>>(&encode(&Raw(v))).ok().map(|d| d.digest.to_vec());
    r.check(got.as_deref() == if v.len() == 32 { Some(v) } else { None }, "digest-bytes", || format!("{} bytes read as the digest {got:?}", v.len()));
    if let Ok(a) = <[u8; 32]>::try_from(v) {
        let d = Digest::new(a);
        let f = Foo::from(a);
        r.check(d.size() == 32 && d.to_vec() == v && d.as_ref() == v && <[u8; 32]>::from(d) == a && d.to_string() == bs58::encode(v).into_string(), "digest", || "a digest is not its bytes".into());
        r.check(B256::from(f).0 == a && Foo::from(B256::from(a)) == f && Digest::<32>::from(f) == d && f.as_ref() == v && encode(&f) == encode(&d), "digest-newtype", || "a digest type is not its bytes".into());
        r.check(serde_json::to_string(&d).unwrap() == t && try_decode::<Foo>(&encode(&f)).ok() == Some(f), "digest-read", || "a digest does not read back".into());
    }
}
fn intents(r: &mut vx::Rep) {
    let scopes = [IntentScope::ProofOfPossession, IntentScope::EpochBoundary, IntentScope::ConsensusDigest, IntentScope::SystemMessage, IntentScope::EpochCloseSeed];
    let mut seen = HashSet::new();
    for (i, sc) in scopes.into_iter().enumerate() {
        for (j, it) in [Intent::telcoin(sc), Intent::consensus(sc)].into_iter().enumerate() {
            r.case(true);
            let b = encode(&it);
            r.check(b == [i as u8, 0, j as u8], "intent-bytes", || format!("intent {i},{j} is {b:?}"));
            r.check(seen.insert(b.clone()), "intent-distinct", || format!("intent {i},{j} is written like another"));
            r.check(format!("0x{}", hex::encode(&b)).parse::<Intent>().ok().as_ref() == Some(&it) && hex::encode(&b).parse::<Intent>().ok().as_ref() == Some(&it), "intent-parse", || format!("intent {i},{j} does not parse back"));
            r.check(try_decode::<Intent>(&b).ok().as_ref() == Some(&it), "intent-read", || format!("intent {i},{j} does not read back"));
        }
    }
    for x in 0..=255u8 {
        r.case(x < 8);
        let s = IntentScope::try_from(x).ok().map(|s| s as u8);
        r.check(s == if x < 5 { Some(x) } else { None }, "scope-u8", || format!("scope {x} reads as {s:?}"));
        let a = AppId::try_from(x).ok().map(|s| s as u8);
        r.check(a == if x < 2 { Some(x) } else { None }, "app-u8", || format!("application {x} reads as {a:?}"));
        let v = IntentVersion::try_from(x).ok().map(|s| s as u8);
        r.check(v == if x < 1 { Some(x) } else { None }, "version-u8", || format!("version {x} reads as {v:?}"));
    }
    for s in ["", "0x", "0x0000", "0x00000000", "zz0000", "0x050000", "0x000100", "0x000002"] { r.check(s.parse::<Intent>().is_err(), "intent-parse", || format!("{s:?} parses as an intent")); }
    r.sample("every intent, every byte as scope, version and application".into());
}
#[derive(Clone)] struct Svc(std::sync::Arc<BlsKeypair>);
impl BlsSigner for Svc {
    fn request_signature_direct(&self, m: &[u8]) -> BlsSignature { self.0.sign(m) }
    fn public_key(&self) -> BlsPublicKey { *self.0.public() }
}
fn main() {
    let mut r = vx::Rep::new();
    intents(&mut r);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
    while r.time_left(1.0) {
        signatures(&mut r);
        let s = Svc(pair(&mut r.rng).into());
        let m = r.rng.bytes(40);
        let got = rt.block_on(async { s.request_signature(m.clone()).await });
        r.check(got == s.request_signature_direct(&m) && got.verify_raw(&m, &s.public_key()), "signer", || "the signing service signs something else".into());
        r.sample(format!("key {}", s.public_key()));
    }
    r.finish()
}
