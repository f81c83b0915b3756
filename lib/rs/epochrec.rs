// epoch records, votes and certificates: the real functions of primary/epoch.rs over a stand-in for BLS
// (a signature is the list of (key, digest of the bytes signed); an aggregate is the sorted list)
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
pub type Epoch = u32;
pub type Round = u32;
pub type EpochDigest = B256;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)] pub struct BlsPublicKey(pub u64);
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)] pub struct BlockNumHash { pub number: u64, pub hash: B256 }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)] pub struct ConsensusNumHash { pub number: u64, pub hash: B256 }
thread_local! { static SIGS: std::cell::RefCell<Vec<Vec<(BlsPublicKey, B256)>>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// what was signed by whom, by its place in a table (signatures are Copy)
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)] pub struct BlsSignature(pub u64);
impl BlsSignature {
    pub fn of(mut v: Vec<(BlsPublicKey, B256)>) -> Self {
        v.sort();
        SIGS.with(|s| { let mut s = s.borrow_mut(); if s.is_empty() { s.push(vec![]); } if let Some(i) = s.iter().position(|x| *x == v) { return BlsSignature(i as u64); } s.push(v); BlsSignature(s.len() as u64 - 1) })
    }
    pub fn parts(&self) -> Vec<(BlsPublicKey, B256)> { SIGS.with(|s| s.borrow().get(self.0 as usize).cloned().unwrap_or_default()) }
    pub fn forget() { SIGS.with(|s| s.borrow_mut().clear()) }
    pub fn verify_raw(&self, m: &[u8], k: &BlsPublicKey) -> bool { self.parts() == vec![(*k, hash_of(m))] }
    pub fn verify_secure<T: Serialize>(&self, m: &IntentMessage<T>, k: &BlsPublicKey) -> bool { self.verify_raw(&encode(m), k) }
}
pub fn hash_of(m: &[u8]) -> B256 { let mut h = DefaultHashFunction::new(); h.update(m); B256::from(*h.finalize().as_bytes()) }
#[derive(Clone, Copy, Debug)] pub struct BlsAggregateSignature(pub BlsSignature);
impl BlsAggregateSignature {
    pub fn aggregate(s: &[BlsSignature], _check: bool) -> Result<Self, String> { if s.is_empty() { return Err("none".into()); } Ok(Self(BlsSignature::of(s.iter().flat_map(|x| x.parts()).collect()))) }
    pub fn to_signature(&self) -> BlsSignature { self.0 }
    pub fn from_signature(s: &BlsSignature) -> Self { Self(*s) }
    pub fn verify_secure<T: Serialize>(&self, m: &IntentMessage<T>, pks: &[BlsPublicKey]) -> bool {
        let h = hash_of(&encode(m)); let mut v: Vec<_> = pks.iter().map(|k| (*k, h)).collect(); v.sort();
        !pks.is_empty() && self.0.parts() == v
    }
}
pub trait BlsSigner { fn request_signature_direct(&self, msg: &[u8]) -> BlsSignature; fn public_key(&self) -> BlsPublicKey; }
#[derive(Clone, Debug)] pub struct Signer(pub BlsPublicKey);
impl BlsSigner for Signer {
    fn request_signature_direct(&self, msg: &[u8]) -> BlsSignature { BlsSignature::of(vec![(self.0, hash_of(msg))]) }
    fn public_key(&self) -> BlsPublicKey { self.0 }
}
pub mod crypto { pub use blake3::Hasher as DefaultHashFunction; }
pub mod intent {
//@module file=crates/types/src/crypto/intent.rs
//@end
}
pub use intent::*;
#[derive(PartialEq, Serialize, Deserialize, Clone, Debug, Default)]
//@item file=crates/types/src/primary/epoch.rs path="struct EpochRecord"
//@end
#[derive(PartialEq, Serialize, Deserialize, Copy, Clone, Debug, Default)]
//@item file=crates/types/src/primary/epoch.rs path="struct EpochVote"
//@end
mod rb {
    pub fn serialize<S: serde::Serializer>(b: &roaring::RoaringBitmap, s: S) -> Result<S::Ok, S::Error> { serde::Serialize::serialize(&b.iter().collect::<Vec<u32>>(), s) }
    pub fn deserialize<'a, D: serde::Deserializer<'a>>(d: D) -> Result<roaring::RoaringBitmap, D::Error> { Ok(<Vec<u32> as serde::Deserialize>::deserialize(d)?.into_iter().collect()) }
}
#[derive(PartialEq, Serialize, Deserialize, Clone, Debug)]
//@item file=crates/types/src/primary/epoch.rs path="struct EpochCertificate"
//@sub /pub signed_authorities:/ => #[serde(with = "rb")] pub signed_authorities:
//@end
impl EpochRecord {
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochRecord :: fn digest"
//@end
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochRecord :: fn sign_vote"
//@end
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochRecord :: fn verify_with_cert"
//@end
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochRecord :: fn super_quorum"
//@end
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochRecord :: fn committee_compatible"
//@end
}
impl EpochVote {
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochVote :: fn check_signature"
//@end
}
impl EpochCertificate {
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochCertificate :: fn check_signatures"
//@end
}
