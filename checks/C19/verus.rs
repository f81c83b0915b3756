// C19: signatures, keys, proofs of possession and digests
#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
verus! {
#[derive(Debug)] pub struct Report { pub e: u64 }
pub type EResult<T> = core::result::Result<T, Report>;
pub fn vx_report() -> Report { Report { e: 0 } }
//@include lib/verus/codecfns.rs
//@include lib/verus/serdeshim.rs
//@include lib/verus/blst.rs
//@include lib/verus/viter.rs
broadcast use {ax_b58, vx_arr::ax_arr96, vx_arr::ax_arr96_of, blst::min_sig::group_blst, vx_cs::ax_bs_ref, vx_cs::ax_ok_ref, vx_cs::ax_im, vx_cs::ax_ok_im};
pub type CorePublicKey = blst::min_sig::PublicKey;
pub type CoreBlsSignature = blst::min_sig::Signature;
pub type CoreBlsAggregateSignature = blst::min_sig::AggregateSignature;
pub type BlsPrivateKey = blst::min_sig::SecretKey;
#[derive(Clone, Copy)] pub struct Address { pub b: [u8; 20] }
impl Address { pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.b@ { &self.b } }
use blst::BLST_ERROR;
/// the ciphersuite tag (its value is compared by the native driver)
pub uninterp spec fn dst() -> Seq<u8>;
#[verifier::external_body] pub exec const DST_G1: &'static [u8] ensures DST_G1@ == dst() { b"" }
// ------------------------------------------------------------------ intents: domain separation
pub mod vx_arr {
    use vstd::prelude::*;
    pub uninterp spec fn arr<const N: usize>(s: Seq<u8>) -> [u8; N];
    pub open spec fn arr96(s: Seq<u8>) -> [u8; 96] { arr::<96>(s) }
    /// every sequence of N bytes is some array, and an array is its bytes
    pub broadcast axiom fn ax_arr96<const N: usize>(s: Seq<u8>) ensures s.len() == N ==> (#[trigger] arr::<N>(s))@ == s;
    pub broadcast axiom fn ax_arr96_of<const N: usize>(a: [u8; N]) ensures arr::<N>(#[trigger] a@) == a;
}
pub use vx_arr::{arr, arr96};
pub mod vx_cs {
    use vstd::prelude::*;
    use super::{bs, bs_ok};
#[derive(Copy, Clone)]
//@item file=crates/types/src/crypto/intent.rs path="enum IntentVersion"
//@end
#[derive(Copy, Clone)]
//@item file=crates/types/src/crypto/intent.rs path="enum AppId"
//@sub? /#\[default\]/ =>
//@end
#[derive(Copy, Clone)]
//@item file=crates/types/src/crypto/intent.rs path="enum IntentScope"
//@end
//@item file=crates/types/src/crypto/intent.rs path="struct Intent"
//@end
//@item file=crates/types/src/crypto/intent.rs path="struct IntentMessage"
//@end
pub open spec fn intent_bytes(i: Intent) -> Seq<u8> { seq![i.scope as u8, i.version as u8, i.app_id as u8] }
    /// a reference is written as what it refers to
    pub broadcast axiom fn ax_bs_ref<T>(v: &T) ensures #[trigger] bs::<&T>(&v) == bs::<T>(v);
    pub broadcast axiom fn ax_ok_ref<T>(v: &T) ensures #[trigger] bs_ok::<&T>(&v) == bs_ok::<T>(v);
    /// derived serialization writes the fields in turn; the three enums are one byte each
    pub broadcast axiom fn ax_im<T>(m: &IntentMessage<T>) ensures #[trigger] bs::<IntentMessage<T>>(m) == intent_bytes(m.intent) + bs::<T>(&m.value);
    pub broadcast axiom fn ax_ok_im<T>(m: &IntentMessage<T>) ensures #[trigger] bs_ok::<IntentMessage<T>>(m) == bs_ok::<T>(&m.value);
    pub broadcast axiom fn ax_i(i: &Intent) ensures #[trigger] bs::<Intent>(i) == intent_bytes(*i);
    pub broadcast axiom fn ax_ok_i(i: &Intent) ensures #[trigger] bs_ok::<Intent>(i);
}
pub use vx_cs::{IntentVersion, AppId, IntentScope, Intent, IntentMessage, intent_bytes};
impl Intent {
//@fn file=crates/types/src/crypto/intent.rs path="impl Intent :: fn telcoin" ret=r
//@spec
    ensures r == (Intent { scope, version: IntentVersion::V0, app_id: AppId::Telcoin }),
//@end
//@fn file=crates/types/src/crypto/intent.rs path="impl Intent :: fn consensus" ret=r
//@spec
    ensures r == (Intent { scope, version: IntentVersion::V0, app_id: AppId::Consensus }),
//@end
}
impl<T> IntentMessage<T> {
//@fn file=crates/types/src/crypto/intent.rs path="impl IntentMessage :: fn new" ret=r
//@spec
    ensures r.intent == intent, r.value == value,
//@end
}
//@fn file=crates/types/src/crypto/mod.rs path="fn to_intent_message" ret=r
//@spec
    ensures r.value == value, r.intent == (Intent { scope: IntentScope::ConsensusDigest, version: IntentVersion::V0, app_id: AppId::Consensus }),
//@end
/// messages of two different intents never have the same bytes, whatever they carry
proof fn domains_apart<A, B>(a: IntentMessage<A>, b: IntentMessage<B>)
    requires bs::<IntentMessage<A>>(&a) == bs::<IntentMessage<B>>(&b),
    ensures a.intent == b.intent, bs::<A>(&a.value) == bs::<B>(&b.value),
{
    let (x, y) = (bs::<IntentMessage<A>>(&a), bs::<IntentMessage<B>>(&b));
    assert(x[0] == a.intent.scope as u8 && y[0] == b.intent.scope as u8);
    assert(x[1] == a.intent.version as u8 && y[1] == b.intent.version as u8);
    assert(x[2] == a.intent.app_id as u8 && y[2] == b.intent.app_id as u8);
    assert(x.skip(3) =~= bs::<A>(&a.value));
    assert(y.skip(3) =~= bs::<B>(&b.value));
}
// ------------------------------------------------------------------ public keys
#[derive(Copy, Clone)] pub struct BlsPublicKeyBytes(pub [u8; 96]);
//@item file=crates/types/src/crypto/bls_public_key.rs path="struct BlsPublicKey"
//@end
impl Copy for BlsPublicKey {}
impl Clone for BlsPublicKey { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl PkLike for BlsPublicKey { open spec fn core(&self) -> CorePublicKey { self.pubkey } }
impl BlsPublicKey {
    /// the cached bytes are the compressed form of the key
    pub open spec fn wf(self) -> bool { self.bytes.0@ == pkb(self.pubkey) }
    // Deref to the core key
    pub fn to_bytes(&self) -> (r: [u8; 96]) ensures r@ == pkb(self.pubkey) { self.pubkey.to_bytes() }
    pub fn validate(&self) -> (r: Result<(), blst::BLST_ERROR>) ensures r is Ok == pk_valid(self.pubkey) { self.pubkey.validate() }
    pub fn deref(&self) -> (r: &CorePublicKey) ensures *r == self.pubkey { &self.pubkey }
}
impl FromSpecImpl<CorePublicKey> for BlsPublicKey { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: CorePublicKey) -> Self { key_of(v) } }
impl From<CorePublicKey> for BlsPublicKey {
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl From<CorePublicKey> for BlsPublicKey :: fn from" ret=r trait
//@tail out
    proof { assert(out.bytes.0@ == pkb(pubkey)); assert(out.bytes.0 =~= arr96(pkb(pubkey))); }
//@spec
    ensures r.pubkey == pubkey, r.wf(),
//@end
}
/// a well-formed key is determined by its bytes: equality, order and hash all see the same thing
proof fn key_identity(a: BlsPublicKey, b: BlsPublicKey)
    requires a.wf(), b.wf(),
    ensures a.pubkey == b.pubkey <==> a.bytes.0@ == b.bytes.0@,
{
    assert(pk_read(pkb(a.pubkey)) == Some(a.pubkey));
    assert(pk_read(pkb(b.pubkey)) == Some(b.pubkey));
}
pub open spec fn key_of(k: CorePublicKey) -> BlsPublicKey { BlsPublicKey { pubkey: k, bytes: BlsPublicKeyBytes(arr96(pkb(k))) } }
/// the one datum for some bytes: base58 text or the bytes themselves
pub open spec fn blob(human: bool, b: Seq<u8>) -> Data { if human { Data::Str(b58(b)) } else { Data::Bytes(b) } }
pub open spec fn is_blob(human: bool, d: Data) -> bool { if human { d is Str } else { d is Bytes } }
pub open spec fn raw(d: Data) -> Option<Seq<u8>> { match d { Data::Str(s) => b58dec(s), Data::Bytes(b) => Some(b), Data::Other => None } }
pub open spec fn bytes_of(k: CorePublicKey) -> BlsPublicKeyBytes { BlsPublicKeyBytes(arr96(pkb(k))) }
impl FromSpecImpl<BlsPublicKey> for BlsPublicKeyBytes { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: BlsPublicKey) -> Self { bytes_of(v.pubkey) } }
impl From<BlsPublicKey> for BlsPublicKeyBytes {
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl From<BlsPublicKey> for BlsPublicKeyBytes :: fn from" trait
//@tail out
    proof { assert(out.0@ == pkb(value.pubkey)); assert(out.0 =~= arr96(pkb(value.pubkey))); }
//@end
}
impl<'a> FromSpecImpl<&'a BlsPublicKey> for BlsPublicKeyBytes { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a BlsPublicKey) -> Self { bytes_of(v.pubkey) } }
impl<'a> From<&'a BlsPublicKey> for BlsPublicKeyBytes {
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl From<&BlsPublicKey> for BlsPublicKeyBytes :: fn from" trait
//@sub? /&BlsPublicKey/ => &'a BlsPublicKey
//@tail out
    proof { assert(out.0@ == pkb(value.pubkey)); assert(out.0 =~= arr96(pkb(value.pubkey))); }
//@end
}
pub struct BlsPublicKeyBytesVisitor;
impl Visitor for BlsPublicKeyBytesVisitor {
    type Value = BlsPublicKeyBytes;
    open spec fn reads(self, d: Data) -> Option<BlsPublicKeyBytes> {
        match raw(d) { Some(b) => match pk_read(b) { Some(k) => Some(bytes_of(k)), None => None }, None => None }
    }
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl Deserialize for BlsPublicKeyBytes :: fn deserialize :: impl Visitor for BlsPublicKeyBytesVisitor :: fn visit_bytes" trait
//@desugar res.map_err
//@end
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl Deserialize for BlsPublicKeyBytes :: fn deserialize :: impl Visitor for BlsPublicKeyBytesVisitor :: fn visit_str" trait
//@desugar res.map_err
//@end
}
impl BlsPublicKeyBytes {
    /// Display
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == b58(self.0@) { unimplemented!() }
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl Serialize for BlsPublicKeyBytes :: fn serialize" ret=r
//@sub? /serde::Serializer/ => Serializer
//@spec
    ensures serializer.wrote(blob(serializer.human(), self.0@), r),
//@end
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl Deserialize for BlsPublicKeyBytes :: fn deserialize" ret=r nested=drop
//@sub? /serde::Deserializer<'de>/ => Deserializer
//@spec
    ensures ok(r) == (if is_blob(deserializer.human(), deserializer.data()) { BlsPublicKeyBytesVisitor.reads(deserializer.data()) } else { None }),
//@end
}
impl BlsPublicKeyBytes { pub open spec fn wf(self) -> bool { exists|k: CorePublicKey| self.0@ == #[trigger] pkb(k) } }
impl BlsPublicKey {
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl BlsPublicKey :: fn encode_base58" ret=r
//@spec
    ensures r@ == b58(pkb(self.pubkey)),
//@end
    /// Display, by way of From<&BlsPublicKey> for BlsPublicKeyBytes
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == b58(pkb(self.pubkey)) { unimplemented!() }
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl Serialize for BlsPublicKey :: fn serialize" ret=r
//@sub? /serde::Serializer/ => Serializer
//@spec
    ensures serializer.wrote(blob(serializer.human(), pkb(self.pubkey)), r),
//@end
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl Deserialize for BlsPublicKey :: fn deserialize" ret=r
//@sub? /serde::Deserializer<'de>/ => Deserializer
//@sub? /Ok\( (BlsPublicKeyBytes::deserialize\(deserializer\)\?) \.into\(\) \)/ => Ok(BlsPublicKey::of_bytes(\1))
//@spec
    ensures
        r matches Ok(k) ==> k.wf() && is_blob(deserializer.human(), deserializer.data()) && Some(k.pubkey) == pk_read(raw(deserializer.data())->0),
        // reads back what was written
        forall|k: BlsPublicKey| k.wf() && deserializer.data() == #[trigger] blob(deserializer.human(), pkb(k.pubkey)) ==> r == Ok::<BlsPublicKey, D::Error>(k),
//@end
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl Default for BlsPublicKey :: fn default" ret=r
//@spec
    ensures r.wf(),
//@end
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl From<BlsPublicKeyBytes> for BlsPublicKey :: fn from" ret=r rename=of_bytes
//@spec
    requires bytes.wf(),
    ensures r.wf(), r.bytes == bytes,
//@end
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl From<&BlsPublicKeyBytes> for BlsPublicKey :: fn from" ret=r rename=of_bytes_ref
//@spec
    requires bytes.wf(),
    ensures r.wf(), r.bytes == *bytes,
//@end
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl AsRef for BlsPublicKey :: fn as_ref" ret=r
//@spec
    ensures r@ == self.bytes.0@,
//@end
    pub const COMPRESSED_BYTES: usize = 96;
    pub const UNCOMPRESSED_BYTES: usize = 192;
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl BlsPublicKey :: fn is_plausible_encoding" ret=r
//@spec
    // never screens out what reading accepts
    ensures pk_read(bytes@) is Some ==> r, r == (bytes@.len() == 96 || bytes@.len() == 192),
//@end
//@fn file=crates/types/src/crypto/bls_public_key.rs path="impl BlsPublicKey :: fn from_literal_bytes" ret=r
//@clos map.0 CorePublicKey -> (o: BlsPublicKey)
    ensures o.pubkey == $0 && o.wf()
//@spec
    ensures r is Ok == pk_read(bytes@) is Some, r matches Ok(k) ==> k.wf() && Some(k.pubkey) == pk_read(bytes@),
//@end
}
// ------------------------------------------------------------------ signatures
#[derive(Clone, Copy)] pub struct BlsSignature(pub CoreBlsSignature);
#[derive(Clone, Copy)] pub struct BlsAggregateSignature(pub CoreBlsAggregateSignature);
impl FromSpecImpl<CoreBlsSignature> for BlsSignature { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: CoreBlsSignature) -> Self { BlsSignature(v) } }
impl From<CoreBlsSignature> for BlsSignature {
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl From<CoreBlsSignature> for BlsSignature :: fn from" ret=r trait
//@spec
    ensures r.0 == value,
//@end
}
pub struct BlsSignatureVisitor;
impl Visitor for BlsSignatureVisitor {
    type Value = BlsSignature;
    open spec fn reads(self, d: Data) -> Option<BlsSignature> {
        match raw(d) { Some(b) => match sg_read(b) { Some(k) => Some(BlsSignature(k)), None => None }, None => None }
    }
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl Deserialize for BlsSignature :: fn deserialize :: impl Visitor for BlsSignatureVisitor :: fn visit_bytes" trait
//@desugar res.map_err
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl Deserialize for BlsSignature :: fn deserialize :: impl Visitor for BlsSignatureVisitor :: fn visit_str" trait
//@desugar res.map_err
//@end
}
impl BlsSignature {
    /// Display
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == b58(sgb(self.0)) { unimplemented!() }
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl Serialize for BlsSignature :: fn serialize" ret=r
//@sub? /serde::Serializer/ => Serializer
//@spec
    ensures serializer.wrote(blob(serializer.human(), sgb(self.0)), r),
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl Deserialize for BlsSignature :: fn deserialize" ret=r nested=drop
//@sub? /serde::Deserializer<'de>/ => Deserializer
//@spec
    ensures
        r matches Ok(k) ==> is_blob(deserializer.human(), deserializer.data()) && Some(k.0) == sg_read(raw(deserializer.data())->0),
        // reads back what was written
        forall|k: BlsSignature| deserializer.data() == #[trigger] blob(deserializer.human(), sgb(k.0)) ==> r == Ok::<BlsSignature, D::Error>(k),
//@end
}
// ------------------------------------------------------------------ digests
//@item file=crates/types/src/crypto/mod.rs path="struct Digest"
//@end
pub struct DigestVisitor<const DIGEST_LEN: usize>;
impl<const DIGEST_LEN: usize> Visitor for DigestVisitor<DIGEST_LEN> {
    type Value = Digest<DIGEST_LEN>;
    /// exactly DIGEST_LEN bytes
    open spec fn reads(self, d: Data) -> Option<Digest<DIGEST_LEN>> {
        match raw(d) { Some(b) => if b.len() == DIGEST_LEN { Some(Digest { digest: arr::<DIGEST_LEN>(b) }) } else { None }, None => None }
    }
//@fn file=crates/types/src/crypto/mod.rs path="impl Deserialize for Digest :: fn deserialize :: impl Visitor for DigestVisitor :: fn visit_bytes" trait
//@sub? /let exp = format!\([^()]*\);/ => let exp = vx_msg();
//@sub? /let e: &str = &exp;/ => let e = &exp;
//@sub? /invalid_length\(v\.len\(\), &e\)/ => invalid_length(v.len(), e)
//@before? /Ok\(Digest/
    proof { assert(digest =~= arr::<DIGEST_LEN>(v@)); }
//@end
//@fn file=crates/types/src/crypto/mod.rs path="impl Deserialize for Digest :: fn deserialize :: impl Visitor for DigestVisitor :: fn visit_str" trait
//@desugar res.map_err
//@end
}
impl<const DIGEST_LEN: usize> Digest<DIGEST_LEN> {
//@fn file=crates/types/src/crypto/mod.rs path="impl Digest :: fn new" ret=r
//@spec
    ensures r.digest == digest,
//@end
//@fn file=crates/types/src/crypto/mod.rs path="impl Digest :: fn size" ret=r
//@spec
    ensures r == DIGEST_LEN,
//@end
//@fn file=crates/types/src/crypto/mod.rs path="impl Serialize for Digest :: fn serialize" ret=r
//@sub? /serde::Serializer/ => Serializer
//@spec
    ensures serializer.wrote(blob(serializer.human(), self.digest@), r),
//@end
//@fn file=crates/types/src/crypto/mod.rs path="impl Deserialize for Digest :: fn deserialize" ret=r nested=drop
//@sub? /serde::Deserializer<'de>/ => Deserializer
//@sub? /\( DigestVisitor \)/ => (DigestVisitor::<DIGEST_LEN>)
//@spec
    ensures
        r matches Ok(k) ==> is_blob(deserializer.human(), deserializer.data()) && Some(k.digest@) == raw(deserializer.data()),
        // reads back what was written
        forall|k: Digest<DIGEST_LEN>| deserializer.data() == #[trigger] blob(deserializer.human(), k.digest@) ==> r == Ok::<Digest<DIGEST_LEN>, D::Error>(k),
//@end
}
pub open spec fn no_aug() -> Seq<u8> { Seq::empty() }
/// every check is made: `s` is in its group, the key is valid, and `s` signs exactly `m` under it
pub open spec fn full(s: BlsSignature, m: Seq<u8>, k: BlsPublicKey) -> bool { good(true, s.0, m, dst(), no_aug(), k.pubkey, true) }
//@item file=crates/types/src/crypto/bls_keypair.rs path="struct BlsKeypair"
//@end
pub trait Signer { spec fn secret(&self) -> BlsPrivateKey; fn sign(&self, msg: &[u8]) -> (r: BlsSignature) ensures r.0 == sig_of(self.secret(), msg@, dst(), no_aug()); }
impl Signer for BlsKeypair {
    open spec fn secret(&self) -> BlsPrivateKey { self.private }
//@fn file=crates/types/src/crypto/bls_keypair.rs path="impl Signer for BlsKeypair :: fn sign" trait
//@end
}
impl Signer for BlsPrivateKey {
    open spec fn secret(&self) -> BlsPrivateKey { *self }
//@fn file=crates/types/src/crypto/bls_keypair.rs path="impl Signer for BlsPrivateKey :: fn sign" trait
//@sub? /self\.sign\(/ => BlsPrivateKey::sign(self,
//@end
}
impl BlsKeypair {
    pub open spec fn wf(self) -> bool { self.public.wf() && self.public.pubkey == pk_of(self.private) }
//@fn file=crates/types/src/crypto/bls_keypair.rs path="impl BlsKeypair :: fn public" ret=r
//@spec
    ensures *r == self.public,
//@end
//@fn file=crates/types/src/crypto/bls_keypair.rs path="impl BlsKeypair :: fn to_bytes" ret=r
//@spec
    ensures r@ == skb(self.private),
//@end
//@fn file=crates/types/src/crypto/bls_keypair.rs path="impl BlsKeypair :: fn from_bytes" ret=r
//@sub? /eyre::Result/ => EResult
//@sub? /eyre::eyre!\([^()]*\)/ => vx_report()
//@desugar res.map_err
//@spec
    ensures r is Ok == sk_read(bytes@) is Some, r matches Ok(k) ==> k.wf() && Some(k.private) == sk_read(bytes@),
//@end
//@fn file=crates/types/src/crypto/bls_keypair.rs path="impl BlsKeypair :: fn copy" ret=r
//@spec
    ensures r.public == self.public, r.private == self.private,
//@end
}
impl BlsSignature {
    // Deref to the core signature
    pub fn verify<K: PkLike>(&self, gc: bool, m: &[u8], d: &[u8], aug: &[u8; 0], k: &K, pv: bool) -> (r: BLST_ERROR)
        ensures (r == BLST_ERROR::BLST_SUCCESS) == good(gc, self.0, m@, d@, no_aug(), k.core(), pv)
    { self.0.verify(gc, m, d, aug, k, pv) }
    pub fn aggregate_verify(&self, gc: bool, ms: &Vec<&[u8]>, d: &[u8], ks: &Vec<&CorePublicKey>, pv: bool) -> (r: BLST_ERROR)
        requires ms@.len() == ks@.len(), ks@.len() > 0,
        ensures (r == BLST_ERROR::BLST_SUCCESS) == agg_good(gc, self.0, Seq::new(ms@.len(), |i: int| ms@[i]@), d@, Seq::new(ks@.len(), |i: int| *ks@[i]), pv)
    { self.0.aggregate_verify(gc, ms, d, ks, pv) }
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl BlsSignature :: fn from_bytes" ret=r
//@sub? /eyre::Result/ => EResult
//@sub? /eyre::eyre!\([^()]*\)/ => vx_report()
//@desugar res.map_err
//@spec
    ensures (match r { Ok(s) => Some(s.0), Err(_) => None }) == sg_read(bytes@),
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl BlsSignature :: fn verify_raw" ret=r
//@spec
    ensures r == full(*self, message@, *public_key),
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl ProtocolSignature for BlsSignature :: fn new_secure" ret=r
//@spec
    requires bs_ok(value),
    ensures r.0 == sig_of(secret.secret(), bs(value), dst(), no_aug()),
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl ProtocolSignature for BlsSignature :: fn new_secure_bytes" ret=r
//@spec
    ensures r.0 == sig_of(secret.secret(), msg@, dst(), no_aug()),
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl ProtocolSignature for BlsSignature :: fn verify_secure" ret=r
//@spec
    requires bs_ok(value),
    ensures r == full(*self, bs(value), *public_key),
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl ProtocolSignature for BlsSignature :: fn verify_secure_bytes" ret=r
//@spec
    // (a caller's bytes; group membership of the signature is not asked for)
    ensures r ==> good(false, self.0, value@, dst(), no_aug(), public_key.pubkey, true), full(*self, value@, *public_key) ==> r,
//@end
}
impl BlsAggregateSignature {
    pub open spec fn sig(self) -> BlsSignature { BlsSignature(to_sig(self.0)) }
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl BlsAggregateSignature :: fn aggregate" ret=r
//@sub? /eyre::Result/ => EResult
//@sub? /eyre::eyre!\([^()]*\)/ => vx_report()
//@sub? /\bsigs\.iter\(\)/ => vx_iter(sigs)
//@desugar res.map_err
//@clos map.0 &BlsSignature -> (o: CoreBlsSignature)
    ensures o == $0.0
//@before? /let sig = /
    proof { assert(Seq::new(sigs@.len(), |i: int| *sigs@[i]) =~= Seq::new(sigs0.len(), |i: int| sigs0[i].0)); }
//@head
    let ghost sigs0 = sigs@;
//@spec
    ensures
        r matches Ok(a) ==> sigs@.len() > 0 && a.0 == sum_of(Seq::new(sigs@.len(), |i: int| sigs@[i].0)) && (sigs_groupcheck ==> forall|i: int| 0 <= i < sigs@.len() ==> in_group((#[trigger] sigs@[i]).0)),
        sigs@.len() > 0 && (forall|i: int| 0 <= i < sigs@.len() ==> in_group((#[trigger] sigs@[i]).0)) ==> r is Ok,
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl BlsAggregateSignature :: fn to_signature" ret=r
//@sub? /to_signature\(self\)/ => to_signature(&self.0)
//@spec
    ensures r == self.sig(),
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl BlsAggregateSignature :: fn from_signature" ret=r
//@spec
    ensures r.0 == of_sig(signature.0),
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="impl ValidatorAggregateSignature for BlsAggregateSignature :: fn verify_secure" ret=r
//@sub? /let mut messages =/ => let mut messages: Vec<&[u8]> =
//@sub? /for (\w+) in pks \{/ => for \1 in vx_slice(pks) {
//@loop 0 iter=it
    invariant
        it.seq().len() == pks@.len(), forall|j: int| 0 <= j < pks@.len() ==> *#[trigger] it.seq()[j] == pks@[j],
        message@ == bs(value),
        pk_s@.len() == it.index(), messages@.len() == it.index(),
        forall|j: int| 0 <= j < it.index() ==> *#[trigger] pk_s@[j] == pks@[j].pubkey,
        forall|j: int| 0 <= j < it.index() ==> (#[trigger] messages@[j])@ == bs(value),
//@afterloop 0
    proof {
        assert(Seq::new(messages@.len(), |i: int| messages@[i]@) =~= Seq::new(pks@.len(), |i: int| bs(value)));
        assert(Seq::new(pk_s@.len(), |i: int| *pk_s@[i]) =~= Seq::new(pks@.len(), |i: int| pks@[i].pubkey));
    }
//@spec
    requires bs_ok(value),
    ensures
        // nobody's signature is no signature
        pks@.len() == 0 ==> !r,
        // group check on the signature, validity of every key, every key signed exactly the message
        pks@.len() > 0 ==> r == agg_good(true, self.sig().0, Seq::new(pks@.len(), |i: int| bs(value)), dst(), Seq::new(pks@.len(), |i: int| pks@[i].pubkey), true),
//@end
}
// ------------------------------------------------------------------ proof of possession
pub open spec fn pop(k: BlsPublicKey, a: Address) -> Seq<u8> { seq![0u8, 0u8, 0u8] + pkb(k.pubkey) + a.b@ }
//@fn file=crates/types/src/crypto/bls_signature.rs path="fn construct_proof_of_possession_message" ret=r
//@head
    broadcast use {vx_cs::ax_i, vx_cs::ax_ok_i};
//@tail out
    proof { assert(intent_bytes(Intent { scope: IntentScope::ProofOfPossession, version: IntentVersion::V0, app_id: AppId::Telcoin }) =~= seq![0u8, 0u8, 0u8]); assert(out@ =~= pop(*bls_pubkey, *address)); }
//@spec
    ensures r@ == pop(*bls_pubkey, *address),
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="fn bls_verify_secure" ret=r
//@spec
    ensures r == full(*signature, message@, *public_key),
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="fn verify_proof_of_possession_bls" ret=r
//@sub? /eyre::Result/ => EResult
//@sub? /eyre::eyre!\([^()]*\)/ => vx_report()
//@desugar res.map_err
//@spec
    ensures r is Ok == full(*proof, pop(*public_key, *address), *public_key),
//@end
//@fn file=crates/types/src/crypto/bls_signature.rs path="fn generate_proof_of_possession_bls_for_test" ret=r
//@sub? /eyre::Result/ => EResult
//@spec
    ensures r matches Ok(s) && s.0 == sig_of(keypair.private, pop(keypair.public, *address), dst(), no_aug()),
//@end
/// a proof made for one key and address is a message for no other
proof fn pop_binds(k: BlsPublicKey, a: Address, l: BlsPublicKey, b: Address)
    requires pop(k, a) == pop(l, b),
    ensures k.pubkey == l.pubkey, a.b@ == b.b@,
{
    let (x, y) = (pop(k, a), pop(l, b));
    assert(x.subrange(3, 99) =~= pkb(k.pubkey) && y.subrange(3, 99) =~= pkb(l.pubkey));
    assert(x.skip(99) =~= a.b@ && y.skip(99) =~= b.b@);
    assert(pk_read(pkb(k.pubkey)) == Some(k.pubkey) && pk_read(pkb(l.pubkey)) == Some(l.pubkey));
}
/// what an honest key signs verifies, directly and as a proof of possession
fn honest(kp: &BlsKeypair, m: &[u8], a: &Address)
    requires kp.wf(),
{
    let s = kp.sign(m);
    let ok = s.verify_raw(m, kp.public());
    assert(ok);
    let p = generate_proof_of_possession_bls_for_test(kp, a);
    let ok = verify_proof_of_possession_bls(p.as_ref().unwrap(), kp.public(), a);
    assert(ok is Ok);
}
// ------------------------------------------------------------------ network keys
pub mod libp2p { pub mod identity {
    use vstd::prelude::*;
    #[verifier::external_body] #[verifier::ext_equal] pub struct PublicKey { _p: () }
    #[verifier::external_body] pub struct Keypair { _p: () }
    #[verifier::external_body] #[derive(Debug)] pub struct DecErr { _p: () }
    pub uninterp spec fn npb(k: PublicKey) -> Seq<u8>;
    pub uninterp spec fn np_read(b: Seq<u8>) -> Option<PublicKey>;
    pub uninterp spec fn np_of(k: Keypair) -> PublicKey;
    pub uninterp spec fn n_signs(k: PublicKey, m: Seq<u8>, s: Seq<u8>) -> bool;
    pub broadcast axiom fn ax_np(k: PublicKey) ensures np_read(#[trigger] npb(k)) == Some(k);
    impl PublicKey {
        #[verifier::external_body] pub fn encode_protobuf(&self) -> (r: Vec<u8>) ensures r@ == npb(*self) { unimplemented!() }
        #[verifier::external_body] pub fn try_decode_protobuf(b: &[u8]) -> (r: Result<PublicKey, DecErr>) ensures (match r { Ok(k) => Some(k), Err(_) => None }) == np_read(b@) { unimplemented!() }
        #[verifier::external_body] pub fn verify(&self, m: &Vec<u8>, s: &Vec<u8>) -> (r: bool) ensures r == n_signs(*self, m@, s@) { unimplemented!() }
    }
    impl Keypair {
        #[verifier::external_body] pub fn public(&self) -> (r: PublicKey) ensures r == np_of(*self) { unimplemented!() }
        /// (an ed25519 key always can)
        #[verifier::external_body] pub fn sign(&self, m: &Vec<u8>) -> (r: Result<Vec<u8>, DecErr>) ensures r matches Ok(s) && n_signs(np_of(*self), m@, s@) { unimplemented!() }
    }
} }
use libp2p::identity::{npb, np_read, np_of, n_signs};
pub type NetworkKeypair = libp2p::identity::Keypair;
pub type NetworkSignature = Vec<u8>;
#[verifier::external_body] pub struct Genesis { _p: () }
pub struct NetworkPublicKey(pub libp2p::identity::PublicKey);
pub struct NetworkPublicKeyVisitor;
impl Visitor for NetworkPublicKeyVisitor {
    type Value = NetworkPublicKey;
    open spec fn reads(self, d: Data) -> Option<NetworkPublicKey> {
        match raw(d) { Some(b) => match np_read(b) { Some(k) => Some(NetworkPublicKey(k)), None => None }, None => None }
    }
//@fn file=crates/types/src/crypto/network.rs path="impl Deserialize for NetworkPublicKey :: fn deserialize :: impl Visitor for NetworkPublicKeyVisitor :: fn visit_bytes" trait
//@desugar res.map_err
//@end
//@fn file=crates/types/src/crypto/network.rs path="impl Deserialize for NetworkPublicKey :: fn deserialize :: impl Visitor for NetworkPublicKeyVisitor :: fn visit_str" trait
//@desugar res.map_err
//@end
}
impl NetworkPublicKey {
    // Deref to the libp2p key
    pub fn encode_protobuf(&self) -> (r: Vec<u8>) ensures r@ == npb(self.0) { self.0.encode_protobuf() }
    pub fn verify(&self, m: &Vec<u8>, s: &Vec<u8>) -> (r: bool) ensures r == n_signs(self.0, m@, s@) { self.0.verify(m, s) }
//@fn file=crates/types/src/crypto/network.rs path="impl Serialize for NetworkPublicKey :: fn serialize" ret=r
//@sub? /serde::Serializer/ => Serializer
//@sub? /&self\.encode_protobuf\(\)\[\.\.\]/ => self.encode_protobuf().as_slice()
//@spec
    ensures serializer.wrote(blob(serializer.human(), npb(self.0)), r),
//@end
//@fn file=crates/types/src/crypto/network.rs path="impl Deserialize for NetworkPublicKey :: fn deserialize" ret=r nested=drop
//@sub? /serde::Deserializer<'de>/ => Deserializer
//@head
    broadcast use libp2p::identity::ax_np;
//@spec
    ensures
        r matches Ok(k) ==> is_blob(deserializer.human(), deserializer.data()) && Some(k.0) == np_read(raw(deserializer.data())->0),
        // reads back what was written
        forall|k: NetworkPublicKey| deserializer.data() == #[trigger] blob(deserializer.human(), npb(k.0)) ==> r == Ok::<NetworkPublicKey, D::Error>(k),
//@end
}
/// what a network proof of possession signs: the key's bytes and the genesis, under the telcoin proof-of-possession intent
pub open spec fn net_pop(m: Seq<u8>, k: libp2p::identity::PublicKey, g: &Genesis) -> bool {
    exists|v: Vec<u8>| v@ == npb(k) + bs::<Genesis>(g) && m == seq![0u8, 0u8, 0u8] + #[trigger] bs::<Vec<u8>>(&v)
}
//@fn file=crates/types/src/crypto/network.rs path="fn generate_proof_of_possession_network" ret=r
//@before? /let message = /
    let ghost m0 = msg;
//@before? /keypair\.sign\(/
    proof {
        assert(intent_bytes(Intent { scope: IntentScope::ProofOfPossession, version: IntentVersion::V0, app_id: AppId::Telcoin }) =~= seq![0u8, 0u8, 0u8]);
        assert(m0@ =~= npb(np_of(*keypair)) + bs::<Genesis>(genesis));
        assert(message@ =~= seq![0u8, 0u8, 0u8] + bs::<Vec<u8>>(&m0));
        assert(net_pop(message@, np_of(*keypair), genesis));
    }
//@spec
    requires bs_ok(genesis), forall|v: Vec<u8>| #[trigger] bs_ok::<Vec<u8>>(&v),
    ensures exists|m: Seq<u8>| #[trigger] n_signs(np_of(*keypair), m, r@) && net_pop(m, np_of(*keypair), genesis),
//@end
//@fn file=crates/types/src/crypto/network.rs path="fn verify_proof_of_possession_network" ret=r
//@before? /let message = /
    let ghost m0 = msg;
//@before? /public_key\.verify\(/
    proof {
        assert(intent_bytes(Intent { scope: IntentScope::ProofOfPossession, version: IntentVersion::V0, app_id: AppId::Telcoin }) =~= seq![0u8, 0u8, 0u8]);
        assert(m0@ =~= npb(public_key.0) + bs::<Genesis>(genesis));
        assert(message@ =~= seq![0u8, 0u8, 0u8] + bs::<Vec<u8>>(&m0));
        assert(net_pop(message@, public_key.0, genesis));
    }
//@spec
    requires bs_ok(genesis), forall|v: Vec<u8>| #[trigger] bs_ok::<Vec<u8>>(&v),
    ensures
        r ==> exists|m: Seq<u8>| #[trigger] n_signs(public_key.0, m, proof@) && net_pop(m, public_key.0, genesis),
        !r ==> exists|m: Seq<u8>| !#[trigger] n_signs(public_key.0, m, proof@) && net_pop(m, public_key.0, genesis),
//@end
#[verifier::external_body] pub fn vx_iter<'a, T>(s: &'a [T]) -> (r: VIter<&'a T>) ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] #![trigger s@[i]] 0 <= i < s@.len() ==> *r@[i] == s@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_slice<'a, T>(s: &'a [T]) -> (r: Vec<&'a T>) ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] #![trigger s@[i]] 0 <= i < s@.len() ==> *r@[i] == s@[i] { unimplemented!() }
fn main() {}
}
