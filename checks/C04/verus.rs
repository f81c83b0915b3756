// C04: epoch records are trusted only when the committee named before signed them
#![allow(unused_imports, irrefutable_let_patterns)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use std::sync::Arc;
verus! {
//@include lib/verus/result.rs
//@include lib/verus/question.rs
//@include lib/verus/viter.rs
//@include lib/verus/btree.rs
//@include lib/verus/hashmap.rs
//@known Arc RoaringBitmap BlsPublicKey BlsSignature BlockNumHash ConsensusNumHash EpochDigest B256 HashSet BlsAggregateSignature BlsSigner DefaultHashFunction EpochRecordDb EPOCH_VOTE_RECV_TIMEOUT
global size_of usize == 8;
broadcast use {vx_q::ax_question, vx_btree::group_btree, vx_b::ax_asc_u32};
pub type Epoch = u32; pub type Round = u32;
macro_rules! vx_id { ($n:ident) => { verus! {
    #[derive(Clone, Copy)] pub struct $n(pub u64);
    impl vstd::std_specs::cmp::PartialEqSpecImpl for $n { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
} } }
vx_id!(EpochDigest); vx_id!(BlsPublicKey); vx_id!(BlsSignature); vx_id!(BlockNumHash); vx_id!(ConsensusHeaderDigest);
impl ConsensusHeaderDigest { pub fn default() -> (r: Self) ensures r == ConsensusHeaderDigest(0) { ConsensusHeaderDigest(0) } }
#[derive(Clone, Copy)] pub struct ConsensusNumHash { pub number: u64, pub hash: ConsensusHeaderDigest }
impl EpochDigest { pub fn default() -> (r: Self) ensures r == EpochDigest(0) { EpochDigest(0) } }
pub mod vx_b {
use vstd::prelude::*;
use super::*;
/// the bytes of a value (bcs; decided by C18)
pub uninterp spec fn bcs<T>(t: T) -> Seq<u8>;
/// BLAKE3
pub uninterp spec fn h32(b: Seq<u8>) -> EpochDigest;
/// a signature of these bytes under this key (decided by C19)
pub uninterp spec fn sig_ok(s: BlsSignature, m: Seq<u8>, k: BlsPublicKey) -> bool;
pub uninterp spec fn agg(s: Seq<BlsSignature>) -> Option<BlsSignature>;
pub uninterp spec fn agg_ok(s: BlsSignature, m: Seq<u8>, ks: Seq<BlsPublicKey>) -> bool;
/// valid signatures of the same bytes, one per key, aggregate to one that verifies under those keys in any order
pub axiom fn ax_agg(s: Seq<BlsSignature>, m: Seq<u8>, ks: Seq<BlsPublicKey>, ps: Seq<BlsPublicKey>)
    ensures s.len() == ks.len() && s.len() > 0 && ks.no_duplicates() && ps.no_duplicates() && ks.to_set() == ps.to_set() && (forall|i: int| 0 <= i < s.len() ==> sig_ok(#[trigger] s[i], m, ks[i])) ==> agg(s) is Some && agg_ok(agg(s)->0, m, ps);
pub broadcast axiom fn ax_asc_u32(s: Set<u32>) ensures #![trigger sorted_keys(s)] forall|i: int, j: int| 0 <= i < j < sorted_keys(s).len() ==> (#[trigger] sorted_keys(s)[i]) < (#[trigger] sorted_keys(s)[j]);
/// memory: no committee has 2^31 members (a key takes 96 bytes)
pub axiom fn ax_small(r: EpochRecord) ensures r.committee@.len() < 0x8000_0000, r.next_committee@.len() < 0x8000_0000;
pub axiom fn ax_small_set(s: BTreeSet<BlsPublicKey>) ensures s@.len() < 0x8000_0000;
}
pub use vx_b::{bcs, h32, sig_ok, agg, agg_ok};
// ---------------------------------------------------------------- bytes, digests and signatures
#[verifier::external_body]
pub fn encode<T>(t: &T) -> (r: Vec<u8>) ensures r@ == bcs(*t) { unimplemented!() }
pub mod crypto { pub use super::DefaultHashFunction; }
pub struct DefaultHashFunction { pub fed: Ghost<Seq<u8>> }
pub struct Hash { pub h: Ghost<EpochDigest>, pub b: [u8; 32] }
pub struct HashBytes { pub h: Ghost<EpochDigest> }
impl DefaultHashFunction {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.fed@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &Vec<u8>) ensures final(self).fed@ == old(self).fed@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn finalize(&self) -> (r: Hash) ensures r.h@ == h32(self.fed@) { unimplemented!() }
}
impl Hash { #[verifier::external_body] pub fn vx_digest(&self) -> (r: EpochDigest) ensures r == self.h@ { unimplemented!() } }
//@item file=crates/types/src/crypto/intent.rs path="enum IntentVersion"
//@attr
#[derive(Clone, Copy)]
//@end
//@item file=crates/types/src/crypto/intent.rs path="enum AppId"
//@attr
#[derive(Clone, Copy)]
//@end
//@item file=crates/types/src/crypto/intent.rs path="enum IntentScope"
//@attr
#[derive(Clone, Copy)]
//@end
//@item file=crates/types/src/crypto/intent.rs path="struct Intent"
//@attr
#[derive(Clone, Copy)]
//@end
impl Intent {
//@fn file=crates/types/src/crypto/intent.rs path="impl Intent :: fn consensus" ret=r
//@spec
    ensures r == con(scope),
//@end
}
/// the consensus application's intent for a scope
pub open spec fn con(s: IntentScope) -> Intent { Intent { version: IntentVersion::V0, scope: s, app_id: AppId::Consensus } }
//@item file=crates/types/src/crypto/intent.rs path="struct IntentMessage"
//@end
impl<T> IntentMessage<T> {
//@fn file=crates/types/src/crypto/intent.rs path="impl IntentMessage<T> :: fn new" ret=r
//@spec
    ensures r == (IntentMessage { intent, value }),
//@end
}
/// `BlsAggregateSignature` and `BlsSignature`, by the contracts of C19
pub struct BlsAggregateSignature(pub BlsSignature);
pub struct BlstError {}
impl BlsAggregateSignature {
    #[verifier::external_body] pub fn aggregate(v: &Vec<BlsSignature>, check: bool) -> (r: Result<Self, BlstError>) ensures check ==> (match agg(v@) { Some(s) => r is Ok && r->Ok_0.0 == s, None => r is Err }) { unimplemented!() }
    pub fn to_signature(&self) -> (r: BlsSignature) ensures r == self.0 { self.0 }
    pub fn from_signature(s: &BlsSignature) -> (r: Self) ensures r.0 == *s { BlsAggregateSignature(*s) }
    #[verifier::external_body] pub fn verify_secure<T>(&self, m: &IntentMessage<T>, ks: &Vec<BlsPublicKey>) -> (r: bool) ensures r == agg_ok(self.0, bcs(*m), ks@) { unimplemented!() }
}
impl BlsSignature {
    #[verifier::external_body] pub fn verify_raw(&self, m: &Vec<u8>, k: &BlsPublicKey) -> (r: bool) ensures r == sig_ok(*self, m@, *k) { unimplemented!() }
    #[verifier::external_body] pub fn verify_secure<T>(&self, m: &IntentMessage<T>, k: &BlsPublicKey) -> (r: bool) ensures r == sig_ok(*self, bcs(*m), *k) { unimplemented!() }
}
pub trait BlsSigner {
    spec fn key(&self) -> BlsPublicKey;
    fn request_signature_direct(&self, msg: &Vec<u8>) -> (r: BlsSignature) ensures sig_ok(r, msg@, self.key());
    fn public_key(&self) -> (r: BlsPublicKey) ensures r == self.key();
}
/// a compressed set of 32-bit numbers
pub struct RoaringBitmap { pub x: u64 }
pub mod vx_roar { use vstd::prelude::*; use super::*; pub uninterp spec fn bits(b: RoaringBitmap) -> Set<u32>; }
impl View for RoaringBitmap { type V = Set<u32>; open spec fn view(&self) -> Set<u32> { vx_roar::bits(*self) } }
impl RoaringBitmap {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<u32>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, i: u32) -> (r: bool) ensures final(self)@ == old(self)@.insert(i), r == !old(self)@.contains(i), !r ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: VIter<u32>) ensures r@ == sorted_keys(self@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, i: u32) -> (r: bool) ensures r == self@.contains(i) { unimplemented!() }
}
pub mod roaring { pub use super::RoaringBitmap; }
// ---------------------------------------------------------------- records, votes and certificates
//@item file=crates/types/src/primary/epoch.rs path="struct EpochRecord"
//@end
//@item file=crates/types/src/primary/epoch.rs path="struct EpochVote"
//@attr
#[derive(Clone, Copy)]
//@end
//@item file=crates/types/src/primary/epoch.rs path="struct EpochCertificate"
//@end
impl Clone for EpochRecord { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for EpochCertificate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn dig(r: EpochRecord) -> EpochDigest { h32(bcs(r)) }
/// the bytes a member signs for the record with this digest
pub open spec fn msg(d: EpochDigest) -> Seq<u8> { bcs(IntentMessage { intent: con(IntentScope::EpochBoundary), value: d }) }
/// the members at the positions in `bits`, in order
pub open spec fn chosen(ks: Seq<BlsPublicKey>, bits: Set<u32>, n: nat) -> Seq<BlsPublicKey> decreases n {
    if n == 0 { Seq::empty() } else if bits.contains((n - 1) as u32) { chosen(ks, bits, (n - 1) as nat).push(ks[n - 1]) } else { chosen(ks, bits, (n - 1) as nat) }
}
pub open spec fn signers(c: EpochCertificate, ks: Seq<BlsPublicKey>) -> Seq<BlsPublicKey> { chosen(ks, c.signed_authorities@, ks.len()) }
pub open spec fn squorum(n: nat) -> nat { 2 * n / 3 + 1 }
/// the certificate carries the signatures of a super-quorum of the record's committee over its digest
pub open spec fn certified(r: EpochRecord, c: EpochCertificate) -> bool {
    &&& c.epoch_hash == dig(r)
    &&& signers(c, r.committee@).len() >= squorum(r.committee@.len())
    &&& agg_ok(c.signature, msg(dig(r)), signers(c, r.committee@))
}
/// a committee that may follow one announced as `e`: no member twice; the same set, or a part of it with at least four members and two thirds
pub open spec fn follows(c: Seq<BlsPublicKey>, e: Set<BlsPublicKey>) -> bool {
    &&& c.no_duplicates()
    &&& c.to_set() == e || (c.len() < e.len() && c.len() >= 4 && 3 * c.len() >= 2 * e.len() && c.to_set().subset_of(e))
}
/// what is accepted for `epoch` after a record with digest `parent` that announced `next`
pub open spec fn accepts(epoch: Epoch, r: EpochRecord, c: EpochCertificate, parent: EpochDigest, next: Set<BlsPublicKey>) -> bool {
    r.epoch == epoch && r.parent_hash == parent && follows(r.committee@, next) && certified(r, c)
}
impl BTreeSet<BlsPublicKey> { #[verifier::external_body] pub fn vx_same(&self, o: &Self) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
    #[verifier::external_body] pub fn is_subset(&self, o: &Self) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() } }
pub fn vx_cmp(a: usize, b: usize) -> (r: core::cmp::Ordering) ensures r == (if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
impl EpochRecord {
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochRecord :: fn digest" ret=r
//@sub? /\(\*(\w+)\.finalize\(\)\.as_bytes\(\)\)\.into\(\)/ => \1.finalize().vx_digest()
//@head
    proof { assert(Seq::<u8>::empty() + bcs(*self) =~= bcs(*self)); }
//@spec
    ensures r == dig(*self),
//@end
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochRecord :: fn sign_vote" ret=r
//@spec
    ensures r.epoch == self.epoch, r.epoch_hash == dig(*self), r.public_key == signer.key(), sig_ok(r.signature, msg(dig(*self)), signer.key()),
//@end
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochRecord :: fn super_quorum" ret=r
//@head
    proof { vx_b::ax_small(*self); }
//@spec
    ensures r == squorum(self.committee@.len()),
//@end
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochRecord :: fn verify_with_cert" ret=r
//@chain
//@vsub /\.iter\(\)\.collect::<Vec<_>>\(\)/ => .iter().vx_vec()
//@sub? /&(\w+)\[\.\.\]/ => &\1
//@head
    proof { vx_b::ax_small(*self); }
//@forvec 0
//@loop 0 iter=it
    invariant self.committee@.len() < 0x8000_0000, it.seq().len() == self.committee@.len(),
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> it.seq()[i].0 == i && *it.seq()[i].1 == self.committee@[i],
        auth_indexes@ == sorted_keys(cert.signed_authorities@), auth_iter <= auth_indexes@.len(), auth_iter <= it.index(),
        forall|j: int| 0 <= j < auth_iter ==> #[trigger] auth_indexes@[j] < it.index(), forall|j: int| auth_iter <= j < auth_indexes@.len() ==> #[trigger] auth_indexes@[j] >= it.index(),
        vx_col0@ == chosen(self.committee@, cert.signed_authorities@, it.index() as nat), auth_iter == vx_col0@.len(),
//@loophead 0
    proof {
        let b = cert.signed_authorities@; let n = it.index(); let ks = self.committee@;
        assert(chosen(ks, b, (n + 1) as nat) == (if b.contains(n as u32) { chosen(ks, b, n as nat).push(ks[n]) } else { chosen(ks, b, n as nat) }));
        if b.contains(n as u32) { let j = choose|j: int| 0 <= j < auth_indexes@.len() && auth_indexes@[j] == n as u32; assert(auth_indexes@.contains(n as u32)); assert(j >= auth_iter); if j > auth_iter { assert(auth_indexes@[auth_iter as int] < auth_indexes@[j]); } }
        else { if auth_iter < auth_indexes@.len() { assert(auth_indexes@.contains(auth_indexes@[auth_iter as int])); } }
    }
//@spec
    ensures r <==> certified(*self, *cert),
//@end
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochRecord :: fn committee_compatible" ret=r
//@sub? /self\.committee\.len\(\)\.cmp\(&expected\.len\(\)\)/ => vx_cmp(self.committee.len(), expected.len())
//@sub? /&committee == expected/ => committee.vx_same(expected)
//@head
    proof { vx_b::ax_small(*self); vx_b::ax_small_set(*expected); lemma_set(self.committee@); lemma_sub(self.committee@.to_set(), expected@); assert forall|s: Seq<BlsPublicKey>| s.len() == self.committee@.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == self.committee@[i]) implies #[trigger] s.to_set() == self.committee@.to_set() by { assert(s =~= self.committee@); } }
//@spec
    ensures r <==> follows(self.committee@, expected@),
//@end
}
proof fn lemma_set(s: Seq<BlsPublicKey>) ensures s.to_set().len() <= s.len(), s.to_set().len() == s.len() <==> s.no_duplicates() decreases s.len() {
    s.lemma_cardinality_of_set(); if s.no_duplicates() { s.unique_seq_to_set(); } if s.to_set().len() == s.len() { s.lemma_no_dup_set_cardinality(); }
}
proof fn lemma_sub(a: Set<BlsPublicKey>, b: Set<BlsPublicKey>) ensures a.subset_of(b) && a.len() >= b.len() ==> a == b { if a.subset_of(b) && a.len() >= b.len() { vstd::set_lib::lemma_len_subset(a, b); vstd::set_lib::lemma_subset_equality(a, b); } }
impl EpochVote {
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochVote :: fn check_signature" ret=r
//@spec
    ensures r <==> sig_ok(self.signature, msg(self.epoch_hash), self.public_key),
//@end
}
impl EpochCertificate {
//@fn file=crates/types/src/primary/epoch.rs path="impl EpochCertificate :: fn check_signatures" ret=r
//@sub? /signers: &\[BlsPublicKey\]/ => signers: &Vec<BlsPublicKey>
//@spec
    ensures r <==> agg_ok(self.signature, msg(self.epoch_hash), signers@),
//@end
}
// ---------------------------------------------------------------- the store of records (C05) as its clients see it
#[verifier::external_body] pub struct EpochDbError { x: u64 }
#[verifier::external_body] pub struct Error { x: u64 }
#[verifier::external_body] pub fn vx_err() -> Error { unimplemented!() }
/// the database: `held`, a record stored for an epoch; `sure`, an epoch with a record and its certificate stored
pub struct EpochRecordDb { pub x: u64 }
pub mod vx_db { use vstd::prelude::*; use super::*;
pub uninterp spec fn held(d: EpochRecordDb, e: Epoch, r: EpochRecord) -> bool;
pub uninterp spec fn sure(d: EpochRecordDb, e: Epoch) -> bool;
}
pub use vx_db::{held, sure};
/// what the node trusts before epoch `e`: the last record's digest and the committee it announced; for epoch 0 the genesis committee
pub open spec fn anchored(d: EpochRecordDb, e: Epoch, parent: EpochDigest, next: Set<BlsPublicKey>) -> bool {
    if e == 0 { parent == EpochDigest(0) && exists|x: EpochRecord| #[trigger] held(d, 0, x) && next == x.committee@.to_set() }
    else { exists|x: EpochRecord| #[trigger] held(d, (e - 1) as u32, x) && x.epoch == e - 1 && parent == dig(x) && next == x.next_committee@.to_set() }
}
pub open spec fn rightful(d: EpochRecordDb, e: Epoch, r: EpochRecord, c: EpochCertificate) -> bool {
    exists|p: EpochDigest, n: Set<BlsPublicKey>| #[trigger] anchored(d, e, p, n) && accepts(e, r, c, p, n)
}
/// a certificate of some record with this digest
pub open spec fn sealed(g: EpochDigest, c: EpochCertificate) -> bool { exists|r: EpochRecord| #[trigger] dig(r) == g && certified(r, c) }
/// the end of a certified epoch
pub open spec fn closes(e: Epoch, n: u64, h: ConsensusHeaderDigest) -> bool {
    exists|r: EpochRecord, c: EpochCertificate| #[trigger] certified(r, c) && r.epoch == e && r.final_consensus.number == n && r.final_consensus.hash == h
}
pub open spec fn known(d: EpochRecordDb, e: Epoch, s: Set<BlsPublicKey>) -> bool {
    ||| exists|x: EpochRecord| #[trigger] held(d, e, x) && s == x.committee@.to_set()
    ||| e > 0 && exists|x: EpochRecord| #[trigger] held(d, (e - 1) as u32, x) && s == x.next_committee@.to_set()
}
#[verifier::external_body] pub fn vx_into_iter<T>(v: Vec<T>) -> (r: VIter<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_iter<'a, T>(v: &'a [T]) -> (r: VIter<&'a T>) ensures r@.len() == v@.len(), v@.len() <= usize::MAX, forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> *(r@[i]) == v@[i] { unimplemented!() }
//@item file=crates/storage/src/epoch_records.rs path="enum EpochRecordValidation"
//@attr
#[derive(Clone, Copy)]
//@end
//@item file=crates/storage/src/epoch_records.rs path="enum CertifiedRecordError"
//@attr
#[derive(Clone, Copy)]
//@end
impl EpochRecordValidation {
//@fn file=crates/storage/src/epoch_records.rs path="impl EpochRecordValidation :: fn is_valid" ret=r
//@spec
    ensures r <==> self is Valid,
//@end
}
impl CertifiedRecordError {
//@fn file=crates/storage/src/epoch_records.rs path="impl CertifiedRecordError :: fn is_retryable" ret=r
//@spec
    ensures r <==> self is MissingRecord || self is MissingCertificate,
//@end
}
//@fn file=crates/storage/src/epoch_records.rs path="fn epoch_committee_valid" ret=r
//@sub? /std::collections::BTreeSet/ => BTreeSet
//@spec
    ensures r <==> follows(epoch_rec.committee@, committee@),
//@end
//@fn file=crates/storage/src/epoch_records.rs path="fn validate_record_against_anchor" ret=r
//@sub? /std::collections::BTreeSet/ => BTreeSet
//@spec
    ensures r is Valid <==> accepts(epoch, *record, *cert, parent_hash, committee@), r is Valid || r is Invalid,
//@end
pub mod tokio { pub mod time {
use vstd::prelude::*;
pub struct Elapsed { pub x: u64 }
#[verifier::external_body] pub fn timeout<T>(d: Duration, x: T) -> (r: core::result::Result<T, Elapsed>) ensures r matches Ok(y) ==> y == x { unimplemented!() }
#[derive(Clone, Copy)] pub struct Instant { pub t: u64 }
#[derive(Clone, Copy)] pub struct Duration { pub t: u64 }
impl Instant { #[verifier::external_body] pub fn now() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn vx_before(&self, o: Instant) -> (r: bool) { unimplemented!() } }
impl Duration { pub const fn from_millis(x: u64) -> (r: Self) { Duration { t: x } } pub const fn from_secs(x: u64) -> (r: Self) { Duration { t: x } } }
#[verifier::external_body] pub fn sleep(d: Duration) { unimplemented!() }
} }
pub use tokio::time::Duration;
impl Clone for EpochRecordDb { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl EpochRecordDb {
    #[verifier::external_body] pub fn record_by_epoch(&self, epoch: Epoch) -> (r: Option<EpochRecord>) ensures r matches Some(x) ==> held(*self, epoch, x) && x.epoch == epoch { unimplemented!() }
    #[verifier::external_body] pub fn certified_read_record(&self, epoch: Epoch) -> (r: Result<Option<EpochRecord>, CertifiedRecordError>) ensures r matches Ok(Some(x)) ==> held(*self, epoch, x) && x.epoch == epoch { unimplemented!() }
    #[verifier::external_body] pub fn certified_read_cert(&self, epoch: Epoch, digest: EpochDigest) -> (r: Result<Option<EpochCertificate>, CertifiedRecordError>) { unimplemented!() }
    #[verifier::external_body] pub fn get_epoch_by_number(&self, epoch: Epoch) -> (r: Option<(EpochRecord, Option<EpochCertificate>)>)
        ensures r matches Some(p) ==> held(*self, epoch, p.0) && p.0.epoch == epoch && (p.1 matches Some(c) ==> certified(p.0, c) && sure(*self, epoch)) { unimplemented!() }
    #[verifier::external_body] pub fn latest_record(&self) -> (r: Option<EpochRecord>) ensures r matches Some(x) ==> held(*self, x.epoch, x) { unimplemented!() }
    #[verifier::external_body] pub fn cert_by_digest(&self, digest: EpochDigest) -> (r: Option<EpochCertificate>) { unimplemented!() }
    /// a record enters with its certificate only when it follows what is trusted
    #[verifier::external_body] pub fn save(&self, record: EpochRecord, cert: EpochCertificate) -> (r: Result<(), EpochDbError>)
        requires rightful(*self, record.epoch, record, cert) ensures r is Ok ==> sure(*self, record.epoch) { unimplemented!() }
    #[verifier::external_body] pub fn save_certificate(&self, digest: EpochDigest, cert: EpochCertificate) -> (r: Result<(), EpochDbError>) requires sealed(digest, cert) { unimplemented!() }
    #[verifier::external_body] pub fn save_dummy_epoch0(&self, record: EpochRecord) -> (r: Result<(), EpochDbError>) requires record.epoch == 0 ensures r is Ok ==> held(*self, 0, record) { unimplemented!() }
    #[verifier::external_body] pub fn persist(&self) -> (r: Result<(), EpochDbError>) { unimplemented!() }
//@fn file=crates/storage/src/epoch_records.rs path="impl EpochRecordDb :: fn certified_record_by_epoch" ret=r async=drop
//@sub? /\.await\b/ =>
//@desugar opt.ok_or
//@desugar bool.then_some
//@spec
    ensures r matches Ok(x) ==> held(*self, epoch, x) && x.epoch == epoch && exists|c: EpochCertificate| #[trigger] certified(x, c),
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl EpochRecordDb :: fn certified_record_poll" ret=r
//@sub? /Pin<Box<dyn Future<Output = (Result<[^;{]*?>)> \+ Send \+ '_>>/ => \1
//@sub? /\bBox::pin\(async move (\{.*\})\)/ => \1
//@sub? /\.await\b/ =>
//@sub? /outcome\.as_ref\(\)\.err\(\)\.is_some_and\(\|(\w+)\| ([^()]*\(\))\)/ => (match &outcome { Ok(_) => false, Err(\1) => \2 })
//@sub? /tokio::time::Instant::now\(\) < deadline/ => tokio::time::Instant::now().vx_before(deadline)
//@attr
    #[verifier::exec_allows_no_decreases_clause]
//@loop 0
    invariant outcome matches Ok(x) ==> held(*self, epoch, x) && x.epoch == epoch && exists|c: EpochCertificate| #[trigger] certified(x, c),
//@spec
    ensures r matches Ok(x) ==> held(*self, epoch, x) && x.epoch == epoch && exists|c: EpochCertificate| #[trigger] certified(x, c),
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl EpochRecordDb :: fn get_committee_keys" ret=r async=drop
//@sub? /\.await\b/ =>
//@sub? /std::collections::BTreeSet/ => BTreeSet
//@sub? /\b([\w.]+)\s*\.into_iter\(\)/ => vx_into_iter(\1)
//@spec
    ensures r matches Some(s) ==> known(*self, epoch, s@),
//@end
//@fn file=crates/storage/src/epoch_records.rs path="impl EpochRecordDb :: fn validate_downloaded_record" ret=r async=drop
//@sub? /\.await\b/ =>
//@sub? /std::collections::BTreeSet/ => BTreeSet
//@desugar opt.map
//@desugar opt.unwrap_or
//@head
    proof { assert forall|p: EpochDigest, n: Set<BlsPublicKey>| #[trigger] accepts(epoch, *record, *cert, p, n) && anchored(*self, epoch, p, n) implies rightful(*self, epoch, *record, *cert) by { }
    assert forall|s: Seq<BlsPublicKey>, v: EpochRecord| s.len() == v.next_committee@.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == v.next_committee@[i]) implies #[trigger] s.to_set() == v.next_committee@.to_set() && #[trigger] dig(v) == dig(v) by { assert(s =~= v.next_committee@); } }
//@spec
    ensures r is Valid ==> rightful(*self, epoch, *record, *cert),
//@end
}
pub mod vx_hs {
use vstd::prelude::*;
use super::vx_viter::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: core::marker::PhantomData<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
/// `s` lists every element once
pub open spec fn enums<K>(s: Seq<K>, m: Set<K>) -> bool { s.no_duplicates() && s.to_set() == m && forall|k: K| #[trigger] m.contains(k) <==> s.contains(k) }
impl<K> FromSeq<K> for HashSet<K> { open spec fn built(s: Seq<K>, r: Self) -> bool { r@ == s.to_set() } }
impl<K> HashSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<K>::empty() { unimplemented!() }
}
impl<K> Clone for HashSet<K> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
}
pub use vx_hs::HashSet;
// ---------------------------------------------------------------- votes for a record, and its certificate (crates/node epoch_votes.rs)
#[verifier::external_body] pub struct NetErr { x: u64 }
pub struct PrimaryNetworkHandle { pub x: u64 }
impl Clone for PrimaryNetworkHandle { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl PrimaryNetworkHandle {
    /// a peer's answer: anything
    #[verifier::external_body] pub fn request_epoch_cert(&self, epoch: Option<Epoch>, hash: Option<EpochDigest>) -> (r: Result<(EpochRecord, EpochCertificate), NetErr>) { unimplemented!() }
    #[verifier::external_body] pub fn publish_epoch_vote(&self, v: EpochVote) -> (r: Result<(), NetErr>) requires sig_ok(v.signature, msg(v.epoch_hash), v.public_key) { unimplemented!() }
}
pub struct ConsensusChain { pub db: EpochRecordDb }
impl ConsensusChain { pub fn epochs(&self) -> (r: &EpochRecordDb) ensures *r == self.db { &self.db } }
pub struct ConsensusBusApp { pub x: u64 }
impl ConsensusBusApp {
    /// consensus is published only as the end of a certified epoch
    #[verifier::external_body] pub fn publish_consensus_num_hash_if_newer(&self, epoch: Epoch, number: u64, hash: ConsensusHeaderDigest) -> (r: bool) requires closes(epoch, number, hash) { unimplemented!() }
}
//@fn file=crates/node/src/manager/epoch_votes.rs path="fn save_and_persist_with_logs" ret=r async=drop
//@sub? /\.await\b/ =>
//@spec
    requires rightful(*db, epoch_record.epoch, epoch_record, cert),
//@end
pub struct KeyConfig { pub k: BlsPublicKey }
impl KeyConfig { pub fn primary_public_key(&self) -> (r: BlsPublicKey) ensures r == self.k { self.k } }
impl BlsSigner for KeyConfig {
    open spec fn key(&self) -> BlsPublicKey { self.k }
    #[verifier::external_body] fn request_signature_direct(&self, m: &Vec<u8>) -> (r: BlsSignature) { unimplemented!() }
    fn public_key(&self) -> (r: BlsPublicKey) { self.k }
}
#[verifier::external_body] pub fn vx_pick(n: usize) -> (r: usize) ensures r < n { unimplemented!() }
/// how long to wait (any time)
#[verifier::external_body] pub fn vx_wait() -> (r: Duration) { unimplemented!() }
/// votes handed over by the gossip handler, which has verified their signatures
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { x: core::marker::PhantomData<T> }
impl Receiver<EpochVote> { #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<EpochVote>) ensures r matches Some(v) ==> sig_ok(v.signature, msg(v.epoch_hash), v.public_key) { unimplemented!() } }
impl<K, V> FromSeq<(K, V)> for HashMap<K, V> { open spec fn built(s: Seq<(K, V)>, r: Self) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> r@.contains_key((#[trigger] s[i]).0)
    &&& forall|k: K| #[trigger] r@.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, r@[k]) } }
#[verifier::external_body] pub fn vx_entry<'a>(m: &'a mut HashMap<EpochDigest, usize>, k: EpochDigest) -> (r: &'a mut usize)
    ensures *r == (if old(m)@.contains_key(k) { old(m)@[k] } else { 0 }), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
/// one valid signature of `m` per bit, by the member at that position
pub open spec fn tally(s: Seq<BlsSignature>, ix: Seq<u32>, b: Set<u32>, ks: Seq<BlsPublicKey>, m: Seq<u8>) -> bool {
    &&& s.len() == ix.len() && ix.no_duplicates() && ix.to_set() == b
    &&& forall|i: int| 0 <= i < ix.len() ==> (#[trigger] ix[i]) < ks.len() && sig_ok(s[i], m, ks[ix[i] as int])
}
pub open spec fn counted(s: Seq<BlsSignature>, b: Set<u32>, ks: Seq<BlsPublicKey>, m: Seq<u8>) -> bool { exists|ix: Seq<u32>| #[trigger] tally(s, ix, b, ks, m) }
proof fn lemma_counted(s: Seq<BlsSignature>, b: Set<u32>, ks: Seq<BlsPublicKey>, m: Seq<u8>, x: BlsSignature, i: u32)
    requires counted(s, b, ks, m), !b.contains(i), i < ks.len(), sig_ok(x, m, ks[i as int]) ensures counted(s.push(x), b.insert(i), ks, m)
{
    let ix = choose|ix: Seq<u32>| #[trigger] tally(s, ix, b, ks, m);
    let iy = ix.push(i);
    assert forall|j: u32| iy.to_set().contains(j) <==> b.insert(i).contains(j) by {
        assert(iy.to_set().contains(j) <==> iy.contains(j)); assert(ix.to_set().contains(j) <==> ix.contains(j));
        if iy.contains(j) { let q = choose|q: int| 0 <= q < iy.len() && iy[q] == j; if q < ix.len() { assert(ix[q] == j); } }
        if ix.contains(j) { let q = choose|q: int| 0 <= q < ix.len() && ix[q] == j; assert(iy[q] == j); }
        if j == i { assert(iy[ix.len() as int] == i); }
    }
    assert(iy.to_set() =~= b.insert(i));
    assert(iy.no_duplicates()) by { assert(!ix.to_set().contains(i)); assert(!ix.contains(i)); }
    assert(tally(s.push(x), iy, b.insert(i), ks, m));
}
proof fn lemma_chosen(ks: Seq<BlsPublicKey>, b: Set<u32>, n: nat)
    requires n <= ks.len(), ks.len() < 0x8000_0000, ks.no_duplicates()
    ensures chosen(ks, b, n).no_duplicates(), forall|k: BlsPublicKey| #[trigger] chosen(ks, b, n).contains(k) <==> exists|i: int| 0 <= i < n && #[trigger] ks[i] == k && b.contains(i as u32)
    decreases n
{
    if n > 0 {
        lemma_chosen(ks, b, (n - 1) as nat);
        let p = chosen(ks, b, (n - 1) as nat); let q = chosen(ks, b, n);
        if b.contains((n - 1) as u32) {
            if p.contains(ks[n - 1]) { }
            assert forall|k: BlsPublicKey| #[trigger] q.contains(k) <==> p.contains(k) || k == ks[n - 1] by {
                if q.contains(k) { let j = choose|j: int| 0 <= j < q.len() && q[j] == k; if j < p.len() { assert(p[j] == k); } }
                if p.contains(k) { let j = choose|j: int| 0 <= j < p.len() && p[j] == k; assert(q[j] == k); }
                assert(q[p.len() as int] == ks[n - 1]);
            }
        }
        assert forall|k: BlsPublicKey| #[trigger] q.contains(k) <==> exists|i: int| 0 <= i < n && #[trigger] ks[i] == k && b.contains(i as u32) by {
            if exists|i: int| 0 <= i < n && #[trigger] ks[i] == k && b.contains(i as u32) {
                let i = choose|i: int| 0 <= i < n && #[trigger] ks[i] == k && b.contains(i as u32); if i < n - 1 { assert(p.contains(k)); }
            }
        }
    }
}
/// the aggregate of counted signatures verifies under the members at the bits
proof fn lemma_agg(s: Seq<BlsSignature>, b: Set<u32>, ks: Seq<BlsPublicKey>, m: Seq<u8>)
    requires counted(s, b, ks, m), ks.no_duplicates(), ks.len() < 0x8000_0000, b.len() > 0
    ensures agg(s) is Some, agg_ok(agg(s)->0, m, chosen(ks, b, ks.len())), chosen(ks, b, ks.len()).len() == b.len()
{
    let ix = choose|ix: Seq<u32>| #[trigger] tally(s, ix, b, ks, m);
    ix.unique_seq_to_set();
    let us = Seq::new(ix.len(), |i: int| ks[ix[i] as int]);
    let ps = chosen(ks, b, ks.len());
    lemma_chosen(ks, b, ks.len());
    assert(us.no_duplicates());
    assert forall|k: BlsPublicKey| us.contains(k) <==> ps.contains(k) by {
        if us.contains(k) { let j = choose|j: int| 0 <= j < us.len() && us[j] == k; assert(ix.contains(ix[j])); assert(ix.to_set().contains(ix[j])); assert(ks[ix[j] as int] == k); }
        if ps.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k && b.contains(i as u32); assert(ix.to_set().contains(i as u32)); let j = choose|j: int| 0 <= j < ix.len() && ix[j] == i as u32; assert(us[j] == k); }
    }
    assert forall|k: BlsPublicKey| us.to_set().contains(k) <==> ps.to_set().contains(k) by { assert(us.contains(k) <==> us.to_set().contains(k)); assert(ps.contains(k) <==> ps.to_set().contains(k)); }
    assert(us.to_set() =~= ps.to_set());
    ix.unique_seq_to_set(); us.unique_seq_to_set(); ps.unique_seq_to_set();
    vx_b::ax_agg(s, m, us, ps);
}
//@fn file=crates/node/src/manager/epoch_votes.rs path="fn manage_epoch_votes" ret=r async=drop
//@sub? /\.await\b/ =>
//@select
//@sub? /\bEPOCH_VOTE_RECV_TIMEOUT\b/ => vx_wait()
//@sub? /\b(\w+)\.entry\(([\w.]+)\)\.or_default\(\)/ => vx_entry(&mut \1, \2)
//@sub? /&(\w+)\[\.\.\]/ => &\1
//@sub? /([\w.]+) != epoch_hash\b/ => (\1 == epoch_hash) == false
//@clos map.0 (usize, &BlsPublicKey) -> (r: (BlsPublicKey, usize))
    ensures r == (*($0).1, ($0).0)
//@attr
    #[verifier::exec_allows_no_decreases_clause]
//@head
    proof { vx_b::ax_small(epoch_rec); assert forall|s: Seq<BlsPublicKey>| s.len() == epoch_rec.committee@.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == epoch_rec.committee@[i]) implies #[trigger] s.to_set() == epoch_rec.committee@.to_set() by { assert(s =~= epoch_rec.committee@); } lemma_set(epoch_rec.committee@); assert(tally(Seq::empty(), Seq::empty(), Set::empty(), epoch_rec.committee@, msg(dig(epoch_rec)))) by { assert(Seq::<u32>::empty().to_set() =~= Set::<u32>::empty()); } 
      assert forall|s: Seq<BlsSignature>, b: Set<u32>, x: BlsSignature, i: u32| counted(s, b, epoch_rec.committee@, msg(dig(epoch_rec))) && !b.contains(i) && i < epoch_rec.committee@.len() && sig_ok(x, msg(dig(epoch_rec)), epoch_rec.committee@[i as int]) implies counted(#[trigger] s.push(x), #[trigger] b.insert(i), epoch_rec.committee@, msg(dig(epoch_rec))) by { lemma_counted(s, b, epoch_rec.committee@, msg(dig(epoch_rec)), x, i); } }
//@loop 0
    invariant counted(sigs@, signed_authorities@, epoch_rec.committee@, msg(epoch_hash)), epoch_hash == dig(epoch_rec), epoch_rec.committee@.len() < 0x8000_0000,
        quorum == squorum(epoch_rec.committee@.len()), committee_size == epoch_rec.committee@.len(), reached_quorum ==> signed_authorities@.len() >= quorum,
        my_vote matches Some(v) ==> sig_ok(v.signature, msg(v.epoch_hash), v.public_key),
        committee_keys@.len() <= epoch_rec.committee@.len(), forall|k: EpochDigest| #[trigger] alt_recs@.contains_key(k) ==> alt_recs@[k] + committee_keys@.len() <= epoch_rec.committee@.len(),
        forall|k: BlsPublicKey| #[trigger] committee_index@.contains_key(k) ==> committee_index@[k] < epoch_rec.committee@.len() && epoch_rec.committee@[committee_index@[k] as int] == k,
        timeouts <= MAX_EPOCH_VOTE_TIMEOUTS + 1,
//@loophead 0
    proof { assert forall|s: Seq<BlsSignature>, b: Set<u32>, x: BlsSignature, i: u32| counted(s, b, epoch_rec.committee@, msg(epoch_hash)) && !b.contains(i) && i < epoch_rec.committee@.len() && sig_ok(x, msg(epoch_hash), epoch_rec.committee@[i as int]) implies counted(#[trigger] s.push(x), #[trigger] b.insert(i), epoch_rec.committee@, msg(epoch_hash)) by { lemma_counted(s, b, epoch_rec.committee@, msg(epoch_hash), x, i); } }
//@after? /let cert = EpochCertificate[^;]*;/
    proof { if epoch_rec.committee@.no_duplicates() { lemma_agg(sigs@, cert.signed_authorities@, epoch_rec.committee@, msg(epoch_hash)); assert(certified(epoch_rec, cert)); } }
//@loop 1
    invariant epoch_hash == dig(epoch_rec), db == consensus_chain.db,
//@end
pub struct WatchSender { pub x: u64 }
impl WatchSender { #[verifier::external_body] pub fn send_replace(&self, r: Option<EpochRecord>) -> (o: Option<EpochRecord>) { unimplemented!() } }
//@fn file=crates/node/src/manager/epoch_votes.rs path="fn revote_uncertified_epoch_record_on_startup" ret=r async=drop
//@sub? /\.await\b/ =>
//@sub? /watch::Sender<Option<EpochRecord>>/ => WatchSender
//@spec
//@end
// ---------------------------------------------------------------- records asked from peers (crates/state-sync epoch.rs)
//@fn file=crates/state-sync/src/epoch.rs path="fn collect_epoch_records" ret=r async=drop
//@sub? /\.await\b/ =>
//@sub? /\b(for\s+\w+\s+in\s+[\w.]+\.\.)\s*\{/ => \1u32::MAX {
//@sub? /([\w.]+) != ConsensusHeaderDigest::default\(\)/ => (\1 == ConsensusHeaderDigest::default()) == false
//@desugar opt.map
//@desugar opt.unwrap_or
//@forwhile 0
//@attr
    #[verifier::exec_allows_no_decreases_clause]
//@loop 0
    invariant_except_break result_epoch + 1 == vx_i0 || (vx_i0 == last_epoch && result_epoch == last_epoch),
    invariant best_final_consensus matches Some(b) ==> closes(b.0, b.1, b.2), last_epoch <= vx_i0, last_epoch <= result_epoch,
        forall|e: Epoch| last_epoch < e <= result_epoch ==> #[trigger] sure(consensus_chain.db, e),
//@spec
    ensures forall|e: Epoch| last_epoch < e <= r ==> #[trigger] sure(consensus_chain.db, e),
//@end
// ---------------------------------------------------------------- the records of a bundle (crates/telcoin-network-cli db.rs)
/// every record of the bundle, from epoch 0, is certified and follows the one before; the first follows the genesis committee
pub open spec fn chained(rs: Seq<EpochRecord>, gen: Set<BlsPublicKey>, cs: Map<EpochDigest, EpochCertificate>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] cs.contains_key(dig(rs[i])) && accepts(i as u32, rs[i], cs[dig(rs[i])], if i == 0 { EpochDigest(0) } else { dig(rs[i - 1]) }, if i == 0 { gen } else { rs[i - 1].next_committee@.to_set() })
}
pub mod eyre { pub type Result<T> = core::result::Result<T, super::Error>; }
impl BTreeSet<BlsPublicKey> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn vx_slot(n: usize) -> (r: core::result::Result<Epoch, Error>) ensures r matches Ok(e) ==> e == n, r is Err ==> n > u32::MAX { unimplemented!() }
//@fn file=crates/telcoin-network-cli/src/db.rs path="fn reject_non_contiguous_records" ret=r
//@macro eyre => vx_err()
//@sub? /\brecords\s*\.iter\(\)/ => vx_iter(records)
//@sub? /Epoch::try_from\(/ => vx_slot(
//@desugar res.map_err
//@desugar bool.then_some
//@desugar opt.ok_or_else
//@desugar iter.try_for_each
//@forvec 0
//@loop 0 iter=it
    invariant it.seq().len() == records@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> it.seq()[i].0 == i && *it.seq()[i].1 == records@[i],
        forall|i: int| 0 <= i < it.index() ==> #[trigger] records@[i].epoch == i,
//@spec
    ensures r is Ok ==> forall|i: int| 0 <= i < records@.len() ==> #[trigger] records@[i].epoch == i,
//@end
//@fn file=crates/telcoin-network-cli/src/db.rs path="fn verify_record_chain_in_memory" ret=r
//@macro eyre => vx_err()
//@sub? /\brecords\s*\.iter\(\)/ => vx_iter(records)
//@sub? /Epoch::try_from\(/ => vx_slot(
//@desugar res.map_err
//@desugar opt.map_or_else
//@desugar opt.map_or
//@desugar opt.map
//@desugar opt.unwrap_or_else
//@desugar opt.unwrap_or
//@desugar opt.ok_or_else
//@desugar iter.try_fold
//@forvec 0
//@loop 0 iter=it
    invariant it.seq().len() == records@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> it.seq()[i].0 == i && *it.seq()[i].1 == records@[i],
        it.index() == 0 ==> vx_acc is None, it.index() > 0 ==> vx_acc is Some && *vx_acc->0 == records@[it.index() - 1], chained(records@, genesis_keys@, cert_by_hash@, it.index() as int),
//@loophead 0
    proof { assert forall|s: Seq<BlsPublicKey>, v: EpochRecord| s.len() == v.next_committee@.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == v.next_committee@[i]) implies #[trigger] s.to_set() == v.next_committee@.to_set() && #[trigger] dig(v) == dig(v) by { assert(s =~= v.next_committee@); } }
//@loopend 0
    proof { let n = it.index(); assert(chained(records@, genesis_keys@, cert_by_hash@, n as int)); assert(cert_by_hash@.contains_key(dig(records@[n as int]))); assert(chained(records@, genesis_keys@, cert_by_hash@, n + 1)); }
//@spec
    ensures r matches Ok(x) ==> records@.len() > 0 && *x == records@.last() && chained(records@, genesis_keys@, cert_by_hash@, records@.len() as int),
//@end
#[verifier::external_body] pub fn vx_rec() -> (r: EpochRecord) ensures r.epoch == 0 { unimplemented!() }
//@fn file=crates/telcoin-network-cli/src/db.rs path="fn verify_and_save_epoch_records" ret=r async=drop
//@sub? /\.await\b/ =>
//@sub? /std::collections::BTreeSet/ => BTreeSet
//@macro eyre => vx_err()
//@macro bail => return Err(vx_err())
//@sub? /\brecords\s*\.iter\(\)/ => vx_iter(records)
//@sub? /\.\.Default::default\(\)/ => ..vx_rec()
//@desugar res.map_err
//@forvec 0
//@loop 0 iter=it
    invariant it.seq().len() == records@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == records@[i],
        forall|i: int| 0 <= i < it.index() ==> cert_by_hash@.contains_key(dig(#[trigger] records@[i])) && rightful(*db, records@[i].epoch, records@[i], cert_by_hash@[dig(records@[i])]),
//@spec
    ensures r is Ok ==> forall|i: int| 0 <= i < records@.len() ==> cert_by_hash@.contains_key(dig(#[trigger] records@[i])) && rightful(*db, records@[i].epoch, records@[i], cert_by_hash@[dig(records@[i])]),
//@end
} // verus!
fn main() {}
