// assumed contract of the blst crate (min_sig: keys in G2, signatures in G1)
pub mod blst {
    use vstd::prelude::*;
    #[allow(non_camel_case_types)]
    #[derive(Debug, Clone, Copy)]
    pub enum BLST_ERROR { BLST_SUCCESS, BLST_BAD_ENCODING, BLST_POINT_NOT_ON_CURVE, BLST_POINT_NOT_IN_GROUP, BLST_AGGR_TYPE_MISMATCH, BLST_VERIFY_FAIL, BLST_PK_IS_INFINITY, BLST_BAD_SCALAR }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for BLST_ERROR {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &BLST_ERROR) -> bool { *self == *o }
    }
    impl PartialEq for BLST_ERROR { #[verifier::external_body] fn eq(&self, o: &BLST_ERROR) -> bool { unimplemented!() } }
    impl Eq for BLST_ERROR {}
    pub mod min_sig {
        use vstd::prelude::*;
        use super::BLST_ERROR;
        #[verifier::external_body] #[verifier::ext_equal] #[derive(Clone, Copy)] pub struct PublicKey { _p: () }
        #[verifier::external_body] #[verifier::ext_equal] #[derive(Debug)] pub struct SecretKey { _p: () }
        #[verifier::external_body] #[verifier::ext_equal] #[derive(Clone, Copy)] pub struct Signature { _p: () }
        #[verifier::external_body] #[verifier::ext_equal] #[derive(Clone, Copy)] pub struct AggregateSignature { _p: () }
        /// compressed bytes; what reading bytes (compressed or not) gives
        pub uninterp spec fn pkb(k: PublicKey) -> Seq<u8>;
        pub uninterp spec fn pk_read(b: Seq<u8>) -> Option<PublicKey>;
        pub uninterp spec fn sgb(s: Signature) -> Seq<u8>;
        pub uninterp spec fn sg_read(b: Seq<u8>) -> Option<Signature>;
        pub uninterp spec fn skb(k: SecretKey) -> Seq<u8>;
        pub uninterp spec fn sk_read(b: Seq<u8>) -> Option<SecretKey>;
        pub uninterp spec fn sk_gen(ikm: Seq<u8>) -> SecretKey;
        /// on the curve, in the group and not the point at infinity
        pub uninterp spec fn pk_valid(k: PublicKey) -> bool;
        pub uninterp spec fn in_group(s: Signature) -> bool;
        pub uninterp spec fn pk_of(k: SecretKey) -> PublicKey;
        pub uninterp spec fn sig_of(k: SecretKey, m: Seq<u8>, dst: Seq<u8>, aug: Seq<u8>) -> Signature;
        /// the pairing equation
        pub uninterp spec fn pairs(s: Signature, m: Seq<u8>, dst: Seq<u8>, aug: Seq<u8>, k: PublicKey) -> bool;
        pub uninterp spec fn agg_pairs(s: Signature, ms: Seq<Seq<u8>>, dst: Seq<u8>, ks: Seq<PublicKey>) -> bool;
        pub uninterp spec fn to_sig(a: AggregateSignature) -> Signature;
        pub uninterp spec fn of_sig(s: Signature) -> AggregateSignature;
        pub uninterp spec fn sum_of(s: Seq<Signature>) -> AggregateSignature;
        pub broadcast axiom fn ax_pk(k: PublicKey) ensures pk_read(#[trigger] pkb(k)) == Some(k), pkb(k).len() == 96;
        pub broadcast axiom fn ax_sg(s: Signature) ensures sg_read(#[trigger] sgb(s)) == Some(s), sgb(s).len() == 48;
        pub broadcast axiom fn ax_sk(k: SecretKey) ensures sk_read(#[trigger] skb(k)) == Some(k), skb(k).len() == 32;
        pub broadcast axiom fn ax_lens(b: Seq<u8>) ensures (#[trigger] pk_read(b)) is Some ==> b.len() == 96 || b.len() == 192;
        pub broadcast axiom fn ax_sign(k: SecretKey, m: Seq<u8>, dst: Seq<u8>, aug: Seq<u8>)
            ensures pairs(#[trigger] sig_of(k, m, dst, aug), m, dst, aug, pk_of(k)), in_group(sig_of(k, m, dst, aug)), pk_valid(pk_of(k));
        pub broadcast group group_blst { ax_pk, ax_sg, ax_sk, ax_lens, ax_sign }
        /// whatever dereferences to a core key
        pub trait PkLike { spec fn core(&self) -> PublicKey; }
        impl PkLike for PublicKey { open spec fn core(&self) -> PublicKey { *self } }
        pub open spec fn good(gc: bool, s: Signature, m: Seq<u8>, dst: Seq<u8>, aug: Seq<u8>, k: PublicKey, pv: bool) -> bool {
            (gc ==> in_group(s)) && (pv ==> pk_valid(k)) && pairs(s, m, dst, aug, k)
        }
        pub open spec fn agg_good(gc: bool, s: Signature, ms: Seq<Seq<u8>>, dst: Seq<u8>, ks: Seq<PublicKey>, pv: bool) -> bool {
            (gc ==> in_group(s)) && (pv ==> forall|i: int| 0 <= i < ks.len() ==> pk_valid(#[trigger] ks[i])) && agg_pairs(s, ms, dst, ks)
        }
        impl PublicKey {
            #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 96]) ensures r@ == pkb(*self) { unimplemented!() }
            #[verifier::external_body] pub fn compress(&self) -> (r: [u8; 96]) ensures r@ == pkb(*self) { unimplemented!() }
            #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<PublicKey, BLST_ERROR>) ensures (match r { Ok(k) => Some(k), Err(_) => None }) == pk_read(b@) { unimplemented!() }
            #[verifier::external_body] pub fn deserialize(b: &[u8]) -> (r: Result<PublicKey, BLST_ERROR>) ensures (match r { Ok(k) => Some(k), Err(_) => None }) == pk_read(b@) { unimplemented!() }
            #[verifier::external_body] pub fn validate(&self) -> (r: Result<(), BLST_ERROR>) ensures r is Ok == pk_valid(*self) { unimplemented!() }
            #[verifier::external_body] pub fn vx_eq(&self, o: &PublicKey) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
            #[verifier::external_body] pub fn default() -> (r: PublicKey) { unimplemented!() }
        }
        impl SecretKey {
            #[verifier::external_body] pub fn key_gen(ikm: &[u8; 32], info: &[u8; 0]) -> (r: Result<SecretKey, BLST_ERROR>) ensures r == Ok::<_, BLST_ERROR>(sk_gen(ikm@)) { unimplemented!() }
            #[verifier::external_body] pub fn sk_to_pk(&self) -> (r: PublicKey) ensures r == pk_of(*self) { unimplemented!() }
            #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == skb(*self) { unimplemented!() }
            #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<SecretKey, BLST_ERROR>) ensures (match r { Ok(k) => Some(k), Err(_) => None }) == sk_read(b@) { unimplemented!() }
            #[verifier::external_body] pub fn sign(&self, m: &[u8], dst: &[u8], aug: &[u8; 0]) -> (r: Signature) ensures r == sig_of(*self, m@, dst@, Seq::empty()) { unimplemented!() }
        }
        impl Clone for SecretKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
        impl Signature {
            #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 48]) ensures r@ == sgb(*self) { unimplemented!() }
            #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<Signature, BLST_ERROR>) ensures (match r { Ok(k) => Some(k), Err(_) => None }) == sg_read(b@) { unimplemented!() }
            #[verifier::external_body]
            pub fn verify<K: PkLike>(&self, gc: bool, m: &[u8], dst: &[u8], aug: &[u8; 0], k: &K, pv: bool) -> (r: BLST_ERROR)
                ensures (r == BLST_ERROR::BLST_SUCCESS) == good(gc, *self, m@, dst@, Seq::empty(), k.core(), pv) { unimplemented!() }
            #[verifier::external_body]
            pub fn aggregate_verify(&self, gc: bool, ms: &Vec<&[u8]>, dst: &[u8], ks: &Vec<&PublicKey>, pv: bool) -> (r: BLST_ERROR)
                requires ms@.len() == ks@.len(), ks@.len() > 0,
                ensures (r == BLST_ERROR::BLST_SUCCESS) == agg_good(gc, *self, Seq::new(ms@.len(), |i: int| ms@[i]@), dst@, Seq::new(ks@.len(), |i: int| *ks@[i]), pv) { unimplemented!() }
        }
        impl AggregateSignature {
            #[verifier::external_body] pub fn to_signature(&self) -> (r: Signature) ensures r == to_sig(*self) { unimplemented!() }
            #[verifier::external_body] pub fn from_signature(s: &Signature) -> (r: AggregateSignature) ensures r == of_sig(*s) { unimplemented!() }
            #[verifier::external_body]
            pub fn aggregate(s: &Vec<&Signature>, gc: bool) -> (r: Result<AggregateSignature, BLST_ERROR>)
                ensures r matches Ok(a) ==> s@.len() > 0 && a == sum_of(Seq::new(s@.len(), |i: int| *s@[i])) && (gc ==> forall|i: int| 0 <= i < s@.len() ==> in_group(*#[trigger] s@[i])),
                    s@.len() > 0 && (forall|i: int| 0 <= i < s@.len() ==> in_group(*#[trigger] s@[i])) ==> r is Ok { unimplemented!() }
        }
    }
}
pub use blst::min_sig::{pkb, pk_read, sgb, sg_read, skb, sk_read, sk_gen, pk_valid, in_group, pk_of, sig_of, pairs, agg_pairs, to_sig, of_sig, sum_of, good, agg_good, PkLike};
