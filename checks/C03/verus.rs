#![feature(allocator_api)]
// C03: the DAG and the commit rule
use vstd::prelude::*;

use std::collections::VecDeque;
verus! {
//@include lib/verus/result.rs
//@include lib/verus/question.rs
//@include lib/verus/viter.rs
//@include lib/verus/btree.rs
//@include lib/verus/hashmap.rs
//@include lib/verus/vecdeque.rs
//@known ROOT_DOMAIN FOLD_DOMAIN Header Certificate Committee ReputationScores LeaderSchedule LeaderSwapTable HashSet EpochSeedChainValue CommittedSubDag Instant Authority B256 BlsSignature
broadcast use {vx_btree::group_btree, ax_digest, vx_q::ax_question};
pub type Round = u32; pub type Epoch = u32; pub type VotingPower = u64; pub type SequenceNumber = u64; pub type TimestampSec = u64;
#[derive(Clone, Copy)] pub struct HeaderDigest(pub u64);
#[derive(Clone, Copy)] pub struct AuthorityIdentifier(pub u64);
impl vstd::std_specs::cmp::PartialEqSpecImpl for HeaderDigest { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0 == o.0 } }
impl PartialEq for HeaderDigest { fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for AuthorityIdentifier { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0 == o.0 } }
impl PartialEq for AuthorityIdentifier { fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
#[derive(Clone, Copy)] pub struct B256(pub u64);
#[derive(Clone, Copy)] pub struct BlsSignature(pub u64);
pub mod vx_hdr {
use vstd::prelude::*;
use super::*;
/// a header, known by its fields (crates/types/src/primary/header.rs)
pub struct Header { pub x: u64 }
pub uninterp spec fn h_round(h: Header) -> Round;
pub uninterp spec fn h_author(h: Header) -> AuthorityIdentifier;
pub uninterp spec fn h_epoch(h: Header) -> Epoch;
pub uninterp spec fn h_time(h: Header) -> u64;
pub uninterp spec fn h_parents(h: Header) -> BTreeSet<HeaderDigest>;
pub uninterp spec fn h_seed(h: Header) -> Option<BlsSignature>;
pub uninterp spec fn h_dig(h: Header) -> HeaderDigest;
/// digests do not collide
pub broadcast axiom fn ax_digest(a: Header, b: Header) ensures #![trigger h_dig(a), h_dig(b)] h_dig(a) == h_dig(b) ==> a == b;
}
pub use vx_hdr::*;
pub open spec fn nonce_of(h: Header) -> u64 { (((h_epoch(h) as u64) << 32) | (h_round(h) as u64)) as u64 }
impl Header {
    #[verifier::external_body] pub fn round(&self) -> (r: Round) ensures r == h_round(*self) { unimplemented!() }
    #[verifier::external_body] pub fn epoch(&self) -> (r: Epoch) ensures r == h_epoch(*self) { unimplemented!() }
    #[verifier::external_body] pub fn author(&self) -> (r: &AuthorityIdentifier) ensures *r == h_author(*self) { unimplemented!() }
    #[verifier::external_body] pub fn created_at(&self) -> (r: &u64) ensures *r == h_time(*self) { unimplemented!() }
    #[verifier::external_body] pub fn parents(&self) -> (r: &BTreeSet<HeaderDigest>) ensures *r == h_parents(*self) { unimplemented!() }
    #[verifier::external_body] pub fn seed_signature(&self) -> (r: Option<&BlsSignature>) ensures (match r { Some(s) => h_seed(*self) == Some(*s), None => h_seed(*self) is None }) { unimplemented!() }
    #[verifier::external_body] pub fn digest(&self) -> (r: HeaderDigest) ensures r == h_dig(*self) { unimplemented!() }
    #[verifier::external_body] pub fn nonce(&self) -> (r: u64) ensures r == nonce_of(*self) { unimplemented!() }
}
pub fn vx_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
/// a header with its signatures
pub struct Certificate { pub header: Header, pub agg: Option<BlsSignature> }
impl Clone for Certificate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Certificate {
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn into_header" ret=r
//@spec
    ensures r == self.header,
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn round" ret=r
//@spec
    ensures r == h_round(self.header),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn epoch" ret=r
//@spec
    ensures r == h_epoch(self.header),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn nonce" ret=r
//@spec
    ensures r == nonce_of(self.header),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn origin" ret=r
//@spec
    ensures *r == h_author(self.header),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl Certificate :: fn header" ret=r
//@spec
    ensures *r == self.header,
//@end
    #[verifier::external_body] pub fn aggregated_signature(&self) -> (r: Option<BlsSignature>) ensures r == self.agg { unimplemented!() }
//@fn file=crates/types/src/primary/certificate.rs path="impl Hash for Certificate :: fn digest" ret=r
//@spec
    ensures r == h_dig(self.header),
//@end
//@fn file=crates/types/src/primary/certificate.rs path="impl PartialEq for Certificate :: fn eq" ret=r rename=same
//@sub? /\b(\w+) &= ([^;]*);/ => \1 = vx_and(\1, \2);
//@spec
    ensures r == (self.header == other.header),
//@end
}

// ---- the DAG
pub type Row = HashMap<AuthorityIdentifier, (HeaderDigest, Certificate)>;
pub type Dag = BTreeMap<Round, Row>;
pub type SDag = Map<Round, Row>;
pub open spec fn has(d: SDag, r: Round, a: AuthorityIdentifier) -> bool { d.contains_key(r) && d[r]@.contains_key(a) }
pub open spec fn at(d: SDag, r: Round, a: AuthorityIdentifier) -> Header { d[r]@[a].1.header }
/// every entry is filed under its own round, author and digest
pub open spec fn dag_wf(d: SDag) -> bool { forall|r: Round, a: AuthorityIdentifier| #[trigger] has(d, r, a) ==> d[r]@[a].0 == h_dig(at(d, r, a)) && h_round(at(d, r, a)) == r && h_author(at(d, r, a)) == a }
pub open spec fn hit(d: SDag, r: int, a: AuthorityIdentifier, g: HeaderDigest) -> bool { 0 <= r <= u32::MAX && has(d, r as Round, a) && h_dig(at(d, r as Round, a)) == g }
/// the header of round `r` with digest `g`
pub open spec fn look(d: SDag, r: int, g: HeaderDigest) -> Option<Header> {
    if exists|a: AuthorityIdentifier| #[trigger] hit(d, r, a, g) { Some(at(d, r as Round, choose|a: AuthorityIdentifier| #[trigger] hit(d, r, a, g))) } else { None }
}
/// every parent above the collected rounds is present
pub open spec fn closed(d: SDag, gc: int) -> bool {
    forall|r: Round, a: AuthorityIdentifier, g: HeaderDigest| #[trigger] has(d, r, a) && r > gc + 1 && #[trigger] h_parents(at(d, r, a))@.contains(g) ==> look(d, r - 1, g) is Some
}
pub proof fn lemma_look(d: SDag, r: Round, a: AuthorityIdentifier)
    requires has(d, r, a),
    ensures look(d, r as int, h_dig(at(d, r, a))) == Some(at(d, r, a)),
{ assert(hit(d, r as int, a, h_dig(at(d, r, a)))); }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: VIter<&'a V>) ensures exists|l: Seq<(K, V)>| #[trigger] lists(l, self@) && l.len() == r@.len() && forall|i: int| #![trigger r@[i]] #![trigger l[i]] 0 <= i < l.len() ==> *(r@[i]) == l[i].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>) ensures exists|l: Seq<(K, V)>| #[trigger] lists(l, self@) && l.len() == r@.len() && forall|i: int| #![trigger r@[i]] #![trigger l[i]] 0 <= i < l.len() ==> *(r@[i].0) == l[i].0 && *(r@[i].1) == l[i].1 { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_or_default(m: &mut Dag, k: Round) -> (r: &mut Row)
    ensures r@ == (if old(m)@.contains_key(k) { old(m)@[k]@ } else { Map::empty() }), final(m)@ == old(m)@.insert(k, *final(r))
{ unimplemented!() }
pub open spec fn row(d: SDag, r: Round) -> Map<AuthorityIdentifier, (HeaderDigest, Certificate)> { if d.contains_key(r) { d[r]@ } else { Map::empty() } }
/// `c` was filed in its place and nothing else changed
pub open spec fn placed(d0: SDag, d1: SDag, c: Certificate) -> bool {
    let r = h_round(c.header);
    &&& d1.contains_key(r) && d1[r]@ == row(d0, r).insert(h_author(c.header), (h_dig(c.header), c))
    &&& forall|q: Round| q != r ==> (#[trigger] d1.contains_key(q) <==> d0.contains_key(q)) && (d0.contains_key(q) ==> d1[q] == d0[q])
}
/// the parents of `h` are there (or collected)
pub open spec fn parents_ok(d: SDag, gc: int, h: Header) -> bool {
    h_round(h) <= gc + 1 || (d.contains_key((h_round(h) - 1) as Round) && forall|g: HeaderDigest| #[trigger] h_parents(h)@.contains(g) ==> look(d, h_round(h) - 1, g) is Some)
}
/// another certificate of the same author and round is there
pub open spec fn clash(d: SDag, h: Header) -> bool { has(d, h_round(h), h_author(h)) && at(d, h_round(h), h_author(h)) != h }
pub open spec fn seen(lc: Map<AuthorityIdentifier, Round>, h: Header) -> bool { lc.contains_key(h_author(h)) && h_round(h) <= lc[h_author(h)] }
pub proof fn lemma_placed(d0: SDag, d1: SDag, c: Certificate, gc: int)
    requires dag_wf(d0), placed(d0, d1, c), h_round(c.header) > gc, !clash(d0, c.header),
    ensures dag_wf(d1), forall|r: int, g: HeaderDigest| look(d0, r, g) is Some ==> #[trigger] look(d1, r, g) == look(d0, r, g),
        closed(d0, gc) && parents_ok(d0, gc, c.header) ==> closed(d1, gc),
{
    let hr = h_round(c.header); let ha = h_author(c.header);
    assert forall|r: Round, a: AuthorityIdentifier| #[trigger] has(d1, r, a) implies d1[r]@[a].0 == h_dig(at(d1, r, a)) && h_round(at(d1, r, a)) == r && h_author(at(d1, r, a)) == a
        && (has(d0, r, a) && at(d1, r, a) == at(d0, r, a) || r == hr && a == ha && at(d1, r, a) == c.header) by {
        assert(d1.contains_key(r));
        if r != hr || a != ha { assert(has(d0, r, a)); }
    }
    assert forall|r: int, g: HeaderDigest| look(d0, r, g) is Some implies #[trigger] look(d1, r, g) == look(d0, r, g) by {
        let a = choose|a: AuthorityIdentifier| #[trigger] hit(d0, r, a, g);
        assert(has(d0, r as Round, a)); assert(d1.contains_key(r as Round));
        assert(hit(d1, r, a, g));
        let b = choose|b: AuthorityIdentifier| #[trigger] hit(d1, r, b, g);
        assert(has(d1, r as Round, b)); ax_digest(at(d0, r as Round, a), at(d1, r as Round, b));
    }
    if closed(d0, gc) && parents_ok(d0, gc, c.header) {
        assert forall|r: Round, a: AuthorityIdentifier, g: HeaderDigest| #[trigger] has(d1, r, a) && r > gc + 1 && #[trigger] h_parents(at(d1, r, a))@.contains(g) implies look(d1, r - 1, g) is Some by {
            if r == hr && a == ha { assert(at(d1, r, a) == c.header); assert(look(d0, r - 1, g) is Some); }
            else { assert(has(d0, r, a)); assert(look(d0, r - 1, g) is Some); }
        }
    }
}
pub proof fn lemma_retained(d0: SDag, d1: SDag, gc0: int, gc1: int)
    requires dag_wf(d0), closed(d0, gc0), gc0 <= gc1, forall|r: Round| #[trigger] d1.contains_key(r) <==> d0.contains_key(r) && r > gc1, forall|r: Round| #[trigger] d1.contains_key(r) ==> d1[r] == d0[r],
    ensures dag_wf(d1), closed(d1, gc1), forall|r: int, g: HeaderDigest| r > gc1 ==> #[trigger] look(d1, r, g) == look(d0, r, g),
{
    assert forall|r: Round, a: AuthorityIdentifier| #[trigger] has(d1, r, a) implies has(d0, r, a) && at(d1, r, a) == at(d0, r, a) && d1[r]@[a].0 == h_dig(at(d1, r, a)) && h_round(at(d1, r, a)) == r && h_author(at(d1, r, a)) == a by { assert(d1.contains_key(r)); assert(has(d0, r, a)); }
    assert forall|r: int, g: HeaderDigest| r > gc1 implies #[trigger] look(d1, r, g) == look(d0, r, g) by {
        let q = r as Round;
        if look(d0, r, g) is Some { let a = choose|a: AuthorityIdentifier| #[trigger] hit(d0, r, a, g); assert(has(d0, q, a)); assert(d1.contains_key(q)); assert(hit(d1, r, a, g)); }
        if look(d1, r, g) is Some { let a = choose|a: AuthorityIdentifier| #[trigger] hit(d1, r, a, g); assert(has(d1, q, a)); assert(hit(d0, r, a, g));
            let b = choose|b: AuthorityIdentifier| #[trigger] hit(d0, r, b, g); assert(has(d0, q, b)); ax_digest(at(d0, q, b), at(d1, q, a)); }
    }
    assert forall|r: Round, a: AuthorityIdentifier, g: HeaderDigest| #[trigger] has(d1, r, a) && r > gc1 + 1 && #[trigger] h_parents(at(d1, r, a))@.contains(g) implies look(d1, r - 1, g) is Some by {
        assert(has(d0, r, a)); assert(look(d0, r - 1, g) is Some);
    }
}
/// the key map keeps exactly the entries `f` accepts
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn retain<F: Fn(&K, &V) -> bool>(&mut self, f: F)
        requires forall|k: K| #[trigger] old(self)@.contains_key(k) ==> f.requires((&k, &old(self)@[k])),
        ensures
            forall|k: K| #[trigger] old(self)@.contains_key(k) ==> f.ensures((&k, &old(self)@[k]), final(self)@.contains_key(k)),
            forall|k: K| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k],
    { unimplemented!() }
}
impl<K> HashMap<K, Round> {
    #[verifier::external_body]
    pub fn vx_get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut Round>)
        ensures (match r { Some(x) => old(self)@.contains_key(*k) && *x == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(x)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }) { unimplemented!() }
}
pub trait VxUod<T> { spec fn vx_d(self) -> T; fn vx_uod(self) -> (r: T) ensures r == self.vx_d(); }
impl VxUod<Round> for Option<Round> { open spec fn vx_d(self) -> Round { match self { Some(x) => x, None => 0 } } fn vx_uod(self) -> (r: Round) { match self { Some(x) => x, None => 0 } } }
impl VxUod<u64> for Option<u64> { open spec fn vx_d(self) -> u64 { match self { Some(x) => x, None => 0 } } fn vx_uod(self) -> (r: u64) { match self { Some(x) => x, None => 0 } } }
impl VxUod<HeaderDigest> for Option<HeaderDigest> { open spec fn vx_d(self) -> HeaderDigest { match self { Some(x) => x, None => HeaderDigest(0) } } fn vx_uod(self) -> (r: HeaderDigest) { match self { Some(x) => x, None => HeaderDigest(0) } } }
pub struct StoreError { pub x: u64 }
//@item file=crates/types/src/primary/seed_chain.rs path="enum EpochSeedChainError"
//@end
//@item file=crates/consensus/primary/src/consensus/mod.rs path="enum ConsensusError"
//@end
//@item file=crates/consensus/primary/src/consensus/mod.rs path="enum ConsensusInvariant"
//@end
//@item file=crates/consensus/primary/src/consensus/mod.rs path="enum Outcome"
//@end
//@item file=crates/consensus/primary/src/consensus/state.rs path="struct ConsensusRound"
//@end
use std::sync::Arc;
//@item file=crates/types/src/primary/seed_chain.rs path="struct EpochSeedChainValue"
//@end
impl Clone for EpochSeedChainValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for EpochSeedChainValue {}
//@item file=crates/types/src/primary/reputation.rs path="struct ReputationScores"
//@end
impl Clone for ReputationScores { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item file=crates/types/src/primary/output.rs path="struct CommittedSubDagInner"
//@end
//@item file=crates/types/src/primary/output.rs path="struct CommittedSubDag"
//@end
impl Clone for CommittedSubDag { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item file=crates/consensus/primary/src/consensus/state.rs path="struct ConsensusState"
//@end
pub fn max(a: Round, b: Round) -> (r: Round) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub open spec fn sat(a: int, b: int) -> int { if a >= b { a - b } else { 0 } }
//@fn file=crates/consensus/primary/src/consensus/utils.rs path="fn gc_round" ret=r
//@spec
    ensures r == sat(commit_round as int, gc_depth as int),
//@end
impl ConsensusRound {
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusRound :: fn new_with_gc_depth" ret=r
//@spec
    ensures r.committed_round == committed_round, r.gc_round == sat(committed_round as int, gc_depth as int),
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusRound :: fn update" ret=r
//@spec
    ensures r.committed_round == (if self.committed_round >= new_committed_round { self.committed_round } else { new_committed_round }), r.gc_round == sat(r.committed_round as int, gc_depth as int),
//@end
}
impl ConsensusState {
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn check_parents" ret=r
//@sub? /BTreeSet<&HeaderDigest>/ => BTreeSet<HeaderDigest>
//@sub? /in certificate\.header\(\)\.parents\(\)/ => in certificate.header().parents().iter()
//@sub? /\| digest\)(\s*)\.collect/ => | *digest)\1.collect
//@clos map.0 (&AuthorityIdentifier, &(HeaderDigest, Certificate)) -> (r: HeaderDigest)
    ensures r == ($0.1).0
//@forvec 0
//@loop 0 iter=it
    invariant
        dag_wf(dag@), round == h_round(certificate.header), round > gc_round + 1, dag@.contains_key((round - 1) as Round),
        it.seq().len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> *(#[trigger] it.seq()[i]) == ps[i],
        ps == sorted_keys(h_parents(certificate.header)@),
        forall|g: HeaderDigest| #[trigger] store_parents@.contains(g) <==> look(dag@, round - 1, g) is Some,
        forall|i: int| 0 <= i < it.index() ==> look(dag@, round - 1, #[trigger] ps[i]) is Some,
//@beforeloop 0
    let ghost ps = sorted_keys(h_parents(certificate.header)@);
    proof {
        let rr = (round - 1) as Round;
        assert forall|a: AuthorityIdentifier| #[trigger] round_table@.contains_key(a) implies hit(dag@, round - 1, a, round_table@[a].0) by { assert(has(dag@, rr, a)); }
        assert forall|g: HeaderDigest| #[trigger] store_parents@.contains(g) <==> look(dag@, round - 1, g) is Some by {
            if look(dag@, round - 1, g) is Some { let a = choose|a: AuthorityIdentifier| #[trigger] hit(dag@, round - 1, a, g); assert(has(dag@, rr, a)); assert(round_table@.contains_key(a)); assert(round_table@[a].0 == g); }
        }
    }
//@afterloop 0
    proof { assert forall|g: HeaderDigest| #[trigger] h_parents(certificate.header)@.contains(g) implies look(dag@, h_round(certificate.header) - 1, g) is Some by { assert(ps.contains(g)); } }
//@spec
    requires dag_wf(dag@), h_round(certificate.header) > gc_round,
    ensures r is Ok <==> (h_round(certificate.header) <= gc_round + 1 || (dag@.contains_key((h_round(certificate.header) - 1) as Round) && forall|g: HeaderDigest| #[trigger] h_parents(certificate.header)@.contains(g) ==> look(dag@, h_round(certificate.header) - 1, g) is Some)),
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn try_insert_in_dag" ret=r
//@sub? /\b(\w+)\s*\.entry\(((?:[^()]|\([^()]*\))*)\)\s*\.or_default\(\)/ => vx_or_default(\1, \2)
//@sub? /\.unwrap_or_default\(\)/ => .vx_uod()
//@spec
    requires dag_wf(old(dag)@),
    ensures
        h_round(certificate.header) <= gc_round ==> r == Ok::<bool, ConsensusError>(false) && final(dag)@ == old(dag)@,
        h_round(certificate.header) > gc_round && check_parents && !parents_ok(old(dag)@, gc_round as int, certificate.header) ==> r is Err && final(dag)@ == old(dag)@,
        h_round(certificate.header) > gc_round && (check_parents ==> parents_ok(old(dag)@, gc_round as int, certificate.header)) ==> {
            &&& placed(old(dag)@, final(dag)@, *certificate)
            &&& r is Err <==> clash(old(dag)@, certificate.header)
            // (round 0 is never above a collected round)
            &&& r matches Ok(b) ==> b == !seen(last_committed@, certificate.header)
        },
//@head
    let ghost d0 = dag@;
//@tail vx_r
    proof {
        if h_round(certificate.header) > gc_round && has(d0, h_round(certificate.header), h_author(certificate.header)) { ax_digest(at(d0, h_round(certificate.header), h_author(certificate.header)), certificate.header); }
    }
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn try_insert" ret=r
//@spec
    requires old(self).wf(),
    ensures
        final(self).last_round == old(self).last_round, final(self).gc_depth == old(self).gc_depth, final(self).last_committed == old(self).last_committed,
        final(self).last_committed_sub_dag == old(self).last_committed_sub_dag, final(self).seed_chain == old(self).seed_chain,
        match r {
            Ok(b) => final(self).wf() && (forall|c: Committee| #[trigger] rows_ok(old(self).dag@, c) && members(c).contains(h_author(certificate.header)) ==> rows_ok(final(self).dag@, c)) && (h_round(certificate.header) <= old(self).last_round.gc_round ==> !b && final(self).dag@ == old(self).dag@)
                && (h_round(certificate.header) > old(self).last_round.gc_round ==> b == !seen(old(self).last_committed@, certificate.header) && placed(old(self).dag@, final(self).dag@, *certificate)
                    && parents_ok(old(self).dag@, old(self).last_round.gc_round as int, certificate.header) && !clash(old(self).dag@, certificate.header)),
            Err(_) => h_round(certificate.header) > old(self).last_round.gc_round && (!parents_ok(old(self).dag@, old(self).last_round.gc_round as int, certificate.header) || clash(old(self).dag@, certificate.header)),
        },
//@tail vx_r
    proof { if vx_r is Ok && h_round(certificate.header) > old(self).last_round.gc_round { lemma_placed(old(self).dag@, self.dag@, *certificate, old(self).last_round.gc_round as int);
        assert forall|r: Round| #[trigger] self.dag@.contains_key(r) implies r > self.last_round.gc_round by { }
        assert forall|c: Committee| #[trigger] rows_ok(old(self).dag@, c) && members(c).contains(h_author(certificate.header)) implies rows_ok(self.dag@, c) by { assert forall|q: Round, x: AuthorityIdentifier| #[trigger] has(self.dag@, q, x) implies members(c).contains(x) by { if q != h_round(certificate.header) || x != h_author(certificate.header) { assert(self.dag@.contains_key(q)); assert(has(old(self).dag@, q, x)); } } } } }
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn update"
//@sub? /self\s*\.last_committed\s*\.entry\(((?:[^()]|\([^()]*\))*)\)\s*\.and_modify\(\|r\| ((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)\s*\.or_insert_with\(\|\| ((?:[^()]|\([^()]*\))*)\);/ => { let vx_k = \1; match self.last_committed.vx_get_mut(&vx_k) { Some(r) => { \2; } None => { self.last_committed.insert(vx_k, \3); } } }
//@clos retain.0 &Round ; &Row -> (b: bool)
    ensures b == (*$0 > self.last_round.gc_round)
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).gc_depth == old(self).gc_depth, final(self).last_committed_sub_dag == old(self).last_committed_sub_dag, final(self).seed_chain == old(self).seed_chain,
        final(self).last_committed@ == noted(old(self).last_committed@, certificate.header),
        final(self).last_round.committed_round == (if old(self).last_round.committed_round >= h_round(certificate.header) { old(self).last_round.committed_round } else { h_round(certificate.header) }),
        forall|r: Round| #[trigger] final(self).dag@.contains_key(r) <==> old(self).dag@.contains_key(r) && r > final(self).last_round.gc_round,
        forall|r: Round| #[trigger] final(self).dag@.contains_key(r) ==> final(self).dag@[r] == old(self).dag@[r],
//@foot
    proof { lemma_retained(old(self).dag@, self.dag@, old(self).gc(), self.gc()); }
//@end
}
/// the last committed round per author, after `h`
pub open spec fn noted(lc: Map<AuthorityIdentifier, Round>, h: Header) -> Map<AuthorityIdentifier, Round> {
    lc.insert(h_author(h), if lc.contains_key(h_author(h)) && lc[h_author(h)] >= h_round(h) { lc[h_author(h)] } else { h_round(h) })
}
impl ConsensusState {
    pub open spec fn gc(self) -> int { self.last_round.gc_round as int }
    pub open spec fn wf(self) -> bool {
        &&& dag_wf(self.dag@) && closed(self.dag@, self.gc())
        &&& self.gc() == sat(self.last_round.committed_round as int, self.gc_depth as int)
        &&& forall|r: Round| #[trigger] self.dag@.contains_key(r) ==> r > self.last_round.gc_round
        &&& forall|a: AuthorityIdentifier| #[trigger] self.last_committed@.contains_key(a) ==> self.last_committed@[a] <= self.last_round.committed_round
    }
}

// ---- flattening the causal history of a leader
pub struct D { pub buf: Seq<Header>, pub done: Set<HeaderDigest>, pub out: Seq<Header> }
pub type Lc = Map<AuthorityIdentifier, Round>;
/// push the parent with digest `g` unless it was pushed or its author committed that far
pub open spec fn visit1(d: SDag, lc: Lc, r: int, s: D, g: HeaderDigest) -> D {
    match look(d, r - 1, g) {
        None => s,
        Some(h) => if s.done.contains(g) || seen(lc, h) { s } else { D { buf: s.buf.push(h), done: s.done.insert(g), out: s.out } },
    }
}
pub open spec fn visit(d: SDag, lc: Lc, r: int, s: D, ps: Seq<HeaderDigest>, n: int) -> D decreases n {
    if n <= 0 { s } else { visit1(d, lc, r, visit(d, lc, r, s, ps, n - 1), ps[n - 1]) }
}
pub open spec fn popped(s: D) -> D { D { buf: s.buf.drop_last(), done: s.done, out: s.out.push(s.buf.last()) } }
pub open spec fn parents_of(h: Header) -> Seq<HeaderDigest> { sorted_keys(h_parents(h)@) }
/// take the last one pushed; go to its parents (in digest order) unless they are collected
pub open spec fn step(d: SDag, lc: Lc, gc: int, s: D) -> D {
    if s.buf.len() == 0 { s } else {
        let x = s.buf.last();
        if h_round(x) == gc + 1 { popped(s) } else { visit(d, lc, h_round(x) as int, popped(s), parents_of(x), parents_of(x).len() as int) }
    }
}
pub open spec fn run(d: SDag, lc: Lc, gc: int, s: D, n: nat) -> D decreases n { if n == 0 { s } else { step(d, lc, gc, run(d, lc, gc, s, (n - 1) as nat)) } }
pub open spec fn start(l: Header) -> D { D { buf: seq![l], done: Set::empty(), out: Seq::empty() } }
pub open spec fn ends(d: SDag, lc: Lc, gc: int, l: Header, n: nat) -> bool { run(d, lc, gc, start(l), n).buf.len() == 0 }
pub open spec fn finite(d: SDag, lc: Lc, gc: int, l: Header) -> bool { exists|n: nat| ends(d, lc, gc, l, n) }
/// the headers a leader commits, in visiting order
pub open spec fn flat(d: SDag, lc: Lc, gc: int, l: Header) -> Seq<Header> { run(d, lc, gc, start(l), choose|n: nat| ends(d, lc, gc, l, n)).out }
pub proof fn lemma_flat(d: SDag, lc: Lc, gc: int, l: Header, n: nat)
    requires ends(d, lc, gc, l, n),
    ensures flat(d, lc, gc, l) == run(d, lc, gc, start(l), n).out,
{
    let m = choose|n: nat| ends(d, lc, gc, l, n);
    assert(ends(d, lc, gc, l, m));
    if m <= n { lemma_stuck(d, lc, gc, l, m, n); } else { lemma_stuck(d, lc, gc, l, n, m); }
}
proof fn lemma_stuck(d: SDag, lc: Lc, gc: int, l: Header, m: nat, n: nat)
    requires m <= n, ends(d, lc, gc, l, m),
    ensures run(d, lc, gc, start(l), n) == run(d, lc, gc, start(l), m),
    decreases n,
{ if m < n { lemma_stuck(d, lc, gc, l, m, (n - 1) as nat); } }
/// what a queued or visited header other than the leader is
pub open spec fn queued(d: SDag, lc: Lc, gc: int, l: Header, done: Set<HeaderDigest>, h: Header) -> bool {
    done.contains(h_dig(h)) && look(d, h_round(h) as int, h_dig(h)) == Some(h) && gc < h_round(h) < h_round(l) && !seen(lc, h)
}
/// a parent that is neither listed nor committed nor collected
pub open spec fn covered(d: SDag, lc: Lc, done: Set<HeaderDigest>, h: Header, g: HeaderDigest) -> bool {
    look(d, h_round(h) - 1, g) matches Some(p) && (seen(lc, p) || done.contains(g))
}
pub open spec fn all_of(s: D) -> Seq<Header> { s.out + s.buf }
pub open spec fn good(d: SDag, lc: Lc, gc: int, l: Header, s: D) -> bool {
    let a = all_of(s);
    &&& a.len() >= 1 && a[0] == l && (s.out.len() == 0 ==> s.buf.len() == 1)
    &&& forall|i: int| 1 <= i < a.len() ==> #[trigger] queued(d, lc, gc, l, s.done, a[i])
    &&& forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() ==> h_dig(a[i]) != h_dig(a[j])
    &&& forall|g: HeaderDigest| #[trigger] s.done.contains(g) ==> exists|i: int| 1 <= i < a.len() && h_dig(#[trigger] a[i]) == g
}
/// every parent of a visited header is listed, committed or collected
pub open spec fn shut(d: SDag, lc: Lc, gc: int, s: D) -> bool {
    forall|i: int, g: HeaderDigest| #![trigger s.out[i], h_parents(s.out[i])@.contains(g)] 0 <= i < s.out.len() && h_round(s.out[i]) > gc + 1 && h_parents(s.out[i])@.contains(g) ==> covered(d, lc, s.done, s.out[i], g)
}
pub proof fn lemma_look_is(d: SDag, r: int, g: HeaderDigest)
    requires dag_wf(d), look(d, r, g) is Some,
    ensures h_dig(look(d, r, g)->0) == g, h_round(look(d, r, g)->0) == r, has(d, r as Round, h_author(look(d, r, g)->0)), at(d, r as Round, h_author(look(d, r, g)->0)) == look(d, r, g)->0,
{ let a = choose|a: AuthorityIdentifier| #[trigger] hit(d, r, a, g); assert(has(d, r as Round, a)); }
/// two DAGs that both have a digest have the same header
pub proof fn lemma_look_same(d1: SDag, d2: SDag, r: int, g: HeaderDigest)
    requires dag_wf(d1), dag_wf(d2), look(d1, r, g) is Some, look(d2, r, g) is Some,
    ensures look(d1, r, g) == look(d2, r, g),
{ lemma_look_is(d1, r, g); lemma_look_is(d2, r, g); ax_digest(look(d1, r, g)->0, look(d2, r, g)->0); }
proof fn lemma_visit1(d: SDag, lc: Lc, gc: int, l: Header, s: D, r: int, g: HeaderDigest)
    requires dag_wf(d), good(d, lc, gc, l, s), s.out.len() > 0, gc + 1 < r <= h_round(l), gc >= 0,
    ensures ({ let t = visit1(d, lc, r, s, g); good(d, lc, gc, l, t) && t.out == s.out && s.done.subset_of(t.done) && (look(d, r - 1, g) matches Some(p) ==> seen(lc, p) || t.done.contains(g)) }),
{
    let t = visit1(d, lc, r, s, g);
    if look(d, r - 1, g) is Some && !s.done.contains(g) && !seen(lc, look(d, r - 1, g)->0) {
        lemma_look_is(d, r - 1, g);
        let h = look(d, r - 1, g)->0; let a = all_of(s); let b = all_of(t);
        assert(b =~= a.push(h));
        assert forall|i: int| 1 <= i < b.len() implies #[trigger] queued(d, lc, gc, l, t.done, b[i]) by { if i < a.len() { assert(queued(d, lc, gc, l, s.done, a[i])); } }
        assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies h_dig(b[i]) != h_dig(b[j]) by {
            if j == a.len() { if i == 0 { ax_digest(l, h); } else { assert(queued(d, lc, gc, l, s.done, a[i])); } }
            else { assert(h_dig(a[i]) != h_dig(a[j])); }
        }
        assert forall|q: HeaderDigest| #[trigger] t.done.contains(q) implies exists|i: int| 1 <= i < b.len() && h_dig(#[trigger] b[i]) == q by {
            if q == g { assert(h_dig(b[a.len() as int]) == g); } else { assert(s.done.contains(q)); let i = choose|i: int| 1 <= i < a.len() && h_dig(#[trigger] a[i]) == q; assert(b[i] == a[i]); }
        }
    }
}
proof fn lemma_visit(d: SDag, lc: Lc, gc: int, l: Header, s: D, r: int, ps: Seq<HeaderDigest>, n: int)
    requires dag_wf(d), good(d, lc, gc, l, s), s.out.len() > 0, gc + 1 < r <= h_round(l), gc >= 0, 0 <= n <= ps.len(),
    ensures ({ let t = visit(d, lc, r, s, ps, n); good(d, lc, gc, l, t) && t.out == s.out && s.done.subset_of(t.done) && forall|i: int| 0 <= i < n ==> (look(d, r - 1, #[trigger] ps[i]) matches Some(p) ==> seen(lc, p) || t.done.contains(ps[i])) }),
    decreases n,
{ if n > 0 { lemma_visit(d, lc, gc, l, s, r, ps, n - 1); lemma_visit1(d, lc, gc, l, visit(d, lc, r, s, ps, n - 1), r, ps[n - 1]); } }
pub proof fn lemma_step(d: SDag, lc: Lc, gc: int, l: Header, s: D)
    requires dag_wf(d), closed(d, gc), good(d, lc, gc, l, s), shut(d, lc, gc, s), gc >= 0, has(d, h_round(l), h_author(l)), at(d, h_round(l), h_author(l)) == l, h_round(l) > gc,
    ensures good(d, lc, gc, l, step(d, lc, gc, s)), shut(d, lc, gc, step(d, lc, gc, s)),
{
    if s.buf.len() > 0 {
        let x = s.buf.last(); let t = popped(s); let u = step(d, lc, gc, s);
        let a = all_of(s); let b = all_of(t); let k = s.out.len() as int; let n = a.len() - 1;
        lemma_popped(d, lc, gc, l, s);
        assert(a[n] == x);
        if n > 0 { assert(queued(d, lc, gc, l, s.done, a[n])); lemma_look_is(d, h_round(x) as int, h_dig(x)); }
        assert(has(d, h_round(x), h_author(x)) && at(d, h_round(x), h_author(x)) == x);
        if h_round(x) != gc + 1 { lemma_visit(d, lc, gc, l, t, h_round(x) as int, parents_of(x), parents_of(x).len() as int); }
        assert forall|i: int, g: HeaderDigest| #![trigger u.out[i], h_parents(u.out[i])@.contains(g)] 0 <= i < u.out.len() && h_round(u.out[i]) > gc + 1 && h_parents(u.out[i])@.contains(g) implies covered(d, lc, u.done, u.out[i], g) by {
            if i < k { assert(u.out[i] == s.out[i]); assert(covered(d, lc, s.done, s.out[i], g)); }
            else { assert(u.out[i] == x); assert(look(d, h_round(x) - 1, g) is Some); assert(parents_of(x).contains(g)); let q = parents_of(x).index_of(g); assert(parents_of(x)[q] == g); }
        }
    }
}
proof fn lemma_popped(d: SDag, lc: Lc, gc: int, l: Header, s: D)
    requires good(d, lc, gc, l, s), s.buf.len() > 0,
    ensures good(d, lc, gc, l, popped(s)),
{
    let t = popped(s); let a = all_of(s); let b = all_of(t); let k = s.out.len() as int; let n = a.len() - 1;
    // the popped header moved from the end to position k
    assert(b.len() == a.len());
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == a[if i < k { i } else if i == k { n } else { i - 1 }] by { }
    if k == 0 { assert(b[0] == a[n]); }
    assert(b[0] == l) by {
        // the leader is visited first: while it is queued nothing else is
    }
    assert forall|i: int| 1 <= i < b.len() implies #[trigger] queued(d, lc, gc, l, t.done, b[i]) by { let j = if i < k { i } else if i == k { n } else { i - 1 }; assert(queued(d, lc, gc, l, s.done, a[j])); }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies h_dig(b[i]) != h_dig(b[j]) by {
        let p = if i < k { i } else if i == k { n } else { i - 1 }; let q = if j < k { j } else if j == k { n } else { j - 1 };
        assert(p != q); assert(b[i] == a[p] && b[j] == a[q]);
    }
    assert forall|g: HeaderDigest| #[trigger] t.done.contains(g) implies exists|i: int| 1 <= i < b.len() && h_dig(#[trigger] b[i]) == g by {
        let i = choose|i: int| 1 <= i < a.len() && h_dig(#[trigger] a[i]) == g;
        let j = if i < k { i } else if i == n { k } else { i + 1 };
        assert(b[j] == a[i]); assert(j >= 1);
    }
}

// ---- sorting by round, stable
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool { p.len() == n && p.no_duplicates() && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n }
/// in `p`, index `a` comes before index `b`: smaller key, or the same key and smaller index
pub open spec fn first_of(k: Seq<Round>, a: int, b: int) -> bool { k[a] < k[b] || (k[a] == k[b] && a < b) }
pub open spec fn stable(k: Seq<Round>, p: Seq<int>) -> bool { is_perm(p, k.len() as int) && forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() ==> first_of(k, p[i], p[j]) }
pub open spec fn pick<T>(s: Seq<T>, p: Seq<int>) -> Seq<T> { Seq::new(p.len(), |i: int| s[p[i]]) }
pub trait VxSortKey<T> {
    spec fn vx_sk(&self) -> Seq<T>;
    fn sort_by_key<F: Fn(&T) -> Round>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vx_sk().len() ==> f.requires((&#[trigger] old(self).vx_sk()[i],)),
        ensures exists|k: Seq<Round>, p: Seq<int>| #[trigger] stable(k, p) && k.len() == old(self).vx_sk().len() && final(self).vx_sk() == pick(old(self).vx_sk(), p)
            && forall|i: int| #![trigger k[i]] #![trigger old(self).vx_sk()[i]] 0 <= i < k.len() ==> f.ensures((&old(self).vx_sk()[i],), k[i]);
}
impl<T> VxSortKey<T> for Vec<T> {
    open spec fn vx_sk(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn sort_by_key<F: Fn(&T) -> Round>(&mut self, f: F) { unimplemented!() }
}
pub open spec fn rounds(s: Seq<Header>) -> Seq<Round> { s.map_values(|h: Header| h_round(h)) }
pub open spec fn heads(s: Seq<Certificate>) -> Seq<Header> { s.map_values(|c: Certificate| c.header) }
/// `r` is `s` sorted by round, equal rounds in the order of `s`
pub open spec fn by_round(s: Seq<Header>, r: Seq<Header>) -> bool { exists|p: Seq<int>| #[trigger] stable(rounds(s), p) && r == pick(s, p) }
proof fn lemma_onto(p: Seq<int>, n: int, x: int)
    requires is_perm(p, n), 0 <= x < n,
    ensures p.contains(x),
{
    p.unique_seq_to_set();
    assert forall|y: int| #[trigger] p.to_set().contains(y) implies vstd::set_lib::set_int_range(0, n).contains(y) by { let i = p.index_of(y); assert(p[i] == y); }
    vstd::set_lib::lemma_int_range(0, n);
    vstd::set_lib::lemma_subset_equality(p.to_set(), vstd::set_lib::set_int_range(0, n));
    assert(p.to_set().contains(x));
}
/// a strictly sorted list is determined by its elements
proof fn lemma_sorted_same(k: Seq<Round>, p: Seq<int>, q: Seq<int>)
    requires p.len() == q.len(),
        forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() ==> first_of(k, p[i], p[j]),
        forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() ==> first_of(k, q[i], q[j]),
        forall|x: int| #[trigger] p.contains(x) <==> q.contains(x),
    ensures p == q,
    decreases p.len(),
{
    if p.len() > 0 {
        let n = p.len() - 1; let a = p[n]; let b = q[n];
        assert(p.contains(a) && q.contains(b)); assert(q.contains(a) && p.contains(b));
        let i = q.index_of(a); let j = p.index_of(b);
        assert(q[i] == a && p[j] == b);
        if a != b { assert(first_of(k, q[i], q[n])); assert(first_of(k, p[j], p[n])); assert(false); }
        let p2 = p.drop_last(); let q2 = q.drop_last();
        assert forall|x: int| #[trigger] p2.contains(x) <==> q2.contains(x) by {
            if p2.contains(x) { let u = p2.index_of(x); assert(p[u] == x); assert(p.contains(x)); assert(q.contains(x)); let v = q.index_of(x); if v == n { assert(first_of(k, p[u], p[n])); assert(false); } assert(q2[v] == x); }
            if q2.contains(x) { let u = q2.index_of(x); assert(q[u] == x); assert(q.contains(x)); assert(p.contains(x)); let v = p.index_of(x); if v == n { assert(first_of(k, q[u], q[n])); assert(false); } assert(p2[v] == x); }
        }
        assert forall|i: int, j: int| #![trigger p2[i], p2[j]] 0 <= i < j < p2.len() implies first_of(k, p2[i], p2[j]) by { assert(first_of(k, p[i], p[j])); }
        assert forall|i: int, j: int| #![trigger q2[i], q2[j]] 0 <= i < j < q2.len() implies first_of(k, q2[i], q2[j]) by { assert(first_of(k, q[i], q[j])); }
        lemma_sorted_same(k, p2, q2);
        assert(p =~= p2.push(a)); assert(q =~= q2.push(b));
    } else { assert(p =~= q); }
}
/// the sorted order is a function of the visiting order
pub proof fn lemma_by_round_same(s: Seq<Header>, a: Seq<Header>, b: Seq<Header>)
    requires by_round(s, a), by_round(s, b),
    ensures a == b,
{
    let p = choose|p: Seq<int>| #[trigger] stable(rounds(s), p) && a == pick(s, p);
    let q = choose|q: Seq<int>| #[trigger] stable(rounds(s), q) && b == pick(s, q);
    assert forall|x: int| #[trigger] p.contains(x) <==> q.contains(x) by {
        if p.contains(x) { let i = p.index_of(x); assert(p[i] == x); lemma_onto(q, s.len() as int, x); }
        if q.contains(x) { let i = q.index_of(x); assert(q[i] == x); lemma_onto(p, s.len() as int, x); }
    }
    lemma_sorted_same(rounds(s), p, q);
}
pub open spec fn refs(s: Seq<&Certificate>) -> Seq<Header> { s.map_values(|c: &Certificate| c.header) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { t: core::marker::PhantomData<T> }
impl<T> View for HashSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> HashSet<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &T) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
}
/// the visiting state as the code holds it
pub open spec fn same_state(s: D, buf: Seq<&Certificate>, done: Set<&HeaderDigest>, out: Seq<Certificate>) -> bool {
    &&& s.buf =~= refs(buf) && s.out =~= heads(out)
    &&& forall|g: HeaderDigest| #[trigger] s.done.contains(g) <==> done.contains(&g)
}
pub open spec fn entries(d: SDag, q: Round, l: Seq<(AuthorityIdentifier, (HeaderDigest, Certificate))>) -> bool { lists(l, d[q]@) }
pub proof fn lemma_found(d: SDag, q: Round, g: HeaderDigest)
    requires dag_wf(d),
    ensures
        !d.contains_key(q) ==> look(d, q as int, g) is None,
        d.contains_key(q) ==> forall|l: Seq<(AuthorityIdentifier, (HeaderDigest, Certificate))>| #[trigger] lists(l, d[q]@) ==>
            (forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1.0 == g ==> look(d, q as int, g) == Some(l[i].1.1.header))
            && (look(d, q as int, g) is Some ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1.0 == g),
{
    if !d.contains_key(q) { assert forall|a: AuthorityIdentifier| !#[trigger] hit(d, q as int, a, g) by { assert(has(d, q, a) == false); } }
    else {
    assert forall|l: Seq<(AuthorityIdentifier, (HeaderDigest, Certificate))>| #[trigger] lists(l, d[q]@) implies (forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1.0 == g ==> look(d, q as int, g) == Some(l[i].1.1.header))
            && (look(d, q as int, g) is Some ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1.0 == g) by {
    assert forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1.0 == g implies look(d, q as int, g) == Some(l[i].1.1.header) by {
        assert(has(d, q, l[i].0)); assert(at(d, q, l[i].0) == l[i].1.1.header); assert(hit(d, q as int, l[i].0, g));
        lemma_look_is(d, q as int, g); ax_digest(look(d, q as int, g)->0, l[i].1.1.header);
    }
    if look(d, q as int, g) is Some {
        let a = choose|a: AuthorityIdentifier| #[trigger] hit(d, q as int, a, g);
        assert(has(d, q, a)); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == a; assert(l[i].1.0 == g);
    }
    } }
}
//@fn file=crates/consensus/primary/src/consensus/utils.rs path="fn order_dag" ret=r
//@desugar opt.and_then
//@desugar opt.map_or_else
//@sub? /HashSet::new\(\)/ => HashSet::<&HeaderDigest>::new()
//@sub? /\bx == parent\b/ => *x == *parent
//@sub? /\bskip \|= ([^;]*);/ => skip = vx_or(skip, \1);
//@sub? /&certificate\.round\(\) <= r\b/ => certificate.round() <= *r
//@sub? /in x\.header\(\)\.parents\(\)/ => in x.header().parents().iter()
//@clos find.0 &&(HeaderDigest, Certificate) -> (b: bool)
    ensures b == (($0).0 == *parent)
//@clos sort_by_key.0 &Certificate -> (k: Round)
    ensures k == h_round(($0).header)
//@forvec 1
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@head
    let ghost d = state.dag@; let ghost lc = state.last_committed@; let ghost l = leader.header; let ghost gc = sat(h_round(l) as int, state.gc_depth as int);
    let ghost mut n: nat = 0;
//@beforeloop 0
    proof {
        let s = start(l);
        assert(good(d, lc, gc, l, s)) by { assert(all_of(s) =~= seq![l]); }
        assert(closed(d, gc));
    }
//@loop 0
    invariant
        d == state.dag@, lc == state.last_committed@, l == leader.header, gc == gc_round as int, gc >= 0, state.wf(), state.gc() <= gc, h_round(l) > gc, closed(d, gc),
        has(d, h_round(l), h_author(l)), at(d, h_round(l), h_author(l)) == l,
        same_state(run(d, lc, gc, start(l), n), buffer@, already_ordered@, ordered@),
        good(d, lc, gc, l, run(d, lc, gc, start(l), n)), shut(d, lc, gc, run(d, lc, gc, start(l), n)),
        forall|i: int| 0 <= i < ordered@.len() && (#[trigger] ordered@[i]).header == l ==> ordered@[i] == *leader,
        forall|i: int| 0 <= i < buffer@.len() && (#[trigger] buffer@[i]).header == l ==> *(buffer@[i]) == *leader,
    ensures buffer@.len() == 0,
//@loophead 0
    let ghost s0 = run(d, lc, gc, start(l), n);
    let ghost s1 = popped(s0);
    proof {
        assert(s0.buf.last() == x.header); lemma_step(d, lc, gc, l, s0);
        assert(step(d, lc, gc, s0) == run(d, lc, gc, start(l), n + 1));
        let a = all_of(s0); assert(a[a.len() - 1] == x.header);
        if a.len() > 1 { assert(queued(d, lc, gc, l, s0.done, a[a.len() - 1])); }
        assert(h_round(x.header) > gc && h_round(x.header) <= h_round(l));
        lemma_popped(d, lc, gc, l, s0);
    }
//@after /ordered\.push\([^;]*;/
    proof { assert(same_state(s1, buffer@, already_ordered@, ordered@)); }
    proof { n = n + 1; }
//@loop 1 iter=it
    invariant
        d == state.dag@, lc == state.last_committed@, l == leader.header, gc == gc_round as int, state.wf(), h_round(x.header) > gc + 1, h_round(x.header) <= h_round(l), gc >= 0, dag_wf(d), good(d, lc, gc, l, s1), s1.out.len() > 0,
        it.seq().len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> *(#[trigger] it.seq()[i]) == ps[i],
        ps == parents_of(x.header),
        same_state(visit(d, lc, h_round(x.header) as int, s1, ps, it.index() as int), buffer@, already_ordered@, ordered@),
        forall|i: int| 0 <= i < ordered@.len() && (#[trigger] ordered@[i]).header == l ==> ordered@[i] == *leader,
        forall|i: int| 0 <= i < buffer@.len() && (#[trigger] buffer@[i]).header == l ==> *(buffer@[i]) == *leader,
//@beforeloop 1
    let ghost ps = parents_of(x.header);
//@loophead 1
    let ghost t0 = visit(d, lc, h_round(x.header) as int, s1, ps, it.index() as int);
    proof { lemma_found(d, (h_round(x.header) - 1) as Round, *parent); assert(ps[it.index() as int] == *parent);
        assert(visit(d, lc, h_round(x.header) as int, s1, ps, it.index() + 1) == visit1(d, lc, h_round(x.header) as int, t0, *parent)); }
//@after? /Some\(\(digest, certificate\)\) => \{/
    proof { assert(*digest == *parent); assert(look(d, h_round(x.header) - 1, *parent) == Some(certificate.header)); lemma_look_is(d, h_round(x.header) - 1, *parent); }
//@after? /already_ordered\.insert\(digest\);/
    proof { assert(same_state(visit1(d, lc, h_round(x.header) as int, t0, *parent), buffer@, already_ordered@, ordered@)); }
//@afterloop 0
    let ghost fin = run(d, lc, gc, start(l), n);
    proof { assert(ends(d, lc, gc, l, n)); lemma_flat(d, lc, gc, l, n); assert(good(d, lc, gc, l, fin) && shut(d, lc, gc, fin) && fin.buf.len() == 0); assert(heads(ordered@) == fin.out); }
    let ghost pre = ordered@;
//@tail vx_r
    proof {
        let (k, p) = choose|k: Seq<Round>, p: Seq<int>| #[trigger] stable(k, p) && k.len() == pre.len() && vx_r@ == pick(pre, p) && forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == h_round(pre[i].header);
        assert(k =~= rounds(fin.out)); assert(heads(vx_r@) =~= pick(fin.out, p));
    }
//@spec
    requires state.wf(), state.gc_depth >= 1, h_round(leader.header) > state.last_round.committed_round, has(state.dag@, h_round(leader.header), h_author(leader.header)), at(state.dag@, h_round(leader.header), h_author(leader.header)) == leader.header,
    ensures by_round(state.flat(leader.header), heads(r@)), state.hist(leader.header, state.flat(leader.header)),
        finite(state.dag@, state.last_committed@, sat(h_round(leader.header) as int, state.gc_depth as int), leader.header),
        forall|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).header == leader.header ==> r@[i] == *leader,
//@end
impl ConsensusState {
    /// the headers committing `l` now would commit, in visiting order
    pub open spec fn flat(self, l: Header) -> Seq<Header> { flat(self.dag@, self.last_committed@, sat(h_round(l) as int, self.gc_depth as int), l) }
    /// what `f` is: the leader and the uncommitted part of its causal history, once each
    pub open spec fn hist(self, l: Header, f: Seq<Header>) -> bool { hist(self.dag@, self.last_committed@, sat(h_round(l) as int, self.gc_depth as int), l, f) }
}
pub open spec fn hist(d: SDag, lc: Lc, gc: int, l: Header, f: Seq<Header>) -> bool {
    exists|s: D| #[trigger] good(d, lc, gc, l, s) && shut(d, lc, gc, s) && s.buf.len() == 0 && s.out == f
}

// ---- leaders
pub struct Authority { pub aid: AuthorityIdentifier, pub data: u64 }
impl Authority { #[verifier::external_body] pub fn id(&self) -> (r: AuthorityIdentifier) ensures r == self.aid { unimplemented!() } }
pub mod vx_com {
use vstd::prelude::*;
use super::*;
/// the committee, by the contracts proved in C01
#[derive(Clone, Copy)] pub struct Committee { pub x: u64 }
/// the leader schedule, by the contracts proved in C20
pub struct LeaderSchedule { pub x: u64 }
pub struct LeaderSwapTable { pub x: u64 }
pub uninterp spec fn members(c: Committee) -> Set<AuthorityIdentifier>;
pub uninterp spec fn leader_of(s: LeaderSchedule, r: Round) -> Authority;
pub uninterp spec fn with_table(s: LeaderSchedule, t: LeaderSwapTable) -> LeaderSchedule;
pub uninterp spec fn table_of(c: Committee, r: Round, sc: Map<AuthorityIdentifier, u64>, t: u64) -> LeaderSwapTable;
}
pub use vx_com::*;
pub open spec fn csize(c: Committee) -> nat { members(c).len() }
pub open spec fn quorum(n: nat) -> nat { 2 * n / 3 + 1 }
pub open spec fn validity(n: nat) -> nat { (n + 2) / 3 }
impl Committee {
    pub open spec fn wf(self) -> bool { 1 < csize(self) <= 0x7fff }
    #[verifier::external_body] pub fn size(&self) -> (r: usize) ensures r == csize(*self) { unimplemented!() }
    #[verifier::external_body] pub fn voting_power_by_id(&self, id: &AuthorityIdentifier) -> (r: VotingPower) ensures r == (if members(*self).contains(*id) { 1u64 } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn quorum_threshold(&self) -> (r: VotingPower) requires self.wf() ensures r == quorum(csize(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn validity_threshold(&self) -> (r: VotingPower) requires self.wf() ensures r == validity(csize(*self)) { unimplemented!() }
}
impl LeaderSwapTable {
    #[verifier::external_body] pub fn new(committee: &Committee, round: Round, reputation_scores: &ReputationScores, t: u64) -> (r: Self)
        requires t <= 33, reputation_scores.final_of_schedule ensures r == table_of(*committee, round, reputation_scores.scores_per_authority@, t) { unimplemented!() }
}
pub open spec fn leader_cert(s: LeaderSchedule, d: SDag, r: Round) -> Option<Certificate> { if has(d, r, leader_of(s, r).aid) { Some(d[r]@[leader_of(s, r).aid].1) } else { None } }
impl LeaderSchedule {
    #[verifier::external_body] pub fn leader(&self, round: Round) -> (r: Authority) requires round % 2 == 0 ensures r == leader_of(*self, round) { unimplemented!() }
    #[verifier::external_body] pub fn update_leader_swap_table(&mut self, table: LeaderSwapTable) ensures *final(self) == with_table(*old(self), table) { unimplemented!() }
//@fn file=crates/consensus/primary/src/consensus/leader_schedule.rs path="impl LeaderSchedule :: fn leader_certificate" ret=r
//@desugar opt.and_then
//@spec
    requires round % 2 == 0,
    ensures r.0 == leader_of(*self, round), (match r.1 { Some(c) => leader_cert(*self, dag@, round) == Some(*c), None => leader_cert(*self, dag@, round) is None }),
//@end
}
pub fn instant_now() -> (r: Instant) { Instant { x: 0 } }
pub struct Instant { pub x: u64 }
//@item file=crates/consensus/primary/src/consensus/bullshark.rs path="struct Bullshark"
//@end
// ---- reachability
/// `h` (of round `r`) is in the causal history of `l`, by a path through the DAG
pub open spec fn reach(d: SDag, l: Header, r: int, h: Header) -> bool decreases h_round(l) - r {
    if r >= h_round(l) { h == l } else { look(d, r, h_dig(h)) == Some(h) && exists|x: Header| reach(d, l, r + 1, x) && #[trigger] h_parents(x)@.contains(h_dig(h)) }
}
#[verifier::external_body]
pub fn vx_rev(a: Round, b: Round) -> (r: Vec<Round>)
    ensures r@.len() == sat(b as int, a as int), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == b - 1 - i
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_down2(a: Round, b: Round) -> (r: Vec<Round>)
    ensures r@.len() == (if a <= b { (b - a) / 2 + 1 } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == b - 2 * i
{ unimplemented!() }
impl<'a, A, B> VIter<&'a (A, B)> {
    #[verifier::external_body]
    pub fn vx_second(self) -> (r: VIter<&'a B>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *(r@[i]) == (*self@[i]).1 { unimplemented!() }
}
impl<T> VIter<T> {
    /// `filter`, as the set of what it keeps
    #[verifier::external_body]
    pub fn vx_keep<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures
            exists|ix: Seq<int>| #[trigger] picks(self@, r@, ix)
                && (forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> r@[j] == self@[ix[j]] && f.ensures((&self@[ix[j]],), true))
                && forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((&self@[i],), ix.contains(i)),
    { unimplemented!() }
}
pub trait VxHas { spec fn vx_hs(&self) -> Seq<Header>; fn contains(&self, c: &&Certificate) -> (r: bool) ensures r == self.vx_hs().contains(c.header); }
impl<'a> VxHas for Vec<&'a Certificate> {
    open spec fn vx_hs(&self) -> Seq<Header> { refs(self@) }
    /// by the comparison of certificates proved above
    #[verifier::external_body] fn contains(&self, c: &&Certificate) -> (r: bool) { unimplemented!() }
}
/// leaders below `cur` that are linked to the one above them, newest first
pub open spec fn walk(d: SDag, s: LeaderSchedule, cur: Header, r: int, stop: int) -> Seq<Certificate> decreases (if r > stop { r - stop } else { 0 }) {
    if r <= stop || r < 0 { Seq::empty() } else {
        match leader_cert(s, d, r as Round) {
            Some(p) if reach(d, cur, r, p.header) => seq![p] + walk(d, s, p.header, r - 2, stop),
            _ => walk(d, s, cur, r - 2, stop),
        }
    }
}
/// the leaders to commit, oldest first
pub open spec fn chain(d: SDag, s: LeaderSchedule, l: Certificate, stop: int) -> Seq<Certificate> { (seq![l] + walk(d, s, l.header, h_round(l.header) - 2, stop)).reverse() }
pub mod vx_from {
use vstd::prelude::*;
use super::*;
impl vstd::std_specs::convert::FromSpecImpl<ConsensusInvariant> for ConsensusError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ConsensusInvariant) -> Self { ConsensusError::Invariant(e) } }
impl From<ConsensusInvariant> for ConsensusError { fn from(e: ConsensusInvariant) -> (r: Self) { ConsensusError::Invariant(e) } }
}
impl Bullshark {
//@fn file=crates/consensus/primary/src/consensus/bullshark.rs path="impl Bullshark :: fn linked" ret=r
//@sub? /\(([\w.()]+)\.\.([\w.()]+)\)\.rev\(\)/ => vx_rev(\1, \2)
//@sub? /\.map\(\|\(_, (\w+)\)\| \1\)/ => .vx_second()
//@clos any.0 &&Certificate -> (b: bool)
    ensures b == h_parents(($0).header)@.contains(*digest)
//@sub? /\.filter\(/ => .vx_keep(
//@clos vx_keep.0 &&(HeaderDigest, Certificate) -> (b: bool)
    ensures b == citing(parents@, ($0).0)
//@loop 0 iter=it
    invariant
        dag_wf(dag@), it.seq().len() == sat(h_round(leader.header) as int, h_round(prev_leader.header) as int),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == h_round(leader.header) - 1 - i,
        forall|h: Header| #[trigger] refs(parents@).contains(h) <==> reach(dag@, leader.header, h_round(leader.header) - it.index(), h),
//@beforeloop 0
    proof { assert forall|h: Header| #[trigger] refs(parents@).contains(h) <==> reach(dag@, leader.header, h_round(leader.header) as int, h) by { if h == leader.header { assert(refs(parents@)[0] == h); } } }
//@loophead 0
    let ghost pp = parents@;
    proof { assert forall|h: Header| #[trigger] refs(pp).contains(h) <==> reach(dag@, leader.header, r + 1, h) by { assert(r + 1 == h_round(leader.header) - it.index()); } }
    let ghost q = r;
//@loopend 0
    proof {
        let l = leader.header;
        assert(q == h_round(l) - 1 - it.index());
        let n = refs(parents@); let p0 = refs(pp);
        lemma_row(dag@, q);
        assert forall|g: HeaderDigest| #[trigger] citing(pp, g) == cites(p0, g) by {
            if citing(pp, g) { let i = choose|i: int| 0 <= i < pp.len() && h_parents((#[trigger] pp[i]).header)@.contains(g); assert(p0[i] == pp[i].header); }
            if cites(p0, g) { let i = choose|i: int| 0 <= i < p0.len() && h_parents(#[trigger] p0[i])@.contains(g); assert(p0[i] == pp[i].header); }
        }
        assert(q + 1 == h_round(l) - it.index()); assert(it.index() >= 0); assert(q < h_round(l));
        assert(forall|h: Header| #[trigger] p0.contains(h) <==> reach(dag@, l, q + 1, h));
        assert(forall|k: int| 0 <= k < parents@.len() ==> (#[trigger] parents@[k]).header == n[k]);
        assert(front(dag@, q, p0, n)) by {
            assert forall|h: Header| #[trigger] n.contains(h) implies look(dag@, q as int, h_dig(h)) == Some(h) && cites(p0, h_dig(h)) by { let j = n.index_of(h); assert(parents@[j].header == h); }
            assert forall|h: Header| look(dag@, q as int, h_dig(h)) == Some(h) && cites(p0, h_dig(h)) implies #[trigger] n.contains(h) by { lemma_found(dag@, q, h_dig(h)); }
        }
        assert forall|h: Header| #[trigger] n.contains(h) <==> reach(dag@, l, q as int, h) by {
            if n.contains(h) { let i = choose|i: int| 0 <= i < p0.len() && h_parents(#[trigger] p0[i])@.contains(h_dig(h)); assert(p0.contains(p0[i])); assert(reach(dag@, l, q + 1, p0[i])); }
            if reach(dag@, l, q as int, h) { assert(look(dag@, q as int, h_dig(h)) == Some(h)); assert(exists|x: Header| reach(dag@, l, q + 1, x) && #[trigger] h_parents(x)@.contains(h_dig(h))); let x = choose|x: Header| reach(dag@, l, q + 1, x) && #[trigger] h_parents(x)@.contains(h_dig(h)); assert(p0.contains(x)); let i = p0.index_of(x); assert(p0[i] == x); }
        }
    }
//@spec
    requires dag_wf(dag@),
    ensures r == reach(dag@, leader.header, h_round(prev_leader.header) as int, prev_leader.header),
//@end
//@fn file=crates/consensus/primary/src/consensus/bullshark.rs path="impl Bullshark :: fn order_leaders" ret=r
//@desugar bool.then_some
//@desugar opt.ok_or
//@sub? /\(([^()]*(?:\([^()]*\)[^()]*)*?)\.\.=([^()]*(?:\([^()]*\)[^()]*)*?)\)\s*\.rev\(\)\s*\.step_by\(2\)/ => vx_down2(\1, \2)
//@forwhile 0
//@loop 0
    invariant
        self == old_self, dag_wf(state.dag@), top % 2 == 0, top >= 2, top <= u32::MAX, stop == state.last_round.committed_round + 1, total == seq![l0] + walk(state.dag@, self.leader_schedule, l0.header, top - 2, stop),
        vx_v0@.len() == (if stop + 1 <= top - 2 { (top - 2 - (stop + 1)) / 2 + 1 } else { 0 }), 0 <= vx_i0 <= vx_v0@.len(),
        forall|i: int| 0 <= i < vx_v0@.len() ==> #[trigger] vx_v0@[i] == top - 2 - 2 * i,
        to_commit@.reverse() + walk(state.dag@, self.leader_schedule, leader.header, top - 2 - 2 * vx_i0, stop) =~= total,
    decreases vx_v0@.len() - vx_i0,
//@beforeloop 0
    let ghost l0 = *leader; let ghost top = h_round(leader.header) as int; let ghost stop = state.last_round.committed_round + 1; let ghost old_self = self;
    let ghost total = seq![l0] + walk(state.dag@, self.leader_schedule, l0.header, top - 2, stop);
    proof { assert(to_commit@.reverse() =~= seq![l0]); }
//@loophead 0
    let ghost tc = to_commit@; let ghost cur = leader.header;
    proof { assert(vx_v0@[vx_i0 as int] == top - 2 - 2 * vx_i0); }
//@after? /leader = prev_leader;/
    proof { assert(to_commit@.reverse() =~= tc.reverse().push(*prev_leader)); }
//@spec
    requires dag_wf(state.dag@), h_round(leader.header) >= 2, state.last_round.committed_round <= u32::MAX - 2,
    ensures r is Ok <==> h_round(leader.header) % 2 == 0,
        r matches Ok(v) ==> v@ == chain(state.dag@, self.leader_schedule, *leader, state.last_round.committed_round + 1),
//@end
}
pub proof fn lemma_row(d: SDag, q: Round)
    requires dag_wf(d),
    ensures d.contains_key(q) ==> forall|l: Seq<(AuthorityIdentifier, (HeaderDigest, Certificate))>, i: int| #![trigger lists(l, d[q]@), l[i]] lists(l, d[q]@) && 0 <= i < l.len() ==>
            look(d, q as int, l[i].1.0) == Some(l[i].1.1.header) && l[i].1.0 == h_dig(l[i].1.1.header),
        !d.contains_key(q) ==> forall|g: HeaderDigest| #[trigger] look(d, q as int, g) is None,
{
    if d.contains_key(q) {
        assert forall|l: Seq<(AuthorityIdentifier, (HeaderDigest, Certificate))>, i: int| #![trigger lists(l, d[q]@), l[i]] lists(l, d[q]@) && 0 <= i < l.len() implies look(d, q as int, l[i].1.0) == Some(l[i].1.1.header) && l[i].1.0 == h_dig(l[i].1.1.header) by {
            lemma_found(d, q, l[i].1.0); assert(has(d, q, l[i].0)); assert(at(d, q, l[i].0) == l[i].1.1.header); }
    } else { assert forall|g: HeaderDigest| #[trigger] look(d, q as int, g) is None by { lemma_found(d, q, g); } }
}
/// some header of `s` has `g` as a parent
pub open spec fn cites(s: Seq<Header>, g: HeaderDigest) -> bool { exists|i: int| 0 <= i < s.len() && h_parents(#[trigger] s[i])@.contains(g) }
pub open spec fn citing(s: Seq<&Certificate>, g: HeaderDigest) -> bool { exists|i: int| 0 <= i < s.len() && h_parents((#[trigger] s[i]).header)@.contains(g) }
/// `n` holds the headers of round `q` that a header of `p` cites
pub open spec fn front(d: SDag, q: Round, p: Seq<Header>, n: Seq<Header>) -> bool {
    forall|h: Header| #[trigger] n.contains(h) <==> look(d, q as int, h_dig(h)) == Some(h) && cites(p, h_dig(h))
}


// ---- the seed chain
pub uninterp spec fn keccak(b: Seq<u8>) -> B256;
pub uninterp spec fn b256_bytes(b: B256) -> Seq<u8>;
pub uninterp spec fn sig_bytes(s: BlsSignature) -> Seq<u8>;
pub uninterp spec fn sig_default() -> BlsSignature;
pub uninterp spec fn zero256() -> B256;
pub open spec fn le4(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8] }
pub struct SigBytes { pub v: Vec<u8> }
impl BlsSignature {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r == sig_default() { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: VIter<u8>) ensures r@ == sig_bytes(*self) { unimplemented!() }
}
impl B256 { #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: VIter<&'a u8>) ensures r@.len() == b256_bytes(*self).len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *(r@[i]) == b256_bytes(*self)[i] { unimplemented!() }
    #[verifier::external_body] pub fn vx_zero() -> (r: Self) ensures r == zero256() { unimplemented!() } }
pub trait VxKeccak { spec fn vx_kb(&self) -> Seq<u8>; }
impl VxKeccak for Vec<u8> { open spec fn vx_kb(&self) -> Seq<u8> { self@ } }
impl VxKeccak for VIter<u8> { open spec fn vx_kb(&self) -> Seq<u8> { self@ } }
#[verifier::external_body] pub fn keccak256<T: VxKeccak>(b: T) -> (r: B256) ensures r == keccak(b.vx_kb()) { unimplemented!() }
pub uninterp spec fn root_domain() -> Seq<u8>;
pub uninterp spec fn fold_domain() -> Seq<u8>;
/// the two domain separators (their bytes are read from the source by the native oracle)
#[verifier::external_body] pub fn vx_root_domain<'a>() -> (r: VIter<&'a u8>) ensures r@.len() == root_domain().len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *(r@[i]) == root_domain()[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_fold_domain<'a>() -> (r: VIter<&'a u8>) ensures r@.len() == fold_domain().len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *(r@[i]) == fold_domain()[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_le4(x: u32) -> (r: VIter<u8>) ensures r@ == le4(x) { unimplemented!() }
pub open spec fn root_of(e: Epoch) -> B256 { keccak(root_domain() + le4(e)) }
pub open spec fn fold_of(p: B256, r: Round, s: BlsSignature) -> B256 { keccak(fold_domain() + b256_bytes(p) + le4(r) + sig_bytes(s)) }
impl EpochSeedChainValue {
//@fn file=crates/types/src/primary/seed_chain.rs path="impl EpochSeedChainValue :: fn epoch_root" ret=r
//@sub? /ROOT_DOMAIN\.iter\(\)/ => vx_root_domain()
//@sub? /epoch\.(?:to_le_bytes|vx_le)\(\)/ => vx_le4(epoch)
//@sub? /let preimage: Vec<u8> = ([^;]*);/ => let preimage: Vec<u8> = \1; proof { assert(preimage@ =~= root_domain() + le4(epoch)); }
//@spec
    ensures r.0 == root_of(epoch),
//@end
//@fn file=crates/types/src/primary/seed_chain.rs path="impl EpochSeedChainValue :: fn from_committed" ret=r
//@spec
    ensures r.0 == randomness,
//@end
//@fn file=crates/types/src/primary/seed_chain.rs path="impl EpochSeedChainValue :: fn genesis_placeholder" ret=r
//@sub? /B256::ZERO/ => B256::vx_zero()
//@spec
    ensures r.0 == zero256(),
//@end
//@fn file=crates/types/src/primary/seed_chain.rs path="impl EpochSeedChainValue :: fn fold" ret=r
//@sub? /FOLD_DOMAIN\s*\.iter\(\)/ => vx_fold_domain()
//@sub? /leader_round\.(?:to_le_bytes|vx_le)\(\)/ => vx_le4(leader_round)
//@sub? /let preimage: Vec<u8> = ([^;]*);/ => let preimage: Vec<u8> = \1; proof { assert(preimage@ =~= fold_domain() + b256_bytes(self.0) + le4(leader_round) + sig_bytes(*signature)); }
//@spec
    ensures r.0 == fold_of(self.0, leader_round, *signature),
//@end
//@fn file=crates/types/src/primary/seed_chain.rs path="impl EpochSeedChainValue :: fn into_inner" ret=r
//@spec
    ensures r == self.0,
//@end
}
// ---- what a commit records
pub open spec fn randomness_of(l: Certificate, seed: B256) -> B256 {
    match h_seed(l.header) { Some(s) => fold_of(seed, h_round(l.header), s), None => keccak(sig_bytes(match l.agg { Some(s) => s, None => sig_default() })) }
}
pub open spec fn prev_time(p: Option<CommittedSubDag>) -> u64 { match p { Some(s) => s.inner.commit_timestamp, None => 0 } }
pub fn vx_max64(a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
impl CommittedSubDag {
    pub open spec fn wf(self) -> bool { self.inner.headers@.len() >= 1 }
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn new" ret=r
//@desugar opt.map /previous_sub_dag|last\(\)/
//@desugar opt.map_or_else
//@desugar opt.unwrap_or_else
//@sub? /\.unwrap_or_default\(\)/ => .vx_uod()
//@sub? /\b(\w+)\.max\(/ => vx_max64(\1, 
//@sub? /\bcertificates\.into_iter\(\)/ => vx_into_iter(certificates)
//@clos map.0 Certificate -> (h: Header)
    ensures h == ($0).header
//@sub? /let headers = ([^;]*);/ => let headers: Vec<Header> = \1; proof { assert(headers@ =~= heads(cs)); }
//@head
    let ghost cs = certificates@;
//@spec
    requires certificates@.len() >= 1, certificates@.last().header == leader.header,
    ensures
        r.inner.headers@ == heads(certificates@), r.inner.reputation_scores == reputation_scores,
        r.inner.commit_timestamp == (if prev_time(previous_sub_dag) >= h_time(leader.header) { prev_time(previous_sub_dag) } else { h_time(leader.header) }),
        r.inner.randomness == randomness_of(leader, seed_chain.0),
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn len" ret=r
//@spec
    ensures r == self.inner.headers@.len(),
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn leader" ret=r
//@spec
    requires self.wf(),
    ensures *r == self.inner.headers@.last(),
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn leader_round" ret=r
//@spec
    requires self.wf(),
    ensures r == h_round(self.inner.headers@.last()),
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn leader_epoch" ret=r
//@spec
    requires self.wf(),
    ensures r == h_epoch(self.inner.headers@.last()),
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn commit_timestamp" ret=r
//@spec
    requires self.wf(),
    ensures r == (if self.inner.commit_timestamp == 0 { h_time(self.inner.headers@.last()) } else { self.inner.commit_timestamp }),
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn reputation_scores" ret=r
//@spec
    ensures *r == self.inner.reputation_scores,
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn randomness" ret=r
//@spec
    ensures r == self.inner.randomness,
//@end
//@fn file=crates/types/src/primary/output.rs path="impl CommittedSubDag :: fn seed_chain_value" ret=r
//@spec
    ensures r.0 == self.inner.randomness,
//@end
}
//@fn file=crates/consensus/primary/src/consensus/state.rs path="fn resolve_seed_chain_anchor" ret=r
//@spec
    requires latest_sub_dag matches Some(s) ==> s.wf(),
    ensures
        // continue from the recovered commit exactly when the cursor points at it; start from the root exactly when nothing was committed
        r == (match latest_sub_dag {
            Some(s) => if last_committed_round == 0 { Err(EpochSeedChainError::SubDagWithoutCommittedRound { sub_dag_leader_round: h_round(s.inner.headers@.last()) }) }
                else if h_round(s.inner.headers@.last()) == last_committed_round { Ok(EpochSeedChainValue(s.inner.randomness)) }
                else { Err(EpochSeedChainError::LeaderRoundMismatch { sub_dag_leader_round: h_round(s.inner.headers@.last()), last_committed_round }) },
            None => if last_committed_round == 0 { Ok(EpochSeedChainValue(root_of(epoch))) } else { Err(EpochSeedChainError::MissingSubDagForCommittedRound { last_committed_round }) },
        }),
//@end

// ---- facts about what a commit contains
pub proof fn lemma_sub(d: SDag, lc: Lc, gc: int, l: Header, f: Seq<Header>, hs: Seq<Header>)
    requires hist(d, lc, gc, l, f), by_round(f, hs),
    ensures
        hs.len() >= 1, hs.len() == f.len(), hs.last() == l,
        forall|i: int| 0 <= i < hs.len() - 1 ==> gc < h_round(#[trigger] hs[i]) < h_round(l) && !seen(lc, hs[i]) && look(d, h_round(hs[i]) as int, h_dig(hs[i])) == Some(hs[i]),
        forall|i: int, j: int| #![trigger hs[i], hs[j]] 0 <= i < j < hs.len() ==> hs[i] != hs[j] && h_round(hs[i]) <= h_round(hs[j]),
        forall|h: Header| #[trigger] hs.contains(h) <==> f.contains(h),
        // everything above the collected rounds that it builds on is in it or was committed
        forall|i: int, g: HeaderDigest| #![trigger hs[i], h_parents(hs[i])@.contains(g)] 0 <= i < hs.len() && h_round(hs[i]) > gc + 1 && h_parents(hs[i])@.contains(g) ==>
            (look(d, h_round(hs[i]) - 1, g) matches Some(q) && (seen(lc, q) || hs.contains(q))),
        // and it is all in the leader's causal history
{
    let s = choose|s: D| #[trigger] good(d, lc, gc, l, s) && shut(d, lc, gc, s) && s.buf.len() == 0 && s.out == f;
    let p = choose|p: Seq<int>| #[trigger] stable(rounds(f), p) && hs == pick(f, p);
    let a = all_of(s);
    assert(a =~= f);
    lemma_onto(p, f.len() as int, 0);
    let j0 = p.index_of(0int); let n = p.len() - 1;
    assert(p[j0] == 0);
    if j0 != n { assert(first_of(rounds(f), p[j0], p[n])); assert(p[n] != 0) by { assert(p[j0] != p[n]); } assert(queued(d, lc, gc, l, s.done, a[p[n]])); assert(false); }
    assert forall|i: int| 0 <= i < hs.len() - 1 implies gc < h_round(#[trigger] hs[i]) < h_round(l) && !seen(lc, hs[i]) && look(d, h_round(hs[i]) as int, h_dig(hs[i])) == Some(hs[i]) by {
        assert(p[i] != 0) by { assert(p[i] != p[n]); } assert(queued(d, lc, gc, l, s.done, a[p[i]]));
    }
    assert forall|i: int, j: int| #![trigger hs[i], hs[j]] 0 <= i < j < hs.len() implies hs[i] != hs[j] && h_round(hs[i]) <= h_round(hs[j]) by {
        assert(p[i] != p[j]); assert(first_of(rounds(f), p[i], p[j]));
        if p[i] < p[j] { assert(h_dig(a[p[i]]) != h_dig(a[p[j]])); } else { assert(h_dig(a[p[j]]) != h_dig(a[p[i]])); }
    }
    assert forall|h: Header| #[trigger] hs.contains(h) <==> f.contains(h) by {
        if hs.contains(h) { let i = hs.index_of(h); assert(f[p[i]] == h); }
        if f.contains(h) { let i = f.index_of(h); lemma_onto(p, f.len() as int, i); let j = p.index_of(i); assert(hs[j] == h); }
    }
    assert forall|i: int, g: HeaderDigest| #![trigger hs[i], h_parents(hs[i])@.contains(g)] 0 <= i < hs.len() && h_round(hs[i]) > gc + 1 && h_parents(hs[i])@.contains(g) implies
            (look(d, h_round(hs[i]) - 1, g) matches Some(q) && (seen(lc, q) || hs.contains(q))) by {
        assert(s.out[p[i]] == hs[i]); assert(covered(d, lc, s.done, s.out[p[i]], g));
        let q = look(d, h_round(hs[i]) - 1, g)->0;
        if !seen(lc, q) {
            let k = choose|k: int| 1 <= k < a.len() && h_dig(#[trigger] a[k]) == g;
            assert(queued(d, lc, gc, l, s.done, a[k]));
            lemma_hit_dig(d, h_round(hs[i]) - 1, g);
            ax_digest(a[k], q); assert(f[k] == q); assert(f.contains(q));
        }
    }
}
proof fn lemma_hit_dig(d: SDag, r: int, g: HeaderDigest)
    requires look(d, r, g) is Some,
    ensures h_dig(look(d, r, g)->0) == g,
{ let a = choose|a: AuthorityIdentifier| #[trigger] hit(d, r, a, g); }
// ---- support
/// the authors whose certificate of round `q` cites `g`
pub open spec fn backers(d: SDag, q: Round, g: HeaderDigest) -> Set<AuthorityIdentifier> { row(d, q).dom().filter(|a: AuthorityIdentifier| h_parents(row(d, q)[a].1.header)@.contains(g)) }
pub open spec fn rows_ok(d: SDag, c: Committee) -> bool { forall|r: Round, a: AuthorityIdentifier| #[trigger] has(d, r, a) ==> members(c).contains(a) }
pub open spec fn keys_of(l: Seq<(AuthorityIdentifier, (HeaderDigest, Certificate))>) -> Seq<AuthorityIdentifier> { l.map_values(|e: (AuthorityIdentifier, (HeaderDigest, Certificate))| e.0) }
proof fn lemma_ones(s: Seq<u64>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 1,
    ensures seq_sum(s) == s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_ones(s.drop_last()); } }
pub open spec fn tallied(d: SDag, q: Round, g: HeaderDigest, l: Seq<(AuthorityIdentifier, (HeaderDigest, Certificate))>, v: Seq<&(HeaderDigest, Certificate)>, f: Seq<&(HeaderDigest, Certificate)>, ix: Seq<int>) -> bool {
    &&& v.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> *(#[trigger] v[i]) == l[i].1
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] ix.contains(i) <==> h_parents((*v[i]).1.header)@.contains(g))
}
proof fn lemma_tally(c: Committee, d: SDag, q: Round, g: HeaderDigest, l: Seq<(AuthorityIdentifier, (HeaderDigest, Certificate))>, v: Seq<&(HeaderDigest, Certificate)>, f: Seq<&(HeaderDigest, Certificate)>, ix: Seq<int>)
    requires dag_wf(d), rows_ok(d, c), d.contains_key(q), lists(l, d[q]@), picks(v, f, ix), tallied(d, q, g, l, v, f, ix),
    ensures f.len() == backers(d, q, g).len(), f.len() <= csize(c), forall|j: int| 0 <= j < f.len() ==> members(c).contains(h_author((#[trigger] f[j]).1.header)),
{
    let ks = Seq::new(ix.len(), |j: int| l[ix[j]].0);
    assert(ks.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by { if i < j { assert(ix[i] < ix[j]); assert(l[ix[i]].0 != l[ix[j]].0); } else { assert(ix[j] < ix[i]); assert(l[ix[j]].0 != l[ix[i]].0); } } }
    ks.unique_seq_to_set();
    assert forall|a: AuthorityIdentifier| #[trigger] ks.to_set().contains(a) <==> backers(d, q, g).contains(a) by {
        if ks.to_set().contains(a) { let j = ks.index_of(a); assert(ks[j] == a); assert(ix.contains(ix[j])); assert(l[ix[j]].0 == a); assert(d[q]@.contains_key(a)); assert(row(d, q).dom().contains(a)); }
        if backers(d, q, g).contains(a) { assert(row(d, q).contains_key(a)); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == a; assert(*(v[i]) == l[i].1); assert(ix.contains(i)); let j = ix.index_of(i); assert(ks[j] == a); assert(ks.contains(a)); }
    }
    assert(ks.to_set() =~= backers(d, q, g));
    assert forall|a: AuthorityIdentifier| #[trigger] ks.to_set().contains(a) implies members(c).contains(a) by { assert(backers(d, q, g).contains(a)); assert(has(d, q, a)); }
    vstd::set_lib::lemma_len_subset(ks.to_set(), members(c));
    assert forall|j: int| 0 <= j < f.len() implies members(c).contains(h_author((#[trigger] f[j]).1.header)) by { assert(f[j] == v[ix[j]]); let k = ix[j]; assert(*(v[k]) == l[k].1); assert(has(d, q, l[k].0)); assert(at(d, q, l[k].0) == l[k].1.1.header); }
}
proof fn lemma_tally_all(c: Committee, d: SDag, q: Round, g: HeaderDigest)
    requires dag_wf(d), rows_ok(d, c),
    ensures d.contains_key(q) ==> forall|l: Seq<(AuthorityIdentifier, (HeaderDigest, Certificate))>, v: Seq<&(HeaderDigest, Certificate)>, f: Seq<&(HeaderDigest, Certificate)>, ix: Seq<int>| #![trigger lists(l, d[q]@), picks(v, f, ix)]
        lists(l, d[q]@) && picks(v, f, ix) && tallied(d, q, g, l, v, f, ix) ==> f.len() == backers(d, q, g).len() && f.len() <= csize(c) && forall|j: int| 0 <= j < f.len() ==> members(c).contains(h_author((#[trigger] f[j]).1.header)),
{
    if d.contains_key(q) {
    assert forall|l: Seq<(AuthorityIdentifier, (HeaderDigest, Certificate))>, v: Seq<&(HeaderDigest, Certificate)>, f: Seq<&(HeaderDigest, Certificate)>, ix: Seq<int>| #![trigger lists(l, d[q]@), picks(v, f, ix)]
        lists(l, d[q]@) && picks(v, f, ix) && tallied(d, q, g, l, v, f, ix) implies f.len() == backers(d, q, g).len() && f.len() <= csize(c) && forall|j: int| 0 <= j < f.len() ==> members(c).contains(h_author((#[trigger] f[j]).1.header)) by { lemma_tally(c, d, q, g, l, v, f, ix); }
    }
}
// ---- scores
pub uninterp spec fn zeros(c: Committee) -> Map<AuthorityIdentifier, u64>;
pub axiom fn ax_zeros(c: Committee) ensures (#[trigger] zeros(c)).dom() == members(c), forall|a: AuthorityIdentifier| #[trigger] zeros(c).contains_key(a) ==> zeros(c)[a] == 0;
pub open spec fn divides(b: u64, a: u64) -> bool { if b == 0 { a == 0 } else { a % b == 0 } }
/// one point for every certificate of the round after the last leader that cites it
pub open spec fn scored(m: Map<AuthorityIdentifier, u64>, hs: Seq<Header>, n: int, lr: int, ld: HeaderDigest) -> Map<AuthorityIdentifier, u64> decreases n {
    if n <= 0 { m } else {
        let p = scored(m, hs, n - 1, lr, ld); let h = hs[n - 1];
        if h_round(h) == lr + 1 && h_parents(h)@.contains(ld) { p.insert(h_author(h), if p.contains_key(h_author(h)) { (p[h_author(h)] + 1) as u64 } else { 1 }) } else { p }
    }
}
pub open spec fn base_scores(c: Committee, num: u32, prev: Option<CommittedSubDag>, idx: u64) -> Map<AuthorityIdentifier, u64> {
    match prev { Some(p) if !divides(num as u64, idx / 2) => p.inner.reputation_scores.scores_per_authority@, _ => zeros(c) }
}
pub open spec fn scores_of(c: Committee, num: u32, prev: Option<CommittedSubDag>, hs: Seq<Header>, idx: u64) -> Map<AuthorityIdentifier, u64> {
    match prev { Some(p) => scored(base_scores(c, num, prev, idx), hs, hs.len() as int, h_round(p.inner.headers@.last()) as int, h_dig(p.inner.headers@.last())), None => base_scores(c, num, prev, idx) }
}
impl ReputationScores {
    #[verifier::external_body] pub fn new(committee: &Committee) -> (r: Self) ensures r.scores_per_authority@ == zeros(*committee), !r.final_of_schedule { unimplemented!() }
    /// exact sum (C20), 64-bit overflow left out
    #[verifier::external_body] pub fn add_score(&mut self, authority: &AuthorityIdentifier, score: u64)
        ensures final(self).final_of_schedule == old(self).final_of_schedule, final(self).scores_per_authority@ == old(self).scores_per_authority@.insert(*authority, if old(self).scores_per_authority@.contains_key(*authority) { (old(self).scores_per_authority@[*authority] + score) as u64 } else { score }) { unimplemented!() }
    #[verifier::external_body] pub fn total_authorities(&self) -> (r: u64) ensures r == self.scores_per_authority@.dom().len() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_siter<'a>(s: &'a [Certificate]) -> (r: VIter<&'a Certificate>) ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] #![trigger s@[i]] 0 <= i < r@.len() ==> *(r@[i]) == s@[i] { unimplemented!() }
impl Bullshark {
//@fn file=crates/consensus/primary/src/consensus/bullshark.rs path="impl Bullshark :: fn resolve_reputation_score" ret=r
//@desugar bool.then_some
//@desugar opt.ok_or_else
//@sub? /for (\w+) in (\w+)\.iter\(\)\.filter\(\|(\w+)\| ([^{]*?)\) \{(\s*if [^{]*\{[^{}]*\})\s*\}/ => for \1 in vx_siter(\2).vx_vec() { let \3 = &\1; if \4 {\5 } }
//@sub? /for (\w+) in (committed_sequence)(?:\.iter\(\))? \{/ => for \1 in vx_siter(\2).vx_vec() {
//@loop 0 iter=it
    invariant
        self == old_self, it.seq().len() == cs.len(), forall|i: int| 0 <= i < cs.len() ==> *(#[trigger] it.seq()[i]) == cs[i],
        leader_round < u32::MAX,
        reputation_score.scores_per_authority@ == scored(base, heads(cs), it.index() as int, leader_round as int, leader_digest),
//@beforeloop 0
    let ghost base = reputation_score.scores_per_authority@; let ghost cs = committed_sequence@; let ghost old_self = self;
//@spec
    requires old(state).last_committed_sub_dag matches Some(p) ==> p.wf() && h_round(p.inner.headers@.last()) < u32::MAX,
    ensures
        *final(state) == *old(state),
        ({
            let m = scores_of(self.committee, self.num_sub_dags_per_schedule, old(state).last_committed_sub_dag, heads(committed_sequence@), sub_dag_index);
            match r {
                Ok(s) => s.scores_per_authority@ == m && s.final_of_schedule == divides(self.num_sub_dags_per_schedule as u64, (sub_dag_index / 2 + 1) as u64) && m.dom().len() == csize(self.committee),
                Err(_) => (m.dom().len() as u64) as usize != csize(self.committee),
            }
        }),
//@end
//@fn file=crates/consensus/primary/src/consensus/bullshark.rs path="impl Bullshark :: fn update_leader_schedule" ret=r
//@spec
    requires old(self).bad_nodes_stake_threshold <= 33,
    ensures
        r == reputation_scores.final_of_schedule,
        *final(self) == (Bullshark { leader_schedule: final(self).leader_schedule, ..*old(self) }),
        final(self).leader_schedule == next_schedule(old(self).leader_schedule, old(self).committee, leader_round, *reputation_scores, old(self).bad_nodes_stake_threshold),
//@end
//@fn file=crates/consensus/primary/src/consensus/bullshark.rs path="impl Bullshark :: fn update_max_inserted_round"
//@sub? /self\s*\.max_inserted_certificate_round\s*\.max\(/ => vx_max32(self.max_inserted_certificate_round, 
//@spec
    ensures *final(self) == (Bullshark { max_inserted_certificate_round: final(self).max_inserted_certificate_round, ..*old(self) }),
//@end
}
pub fn vx_max32(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn vx_min32(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub open spec fn next_schedule(s: LeaderSchedule, c: Committee, r: Round, sc: ReputationScores, t: u64) -> LeaderSchedule { if sc.final_of_schedule { with_table(s, table_of(c, r, sc.scores_per_authority@, t)) } else { s } }

// ---- one commit
/// what decides the next commit
pub struct Snap { pub lc: Lc, pub dag: SDag, pub cr: int, pub sub: Option<CommittedSubDag>, pub seed: B256, pub sched: LeaderSchedule }
/// what does not change during an epoch
pub struct Fixed { pub c: Committee, pub num: u32, pub thr: u64, pub gcd: u32 }
pub open spec fn noted_all(lc: Lc, hs: Seq<Header>, n: int) -> Lc decreases n { if n <= 0 { lc } else { noted(noted_all(lc, hs, n - 1), hs[n - 1]) } }
pub open spec fn top(cr: int, hs: Seq<Header>, n: int) -> int decreases n { if n <= 0 { cr } else { let t = top(cr, hs, n - 1); if t >= h_round(hs[n - 1]) { t } else { h_round(hs[n - 1]) as int } } }
/// what is left after collecting the rounds up to `gc`
pub open spec fn kept(d0: SDag, d1: SDag, gc: int) -> bool {
    &&& forall|r: Round| #[trigger] d1.contains_key(r) <==> d0.contains_key(r) && r > gc
    &&& forall|r: Round| #[trigger] d1.contains_key(r) ==> d1[r] == d0[r]
}
pub open spec fn snap(st: ConsensusState, sc: LeaderSchedule) -> Snap { Snap { lc: st.last_committed@, dag: st.dag@, cr: st.last_round.committed_round as int, sub: st.last_committed_sub_dag, seed: st.seed(), sched: sc } }
impl Bullshark { pub open spec fn fixed(self, st: ConsensusState) -> Fixed { Fixed { c: self.committee, num: self.num_sub_dags_per_schedule, thr: self.bad_nodes_stake_threshold, gcd: st.gc_depth } } }
pub open spec fn final_at(f: Fixed, l: Header) -> bool { divides(f.num as u64, (nonce_of(l) / 2 + 1) as u64) }
/// committing the leader `l` at `a` gives `sub` and leads to `b`
pub open spec fn commits(f: Fixed, a: Snap, l: Certificate, sub: CommittedSubDag, b: Snap) -> bool {
    let hs = sub.inner.headers@; let h = l.header;
    &&& a.cr < h_round(h) && has(a.dag, h_round(h), h_author(h)) && a.dag[h_round(h)]@[h_author(h)].1 == l
    // the leader and the uncommitted part of its causal history, sorted by round
    &&& by_round(flat(a.dag, a.lc, sat(h_round(h) as int, f.gcd as int), h), hs) && hist(a.dag, a.lc, sat(h_round(h) as int, f.gcd as int), h, flat(a.dag, a.lc, sat(h_round(h) as int, f.gcd as int), h))
    &&& finite(a.dag, a.lc, sat(h_round(h) as int, f.gcd as int), h)
    &&& sub.inner.reputation_scores.scores_per_authority@ == scores_of(f.c, f.num, a.sub, hs, nonce_of(h)) && sub.inner.reputation_scores.final_of_schedule == final_at(f, h)
    &&& sub.inner.commit_timestamp == (if prev_time(a.sub) >= h_time(h) { prev_time(a.sub) } else { h_time(h) })
    &&& sub.inner.randomness == randomness_of(l, a.seed)
    &&& b.lc == noted_all(a.lc, hs, hs.len() as int) && b.cr == h_round(h) && kept(a.dag, b.dag, sat(h_round(h) as int, f.gcd as int))
    &&& b.sub == Some(sub) && b.seed == sub.inner.randomness
    &&& b.sched == (if final_at(f, h) { with_table(a.sched, table_of(f.c, h_round(h), sub.inner.reputation_scores.scores_per_authority@, f.thr)) } else { a.sched })
}
/// one commit after the other
pub open spec fn trail_ok(f: Fixed, t: Seq<Snap>, ls: Seq<Certificate>, subs: Seq<CommittedSubDag>) -> bool {
    &&& t.len() == subs.len() + 1 && ls.len() == subs.len()
    &&& forall|i: int| #![trigger subs[i]] 0 <= i < subs.len() ==> commits(f, t[i], ls[i], subs[i], t[i + 1])
}
impl ConsensusState { pub closed spec fn seed(self) -> B256 { self.seed_chain.0 }
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn seed_chain" ret=r
//@spec
    ensures r.0 == self.seed(),
//@end
//@fn file=crates/consensus/primary/src/consensus/state.rs path="impl ConsensusState :: fn set_seed_chain"
//@spec
    ensures final(self).seed() == seed_chain.0, *final(self) == (ConsensusState { seed_chain: final(self).seed_chain, ..*old(self) }),
//@end
}
proof fn lemma_top(cr: int, hs: Seq<Header>, n: int)
    requires 0 <= n <= hs.len(),
    ensures cr <= top(cr, hs, n), forall|i: int| 0 <= i < n ==> h_round(#[trigger] hs[i]) <= top(cr, hs, n), top(cr, hs, n) == cr || exists|i: int| 0 <= i < n && h_round(#[trigger] hs[i]) == top(cr, hs, n),
    decreases n,
{ if n > 0 { lemma_top(cr, hs, n - 1); } }
proof fn lemma_ones_all()
    ensures forall|s: Seq<u64>| (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 1) ==> #[trigger] seq_sum(s) == s.len(),
{ assert forall|s: Seq<u64>| (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 1) implies #[trigger] seq_sum(s) == s.len() by { lemma_ones(s); } }
/// what is in a chain of leaders
pub open spec fn lead_ok(d: SDag, c: Certificate) -> bool { has(d, h_round(c.header), h_author(c.header)) && d[h_round(c.header)]@[h_author(c.header)].1 == c }
proof fn lemma_walk(d: SDag, s: LeaderSchedule, cur: Header, r: int, stop: int)
    requires dag_wf(d), r < h_round(cur), r % 2 == 0,
    ensures ({ let w = walk(d, s, cur, r, stop);
        &&& forall|i: int| 0 <= i < w.len() ==> lead_ok(d, #[trigger] w[i]) && stop < h_round(w[i].header) <= r && h_round(w[i].header) % 2 == 0
        &&& forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() ==> h_round(w[i].header) > h_round(w[j].header) }),
    decreases (if r > stop { r - stop } else { 0 }),
{
    if !(r <= stop || r < 0) {
        match leader_cert(s, d, r as Round) {
            Some(p) if reach(d, cur, r, p.header) => {
                assert(has(d, r as Round, leader_of(s, r as Round).aid)); assert(h_round(p.header) == r);
                lemma_walk(d, s, p.header, r - 2, stop);
                let w0 = walk(d, s, p.header, r - 2, stop); let w = walk(d, s, cur, r, stop);
                assert(w == seq![p] + w0);
                assert forall|i: int| 0 <= i < w.len() implies lead_ok(d, #[trigger] w[i]) && stop < h_round(w[i].header) <= r && h_round(w[i].header) % 2 == 0 by { if i > 0 { assert(w[i] == w0[i - 1]); } }
                assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies h_round(w[i].header) > h_round(w[j].header) by { if i > 0 { assert(w[i] == w0[i - 1]); } assert(w[j] == w0[j - 1]); }
            }
            _ => { lemma_walk(d, s, cur, r - 2, stop); }
        }
    }
}
proof fn lemma_chain(d: SDag, s: LeaderSchedule, l: Certificate, stop: int)
    requires dag_wf(d), lead_ok(d, l), h_round(l.header) % 2 == 0, h_round(l.header) >= 2, stop >= 0,
    ensures ({ let c = chain(d, s, l, stop);
        &&& c.len() >= 1 && c.last() == l
        &&& forall|i: int| 0 <= i < c.len() ==> lead_ok(d, #[trigger] c[i]) && (i < c.len() - 1 ==> h_round(c[i].header) > stop) && h_round(c[i].header) % 2 == 0
        &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() ==> h_round(c[i].header) < h_round(c[j].header) }),
{
    let r = h_round(l.header) - 2;
    lemma_walk(d, s, l.header, r, stop);
    let w = walk(d, s, l.header, r, stop); let v = seq![l] + w; let c = chain(d, s, l, stop); let n = v.len() as int;
    assert(c == v.reverse());
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] == (if i == n - 1 { l } else { w[n - 2 - i] }) by { }
}
pub open spec fn after(st: ConsensusState, me: Bullshark, l: Header, sd: CommittedSubDag) -> Snap {
    Snap { lc: st.last_committed@, dag: st.dag@, cr: h_round(l) as int, sub: Some(sd), seed: sd.inner.randomness, sched: next_schedule(me.leader_schedule, me.committee, h_round(l), sd.inner.reputation_scores, me.bad_nodes_stake_threshold) }
}
/// the leaders committed on the way to `l`
pub open spec fn plan(a: Snap, l: Certificate) -> Seq<Certificate> { chain(a.dag, a.sched, l, a.cr + 1) }
pub open spec fn supported(f: Fixed, d: SDag, l: Certificate) -> bool { backers(d, (h_round(l.header) + 1) as Round, h_dig(l.header)).len() >= validity(csize(f.c)) }
/// `subs` commits the first leaders of the plan, up to the first that ends a schedule
pub open spec fn commits_some(f: Fixed, a: Snap, l: Certificate, subs: Seq<CommittedSubDag>, b: Snap) -> bool {
    let ch = plan(a, l);
    &&& 1 <= subs.len() <= ch.len()
    &&& exists|t: Seq<Snap>| #[trigger] trail_ok(f, t, ch.take(subs.len() as int), subs) && t[0] == a && t.last() == b
    &&& forall|i: int| 0 <= i < subs.len() - 1 ==> !final_at(f, (#[trigger] ch[i]).header)
}
/// one attempt to commit the leader of a round
pub open spec fn attempt(f: Fixed, a: Snap, r: Round, o: Outcome, subs: Seq<CommittedSubDag>, b: Snap) -> bool {
    match leader_cert(a.sched, a.dag, r) {
        None => o == Outcome::LeaderNotFound && subs.len() == 0 && a == b,
        Some(l) => if !supported(f, a.dag, l) { o == Outcome::NotEnoughSupportForLeader && subs.len() == 0 && a == b } else {
            &&& commits_some(f, a, l, subs, b)
            &&& o == Outcome::Commit && subs.len() == plan(a, l).len() || o == Outcome::ScheduleChanged && subs.len() < plan(a, l).len() && final_at(f, plan(a, l)[subs.len() - 1].header)
        },
    }
}
proof fn lemma_scored_dom(m: Map<AuthorityIdentifier, u64>, hs: Seq<Header>, n: int, lr: int, ld: HeaderDigest, s: Set<AuthorityIdentifier>)
    requires m.dom() == s, 0 <= n <= hs.len(), forall|i: int| 0 <= i < hs.len() ==> s.contains(h_author(#[trigger] hs[i])),
    ensures scored(m, hs, n, lr, ld).dom() == s,
    decreases n,
{ if n > 0 { lemma_scored_dom(m, hs, n - 1, lr, ld, s); assert(s.contains(h_author(hs[n - 1]))); assert(scored(m, hs, n, lr, ld).dom() =~= s); } }
proof fn lemma_scores_dom(c: Committee, num: u32, prev: Option<CommittedSubDag>, hs: Seq<Header>, idx: u64)
    requires forall|i: int| 0 <= i < hs.len() ==> members(c).contains(h_author(#[trigger] hs[i])), prev matches Some(p) ==> p.inner.reputation_scores.scores_per_authority@.dom() == members(c),
    ensures scores_of(c, num, prev, hs, idx).dom() == members(c),
{
    ax_zeros(c);
    match prev { Some(p) => { lemma_scored_dom(base_scores(c, num, prev, idx), hs, hs.len() as int, h_round(p.inner.headers@.last()) as int, h_dig(p.inner.headers@.last()), members(c)); } None => {} }
}
impl Bullshark {
    /// the state the commit rule runs on
    pub open spec fn live(self, st: ConsensusState) -> bool {
        &&& st.wf() && st.gc_depth >= 1 && rows_ok(st.dag@, self.committee) && self.committee.wf() && self.bad_nodes_stake_threshold <= 33
        &&& st.last_committed_sub_dag matches Some(p) ==> p.wf() && h_round(p.inner.headers@.last()) <= st.last_round.committed_round && p.inner.reputation_scores.scores_per_authority@.dom() == members(self.committee)
    }
//@fn file=crates/consensus/primary/src/consensus/bullshark.rs path="impl Bullshark :: fn commit_leader" ret=r
//@desugar opt.ok_or
//@sub? /let _span = [^;]*;/ => 
//@sub? /\butils::order_dag/ => order_dag
//@sub? /for (\w+) in &(\w+) \{/ => for \1 in \2.iter().vx_vec() {
//@sub? /for (\w+) in (\w+)\.iter\(\) \{/ => for \1 in \2.iter().vx_vec() {
//@sub? /\bmin_round\.min\(/ => vx_min32(min_round, 
//@sub? /\.filter\(/ => .vx_keep(
//@clos vx_keep.0 &&(HeaderDigest, Certificate) -> (b: bool)
    ensures b == h_parents(($0).1.header)@.contains(leader_digest)
//@clos map.0 &(HeaderDigest, Certificate) -> (p: VotingPower)
    ensures p == (if members(self.committee).contains(h_author(($0).1.header)) { 1u64 } else { 0 })
//@head
    let ghost st0 = *state; let ghost me0 = *self; let ghost f = self.fixed(*state);
//@before? /let voting_power\b/
    proof { lemma_tally_all(self.committee, state.dag@, (leader_round + 1) as Round, leader_digest); lemma_ones_all(); }
//@before? /if voting_power </
    proof { assert(voting_power == backers(st0.dag@, (leader_round + 1) as Round, leader_digest).len()); }
//@beforeloop 0
    let ghost ld = *leader; let ghost ch = leaders_to_commit@; let ghost mut k: int = 0; let ghost mut tr: Seq<Snap> = seq![snap(st0, me0.leader_schedule)];
    proof { lemma_chain(st0.dag@, me0.leader_schedule, *leader, st0.last_round.committed_round + 1); assert(ch.skip(0) =~= ch); }
//@loop 0
    invariant
        me0 == *old(self), st0 == *old(state), f == me0.fixed(st0), ch == plan(snap(st0, me0.leader_schedule), ld), leader_cert(me0.leader_schedule, st0.dag@, leader_round) == Some(ld), supported(f, st0.dag@, ld),
        0 <= k <= ch.len(), ch.len() >= 1, leaders_to_commit@ == ch.skip(k), f == self.fixed(*state),
        self.live(*state), *self == (Bullshark { leader_schedule: self.leader_schedule, ..me0 }),
        forall|i: int| 0 <= i < ch.len() ==> lead_ok(st0.dag@, #[trigger] ch[i]) && h_round(ch[i].header) > st0.last_round.committed_round,
        forall|i: int, j: int| #![trigger ch[i], ch[j]] 0 <= i < j < ch.len() ==> h_round(ch[i].header) < h_round(ch[j].header),
        h_round(ch.last().header) <= leader_round, leader_round < u32::MAX,
        state.last_round.committed_round == (if k == 0 { st0.last_round.committed_round } else { h_round(ch[k - 1].header) }),
        kept(st0.dag@, state.dag@, state.gc()),
        tr.len() == k + 1, tr[0] == snap(st0, me0.leader_schedule), tr[k] == snap(*state, self.leader_schedule),
        trail_ok(f, tr, ch.take(k), committed_sub_dags@),
        forall|i: int| 0 <= i < k && i < ch.len() - 1 ==> !final_at(f, (#[trigger] ch[i]).header),
    ensures k == ch.len(),
    decreases ch.len() - k,
//@loophead 0
    let ghost a = tr[k]; let ghost st1 = *state; let ghost me1 = *self; let ghost tr0 = tr; let ghost cs0 = committed_sub_dags@;
    proof {
        assert(leader == ch[k]); assert(lead_ok(st0.dag@, ch[k])); if k > 0 { assert(h_round(ch[k - 1].header) < h_round(ch[k].header)); }
        assert(ch.skip(k).drop_first() =~= ch.skip(k + 1));
        k = k + 1;
        if k < ch.len() { assert(h_round(ch[k - 1].header) < h_round(ch.last().header)); }
        assert(st0.dag@.contains_key(h_round(leader.header))); assert(st1.dag@.contains_key(h_round(leader.header)));
        assert(has(st1.dag@, h_round(leader.header), h_author(leader.header)));
    }
//@beforeloop 1
    let ghost hs = heads(sequence@); let ghost l = leader.header;
    proof { lemma_sub(st1.dag@, st1.last_committed@, sat(h_round(l) as int, st1.gc_depth as int), l, st1.flat(l), hs);
        assert(kept(st1.dag@, st1.dag@, st1.gc())); }
//@loop 1 iter=it
    invariant
        state.wf(), state.gc_depth == st1.gc_depth, state.last_committed_sub_dag == st1.last_committed_sub_dag, state.seed_chain == st1.seed_chain,
        it.seq().len() == hs.len(), forall|i: int| 0 <= i < hs.len() ==> (#[trigger] it.seq()[i]).header == hs[i], hs == heads(sequence@),
        state.last_committed@ == noted_all(st1.last_committed@, hs, it.index() as int), state.last_round.committed_round == top(st1.last_round.committed_round as int, hs, it.index() as int),
        kept(st1.dag@, state.dag@, state.gc()), kept(st0.dag@, state.dag@, state.gc()),
//@loophead 1
    proof { assert(x.header == hs[it.index() as int]); }
//@afterloop 1
    proof {
        let n = hs.len() as int;
        lemma_top(st1.last_round.committed_round as int, hs, n);
        assert(h_round(hs[n - 1]) == h_round(l));
        assert(state.last_round.committed_round == h_round(l));
        assert forall|i: int| 0 <= i < n implies members(self.committee).contains(h_author(#[trigger] hs[i])) by {
            if i < n - 1 { lemma_look_is(st1.dag@, h_round(hs[i]) as int, h_dig(hs[i])); assert(has(st1.dag@, h_round(hs[i]), h_author(hs[i]))); } else { assert(has(st1.dag@, h_round(l), h_author(l))); }
        }
        lemma_scores_dom(self.committee, self.num_sub_dags_per_schedule, st1.last_committed_sub_dag, hs, sub_dag_index);
        assert(rows_ok(state.dag@, self.committee)) by { assert forall|r: Round, a: AuthorityIdentifier| #[trigger] has(state.dag@, r, a) implies members(self.committee).contains(a) by { assert(state.dag@.contains_key(r)); assert(has(st1.dag@, r, a)); } }
    }
//@after? /let sub_dag\b[^;]*;/
    let ghost sd = sub_dag;
    proof {
let b = after(*state, me1, l, sd);
        assert(commits(f, a, ch[k - 1], sd, b));
        tr = tr.push(b);
        let subs = cs0.push(sd);
        assert(trail_ok(f, tr, ch.take(k), subs)) by {
            assert forall|i: int| #![trigger subs[i]] 0 <= i < subs.len() implies commits(f, tr[i], ch.take(k)[i], subs[i], tr[i + 1]) by { if i < k - 1 { assert(subs[i] == cs0[i]); assert(ch.take(k - 1)[i] == ch.take(k)[i]); assert(tr0[i + 1] == tr[i + 1]); } }
        }
    }
//@before? /return Ok\(\(Outcome::ScheduleChanged/
    proof { assert(ch.take(k).len() == k); }
//@spec
    requires old(self).live(*old(state)), leader_round % 2 == 0, leader_round >= 2, leader_round < u32::MAX, leader_round > old(state).last_round.committed_round,
    ensures
        *final(self) == (Bullshark { leader_schedule: final(self).leader_schedule, ..*old(self) }), final(state).gc_depth == old(state).gc_depth, final(self).live(*final(state)),
        kept(old(state).dag@, final(state).dag@, final(state).gc()), final(state).last_round.committed_round <= leader_round,
        match r {
            Err(_) => !old(state).dag@.contains_key((leader_round + 1) as Round) && *final(state) == *old(state) && *final(self) == *old(self),
            Ok((o, subs)) => attempt(old(self).fixed(*old(state)), snap(*old(state), old(self).leader_schedule), leader_round, o, subs@, snap(*final(state), final(self).leader_schedule)),
        },
//@end
}

// ---- the rule, one commit at a time
/// the leader of round `r` under the schedule of `a`
pub open spec fn lead(a: Snap, r: Round) -> Certificate { leader_cert(a.sched, a.dag, r)->0 }
/// the next commit on the way to the leader of round `r`: that leader is there and has enough support, and the oldest leader of its chain is committed
pub open spec fn rule(f: Fixed, r: Round, a: Snap, sub: CommittedSubDag, b: Snap) -> bool {
    &&& leader_cert(a.sched, a.dag, r) is Some && supported(f, a.dag, lead(a, r)) && a.cr < r && r % 2 == 0 && r < u32::MAX
    &&& plan(a, lead(a, r)).len() >= 1 && commits(f, a, plan(a, lead(a, r))[0], sub, b)
}
pub open spec fn whole(f: Fixed, r: Round, t: Seq<Snap>, subs: Seq<CommittedSubDag>) -> bool {
    &&& t.len() == subs.len() + 1
    &&& forall|i: int| #![trigger subs[i]] 0 <= i < subs.len() ==> rule(f, r, t[i], subs[i], t[i + 1])
}
/// nothing more to commit on the way to the leader of round `r`
pub open spec fn stuck(f: Fixed, r: Round, b: Snap) -> bool { b.cr == r || leader_cert(b.sched, b.dag, r) is None || !supported(f, b.dag, lead(b, r)) }
proof fn lemma_reach_kept(d0: SDag, d1: SDag, gc: int, l: Header, r: int, h: Header)
    requires dag_wf(d0), kept(d0, d1, gc), r > gc,
    ensures reach(d0, l, r, h) == reach(d1, l, r, h),
    decreases (if h_round(l) > r { h_round(l) - r } else { 0 }),
{
    if r < h_round(l) {
        lemma_look_kept(d0, d1, gc, r, h_dig(h));
        if reach(d0, l, r, h) { let x = choose|x: Header| reach(d0, l, r + 1, x) && #[trigger] h_parents(x)@.contains(h_dig(h)); lemma_reach_kept(d0, d1, gc, l, r + 1, x); }
        if reach(d1, l, r, h) { let x = choose|x: Header| reach(d1, l, r + 1, x) && #[trigger] h_parents(x)@.contains(h_dig(h)); lemma_reach_kept(d0, d1, gc, l, r + 1, x); }
    }
}
proof fn lemma_look_kept(d0: SDag, d1: SDag, gc: int, r: int, g: HeaderDigest)
    requires dag_wf(d0), kept(d0, d1, gc), r > gc,
    ensures look(d0, r, g) == look(d1, r, g),
{
    let q = r as Round;
    if look(d0, r, g) is Some { let a = choose|a: AuthorityIdentifier| #[trigger] hit(d0, r, a, g); assert(has(d0, q, a)); assert(d1.contains_key(q)); assert(hit(d1, r, a, g)); }
    if look(d1, r, g) is Some { let a = choose|a: AuthorityIdentifier| #[trigger] hit(d1, r, a, g); assert(has(d1, q, a)); assert(d1.contains_key(q)); assert(hit(d0, r, a, g));
        let b = choose|b: AuthorityIdentifier| #[trigger] hit(d0, r, b, g); assert(has(d0, q, b)); ax_digest(at(d0, q, b), at(d1, q, a)); }
}
/// with older rounds committed and collected, the walk is the same down to where it stops
proof fn lemma_walk_cut(d0: SDag, d1: SDag, gc: int, s: LeaderSchedule, cur: Header, r: int, stop0: int, stop1: int) -> (n: int)
    requires dag_wf(d0), kept(d0, d1, gc), gc < stop1, stop0 <= stop1, r < h_round(cur), r % 2 == 0, stop0 >= 0,
    ensures ({ let w0 = walk(d0, s, cur, r, stop0);
        &&& 0 <= n <= w0.len() && walk(d1, s, cur, r, stop1) == w0.take(n)
        &&& forall|i: int| 0 <= i < n ==> h_round((#[trigger] w0[i]).header) > stop1
        &&& forall|i: int| n <= i < w0.len() ==> h_round((#[trigger] w0[i]).header) <= stop1 }),
    decreases (if r > stop0 { r - stop0 } else { 0 }),
{
    let w0 = walk(d0, s, cur, r, stop0);
    lemma_walk(d0, s, cur, r, stop0);
    if r <= stop1 || r < 0 { assert(walk(d1, s, cur, r, stop1) =~= w0.take(0)); 0 }
    else {
        let q = r as Round; let a = leader_of(s, q).aid;
        assert(has(d0, q, a) == has(d1, q, a)) by { assert(d0.contains_key(q) == d1.contains_key(q)); if d1.contains_key(q) { assert(d1[q] == d0[q]); } }
        assert(leader_cert(s, d0, q) == leader_cert(s, d1, q)) by { if has(d1, q, a) { assert(d1.contains_key(q)); } }
        match leader_cert(s, d0, q) {
            Some(p) => {
                assert(has(d0, q, a)); assert(h_round(p.header) == r);
                lemma_reach_kept(d0, d1, gc, cur, r, p.header);
                if reach(d0, cur, r, p.header) {
                    let m = lemma_walk_cut(d0, d1, gc, s, p.header, r - 2, stop0, stop1);
                    let v0 = walk(d0, s, p.header, r - 2, stop0);
                    assert(w0 == seq![p] + v0);
                    assert(walk(d1, s, cur, r, stop1) =~= w0.take(m + 1));
                    assert forall|i: int| 0 <= i < m + 1 implies h_round((#[trigger] w0[i]).header) > stop1 by { if i > 0 { assert(w0[i] == v0[i - 1]); } }
                    assert forall|i: int| m + 1 <= i < w0.len() implies h_round((#[trigger] w0[i]).header) <= stop1 by { assert(w0[i] == v0[i - 1]); }
                    m + 1
                } else { lemma_walk_cut(d0, d1, gc, s, cur, r - 2, stop0, stop1) }
            }
            None => { lemma_walk_cut(d0, d1, gc, s, cur, r - 2, stop0, stop1) }
        }
    }
}
/// after the first `i` commits, the plan is the rest of the plan
proof fn lemma_plan_rest(a: Snap, b: Snap, l: Certificate, i: int, gc: int)
    requires dag_wf(a.dag), a.cr >= 0, lead_ok(a.dag, l), h_round(l.header) % 2 == 0, h_round(l.header) >= 2, h_round(l.header) > a.cr, kept(a.dag, b.dag, gc), gc <= b.cr, a.sched == b.sched,
        0 <= i < plan(a, l).len(), b.cr == (if i == 0 { a.cr } else { h_round(plan(a, l)[i - 1].header) as int }),
    ensures plan(b, l) == plan(a, l).skip(i),
{
    let r = h_round(l.header) - 2; let ch = plan(a, l); let w0 = walk(a.dag, a.sched, l.header, r, a.cr + 1);
    lemma_chain(a.dag, a.sched, l, a.cr + 1);
    if i > 0 { assert(h_round(ch[i - 1].header) > a.cr + 1); assert(h_round(ch[i - 1].header) < h_round(ch[ch.len() - 1].header)); }
    let n = lemma_walk_cut(a.dag, b.dag, gc, a.sched, l.header, r, a.cr + 1, b.cr + 1);
    let v = seq![l] + w0; let m = v.len() as int;
    assert forall|j: int| 0 <= j < m implies #[trigger] ch[j] == (if j == m - 1 { l } else { w0[m - 2 - j] }) by { }
    // the walk keeps exactly what is above the last committed leader
    assert(n == m - 1 - i) by {
        if n < m - 1 - i { assert(h_round(w0[n].header) <= b.cr + 1); assert(ch[m - 2 - n] == w0[n]); if i > 0 { assert(h_round(ch[i - 1].header) < h_round(ch[m - 2 - n].header)); assert(h_round(ch[i - 1].header) % 2 == 0 && h_round(ch[m - 2 - n].header) % 2 == 0); } else { assert(h_round(w0[n].header) > a.cr + 1); } assert(false); }
        if n > m - 1 - i { assert(h_round(w0[n - 1].header) > b.cr + 1); assert(ch[m - 1 - n] == w0[n - 1]); if i > 0 { if m - 1 - n < i - 1 { assert(h_round(ch[m - 1 - n].header) < h_round(ch[i - 1].header)); } } assert(false); }
    }
    assert(plan(b, l) =~= ch.skip(i)) by {
        let v1 = seq![l] + w0.take(n);
        assert(plan(b, l) == v1.reverse());
        assert forall|j: int| 0 <= j < m - i implies #[trigger] v1.reverse()[j] == ch.skip(i)[j] by { }
    }
}
/// one attempt follows the rule at every commit
proof fn lemma_attempt(f: Fixed, a: Snap, r: Round, o: Outcome, subs: Seq<CommittedSubDag>, b: Snap) -> (t: Seq<Snap>)
    requires attempt(f, a, r, o, subs, b), dag_wf(a.dag), closed(a.dag, sat(a.cr, f.gcd as int)), f.gcd >= 1, a.cr >= 0, a.cr < r < u32::MAX, r % 2 == 0,
    ensures whole(f, r, t, subs), t[0] == a, t.last() == b, o != Outcome::ScheduleChanged ==> stuck(f, r, b), o == Outcome::ScheduleChanged ==> subs.len() >= 1 && a.cr < b.cr < r, subs.len() == 0 ==> o != Outcome::ScheduleChanged,
        o == Outcome::ScheduleChanged || o == Outcome::Commit || o == Outcome::LeaderNotFound || o == Outcome::NotEnoughSupportForLeader,
        subs.len() == 0 ==> o != Outcome::Commit,
{
    match leader_cert(a.sched, a.dag, r) {
        None => { let t = seq![a]; t }
        Some(l) => {
            if !supported(f, a.dag, l) { let t = seq![a]; t }
            else {
                let ch = plan(a, l);
                let t = choose|t: Seq<Snap>| #[trigger] trail_ok(f, t, ch.take(subs.len() as int), subs) && t[0] == a && t.last() == b;
                assert(has(a.dag, r, leader_of(a.sched, r).aid)); assert(lead_ok(a.dag, l)); assert(h_round(l.header) == r);
                lemma_chain(a.dag, a.sched, l, a.cr + 1);
                assert forall|i: int| #![trigger subs[i]] 0 <= i < subs.len() implies rule(f, r, t[i], subs[i], t[i + 1]) by { lemma_at(f, a, r, l, subs, t, i); assert(ch.skip(i)[0] == ch[i]); assert(ch.take(subs.len() as int)[i] == ch[i]); assert(commits(f, t[i], ch.take(subs.len() as int)[i], subs[i], t[i + 1])); }
                let n = subs.len() - 1;
                assert(ch.take(subs.len() as int)[n] == ch[n]); assert(commits(f, t[n], ch.take(subs.len() as int)[n], subs[n], t[n + 1]));
                if n < ch.len() - 1 { assert(h_round(ch[n].header) < h_round(ch[ch.len() - 1].header)); }
                assert(a.cr < h_round(ch[n].header)) by { if n < ch.len() - 1 { assert(h_round(ch[n].header) > a.cr + 1); } }
                t
            }
        }
    }
}
proof fn lemma_at(f: Fixed, a: Snap, r: Round, l: Certificate, subs: Seq<CommittedSubDag>, t: Seq<Snap>, i: int)
    requires dag_wf(a.dag), closed(a.dag, sat(a.cr, f.gcd as int)), f.gcd >= 1, a.cr >= 0, a.cr < r < u32::MAX, r % 2 == 0, leader_cert(a.sched, a.dag, r) == Some(l), supported(f, a.dag, l), h_round(l.header) == r, lead_ok(a.dag, l),
        trail_ok(f, t, plan(a, l).take(subs.len() as int), subs), t[0] == a, 0 <= i < subs.len(), subs.len() <= plan(a, l).len(),
        forall|i: int| 0 <= i < subs.len() - 1 ==> !final_at(f, (#[trigger] plan(a, l)[i]).header),
    ensures plan(t[i], l) == plan(a, l).skip(i), leader_cert(t[i].sched, t[i].dag, r) == Some(l), supported(f, t[i].dag, l), t[i].cr < r,
{
    let ch = plan(a, l);
    lemma_chain(a.dag, a.sched, l, a.cr + 1);
    lemma_trail_kept(f, a, r, l, subs, t, i);
    let b = t[i];
    let gc = if i == 0 { 0 } else { sat(b.cr, f.gcd as int) };
    if i > 0 { assert(h_round(ch[i - 1].header) < h_round(ch[ch.len() - 1].header)); }
    if i == 0 { assert(plan(b, l) =~= ch.skip(0)); } else { lemma_plan_rest(a, b, l, i, gc); }
    let aid = leader_of(a.sched, r).aid;
    assert(has(a.dag, r, aid));
    if i > 0 {
        assert(b.dag.contains_key(r)); assert(has(b.dag, r, aid));
        let q = (r + 1) as Round;
        assert(a.dag.contains_key(q) == b.dag.contains_key(q)); if b.dag.contains_key(q) { assert(a.dag[q] == b.dag[q]); }
        assert(row(a.dag, q) == row(b.dag, q));
        assert(backers(a.dag, q, h_dig(l.header)) =~= backers(b.dag, q, h_dig(l.header)));
    }
}
proof fn lemma_trail_kept(f: Fixed, a: Snap, r: Round, l: Certificate, subs: Seq<CommittedSubDag>, t: Seq<Snap>, i: int)
    requires dag_wf(a.dag), a.cr >= 0, h_round(l.header) == r, r % 2 == 0, r >= 2, lead_ok(a.dag, l), a.cr < r,
        trail_ok(f, t, plan(a, l).take(subs.len() as int), subs), t[0] == a, 0 <= i < subs.len(), subs.len() <= plan(a, l).len(),
        forall|i: int| 0 <= i < subs.len() - 1 ==> !final_at(f, (#[trigger] plan(a, l)[i]).header),
    ensures i > 0 ==> kept(a.dag, t[i].dag, sat(t[i].cr, f.gcd as int)) && t[i].cr == h_round(plan(a, l)[i - 1].header), t[i].sched == a.sched, i == 0 ==> t[i] == a,
    decreases i,
{
    let ch = plan(a, l);
    if i > 0 {
        lemma_trail_kept(f, a, r, l, subs, t, i - 1);
        lemma_chain(a.dag, a.sched, l, a.cr + 1);
        assert(subs[i - 1] == subs[i - 1]);
        assert(ch.take(subs.len() as int)[i - 1] == ch[i - 1]);
        assert(commits(f, t[i - 1], ch.take(subs.len() as int)[i - 1], subs[i - 1], t[i]));
        assert(!final_at(f, ch[i - 1].header));
        let d0 = a.dag; let d1 = t[i - 1].dag; let d2 = t[i].dag; let g1 = sat(t[i - 1].cr, f.gcd as int); let g2 = sat(t[i].cr, f.gcd as int);
        assert(t[i - 1].cr < t[i].cr);
        assert forall|q: Round| #[trigger] d2.contains_key(q) <==> d0.contains_key(q) && q > g2 by { if d1.contains_key(q) { } }
        assert forall|q: Round| #[trigger] d2.contains_key(q) implies d2[q] == d0[q] by { assert(d1.contains_key(q)); }
    }
}
proof fn lemma_join(f: Fixed, r: Round, t0: Seq<Snap>, s0: Seq<CommittedSubDag>, t1: Seq<Snap>, s1: Seq<CommittedSubDag>) -> (t: Seq<Snap>)
    requires whole(f, r, t0, s0), whole(f, r, t1, s1), t0.last() == t1[0],
    ensures whole(f, r, t, s0 + s1), t[0] == t0[0], t.last() == t1.last(),
{
    let t = t0 + t1.skip(1); let s = s0 + s1; let n = s0.len() as int;
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies rule(f, r, t[i], s[i], t[i + 1]) by {
        if i < n { assert(rule(f, r, t0[i], s0[i], t0[i + 1])); } else { let j = i - n; assert(rule(f, r, t1[j], s1[j], t1[j + 1])); assert(t[i + 1] == t1[j + 1]); if j == 0 { assert(t[i] == t0.last()); } else { assert(t[i] == t1[j]); } }
    }
    t
}
#[verifier::external_body] pub fn vx_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Outcome { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Outcome { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Bullshark {
//@fn file=crates/consensus/primary/src/consensus/bullshark.rs path="impl Bullshark :: fn process_certificate" ret=r
//@sub? /Instant::now\(\)/ => instant_now()
//@sub? /for \((\w+), (\w+)\) in &state\.last_committed \{\s*\}/ => 
//@sub? /\bcommitted_sub_dags\.extend\(/ => vx_extend(&mut committed_sub_dags, 
//@head
    let ghost st0 = *state; let ghost me0 = *self; let ghost f = self.fixed(*state);
//@beforeloop 0
    let ghost st1 = *state; let ghost me1 = *self; let ghost a = snap(*state, self.leader_schedule); let ghost mut tr: Seq<Snap> = seq![a];
    proof { assert(whole(f, leader_round, tr, committed_sub_dags@)); }
//@loop 0
    invariant_except_break
        self.live(*state), tr.last() == snap(*state, self.leader_schedule), leader_round > state.last_round.committed_round,
    invariant
        me0 == *old(self), st0 == *old(state), f == me0.fixed(st0), f == self.fixed(*state), *self == (Bullshark { leader_schedule: self.leader_schedule, ..me1 }),
        state.gc_depth == st0.gc_depth, leader_round % 2 == 0, leader_round >= 2, leader_round < u32::MAX,
        whole(f, leader_round, tr, committed_sub_dags@), tr[0] == a, state.dag@.contains_key((leader_round + 1) as Round),
    ensures
        self.live(*state), tr.last() == snap(*state, self.leader_schedule), stuck(f, leader_round, tr.last()),
        committed_sub_dags@.len() == 0 ==> vx_l0 == Outcome::LeaderNotFound || vx_l0 == Outcome::NotEnoughSupportForLeader,
    decreases leader_round - state.last_round.committed_round,
//@loophead 0
    let ghost pa = snap(*state, self.leader_schedule); let ghost cs0 = committed_sub_dags@;
//@after? /self\.commit_leader\([^;]*;/
    proof {
        let t1 = lemma_attempt(f, pa, leader_round, outcome, committed@, snap(*state, self.leader_schedule));
        tr = lemma_join(f, leader_round, tr, cs0, t1, committed@);
        assert(state.dag@.contains_key((leader_round + 1) as Round));
    }
//@spec
    requires old(self).live(*old(state)), members(old(self).committee).contains(h_author(certificate.header)),
    ensures
        match r {
            // refused: a parent is missing, or its author already has another certificate of that round
            Err(_) => h_round(certificate.header) > old(state).last_round.gc_round && (!parents_ok(old(state).dag@, old(state).gc(), certificate.header) || clash(old(state).dag@, certificate.header)),
            Ok((o, subs)) => {
                let f = old(self).fixed(*old(state)); let lr = (h_round(certificate.header) - 1) as Round; let a = snap(*old(state), old(self).leader_schedule);
                let b = snap(*final(state), final(self).leader_schedule);
                &&& final(self).live(*final(state)) && final(self).fixed(*final(state)) == f
                &&& h_round(certificate.header) <= old(state).last_round.gc_round ==> b == a && subs@.len() == 0
                &&& h_round(certificate.header) > old(state).last_round.gc_round && subs@.len() == 0 ==> b == (Snap { dag: b.dag, ..a }) && placed(a.dag, b.dag, certificate)
                &&& subs@.len() > 0 ==> exists|t: Seq<Snap>| #[trigger] whole(f, lr, t, subs@) && t.last() == b
                        && t[0] == (Snap { dag: t[0].dag, ..a }) && placed(a.dag, t[0].dag, certificate)
                // whatever can be committed on the way to the leader it supports, is
                &&& subs@.len() > 0 ==> o == Outcome::Commit
                &&& h_round(certificate.header) > old(state).last_round.gc_round && !seen(a.lc, certificate.header) && lr % 2 == 0 && lr >= 2 && lr > a.cr ==> stuck(f, lr, b)
                &&& o == Outcome::CertificateBelowCommitRound <==> h_round(certificate.header) <= old(state).last_round.gc_round || seen(a.lc, certificate.header)
            },
        },
//@end
}

// ---- no certificate is committed twice, and commits go up
pub open spec fn lc_ok(a: Snap) -> bool { forall|x: AuthorityIdentifier| #[trigger] a.lc.contains_key(x) ==> a.lc[x] <= a.cr }
proof fn lemma_noted(lc: Lc, hs: Seq<Header>, n: int)
    requires 0 <= n <= hs.len(),
    ensures ({ let m = noted_all(lc, hs, n);
        &&& forall|i: int| 0 <= i < n ==> seen(m, #[trigger] hs[i])
        &&& forall|h: Header| seen(lc, h) ==> #[trigger] seen(m, h) }),
    decreases n,
{
    if n > 0 {
        lemma_noted(lc, hs, n - 1);
        let p = noted_all(lc, hs, n - 1); let m = noted_all(lc, hs, n);
        assert(m == noted(p, hs[n - 1]));
        assert forall|h: Header| seen(p, h) implies #[trigger] seen(m, h) by { }
        assert forall|i: int| 0 <= i < n implies seen(m, #[trigger] hs[i]) by { if i < n - 1 { assert(seen(p, hs[i])); } }
        assert forall|h: Header| seen(lc, h) implies #[trigger] seen(m, h) by { assert(seen(p, h)); }
    }
}
pub proof fn lemma_commit_new(f: Fixed, a: Snap, l: Certificate, sub: CommittedSubDag, b: Snap)
    requires commits(f, a, l, sub, b), lc_ok(a),
    ensures
        sub.inner.headers@.len() >= 1, sub.inner.headers@.last() == l.header, b.cr > a.cr, lc_ok(b),
        forall|i: int| 0 <= i < sub.inner.headers@.len() ==> !seen(a.lc, #[trigger] sub.inner.headers@[i]) && seen(b.lc, sub.inner.headers@[i]),
        forall|h: Header| seen(a.lc, h) ==> #[trigger] seen(b.lc, h),
{
    let hs = sub.inner.headers@; let gc = sat(h_round(l.header) as int, f.gcd as int);
    lemma_sub(a.dag, a.lc, gc, l.header, flat(a.dag, a.lc, gc, l.header), hs);
    lemma_noted(a.lc, hs, hs.len() as int);
    lemma_noted_top(a.lc, hs, hs.len() as int, h_round(l.header) as int);
}
proof fn lemma_noted_top(lc: Lc, hs: Seq<Header>, n: int, top: int)
    requires 0 <= n <= hs.len(), forall|i: int| 0 <= i < n ==> h_round(#[trigger] hs[i]) <= top, forall|x: AuthorityIdentifier| #[trigger] lc.contains_key(x) ==> lc[x] <= top,
    ensures forall|x: AuthorityIdentifier| #[trigger] noted_all(lc, hs, n).contains_key(x) ==> noted_all(lc, hs, n)[x] <= top,
    decreases n,
{
    if n > 0 {
        lemma_noted_top(lc, hs, n - 1, top);
        let p = noted_all(lc, hs, n - 1); let m = noted_all(lc, hs, n);
        assert(m == noted(p, hs[n - 1])); assert(h_round(hs[n - 1]) <= top);
        assert forall|x: AuthorityIdentifier| #[trigger] m.contains_key(x) implies m[x] <= top by { if p.contains_key(x) { assert(p[x] <= top); } }
    }
}
/// in a history of commits no header appears twice
pub struct Step { pub r: Round, pub a: Snap, pub sub: CommittedSubDag, pub b: Snap }
/// commits of one node, with certificates received in between
pub open spec fn history(f: Fixed, h: Seq<Step>) -> bool {
    &&& forall|i: int| 0 <= i < h.len() ==> #[trigger] rule(f, h[i].r, h[i].a, h[i].sub, h[i].b)
    &&& forall|i: int| #![trigger h[i]] 0 < i < h.len() ==> h[i].a == (Snap { dag: h[i].a.dag, ..h[i - 1].b })
}
pub proof fn theorem_once(f: Fixed, h: Seq<Step>, i: int, j: int)
    requires history(f, h), lc_ok(h[0].a), 0 <= i <= j < h.len(),
    ensures
        lc_ok(h[j].a), i < j ==> h[i].b.cr <= h[j].a.cr && h_round(h[i].sub.inner.headers@.last()) < h_round(h[j].sub.inner.headers@.last()),
        i < j ==> forall|x: int, y: int| 0 <= x < h[i].sub.inner.headers@.len() && 0 <= y < h[j].sub.inner.headers@.len() ==> #[trigger] h[i].sub.inner.headers@[x] != #[trigger] h[j].sub.inner.headers@[y],
        i < j ==> forall|x: int| 0 <= x < h[i].sub.inner.headers@.len() ==> seen(h[j].a.lc, #[trigger] h[i].sub.inner.headers@[x]),
    decreases j,
{
    assert(rule(f, h[j].r, h[j].a, h[j].sub, h[j].b));
    if j > 0 {
        theorem_once(f, h, if i < j { i } else { j - 1 }, j - 1);
        assert(rule(f, h[j - 1].r, h[j - 1].a, h[j - 1].sub, h[j - 1].b));
        lemma_commit_new(f, h[j - 1].a, plan(h[j - 1].a, lead(h[j - 1].a, h[j - 1].r))[0], h[j - 1].sub, h[j - 1].b);
        lemma_commit_new(f, h[j].a, plan(h[j].a, lead(h[j].a, h[j].r))[0], h[j].sub, h[j].b);
        assert(h[j].a.lc == h[j - 1].b.lc);
        if i < j {
            assert(rule(f, h[i].r, h[i].a, h[i].sub, h[i].b));
            assert forall|x: int| 0 <= x < h[i].sub.inner.headers@.len() implies seen(h[j].a.lc, #[trigger] h[i].sub.inner.headers@[x]) by { if i < j - 1 { assert(seen(h[j - 1].a.lc, h[i].sub.inner.headers@[x])); } }
        }
    }
}

// ---- two nodes
/// certificates come from the committee, cite a quorum, and no author has two for a round
pub open spec fn quorate(c: Committee, d: SDag, gc: int) -> bool { forall|r: Round, a: AuthorityIdentifier| #[trigger] has(d, r, a) && r > gc + 1 ==> cited(d, (r - 1) as Round, at(d, r, a)).len() >= quorum(csize(c)) }
pub open spec fn cited(d: SDag, q: Round, h: Header) -> Set<AuthorityIdentifier> { row(d, q).dom().filter(|x: AuthorityIdentifier| h_parents(h)@.contains(h_dig(row(d, q)[x].1.header))) }
pub open spec fn agree(d1: SDag, d2: SDag) -> bool { forall|r: Round, a: AuthorityIdentifier| #[trigger] has(d1, r, a) && has(d2, r, a) ==> at(d1, r, a) == at(d2, r, a) }
pub open spec fn seeded(d: SDag) -> bool { forall|r: Round, a: AuthorityIdentifier| #[trigger] has(d, r, a) ==> h_seed(at(d, r, a)) is Some }
pub open spec fn inside(d: SDag, h: Header) -> bool { has(d, h_round(h), h_author(h)) && at(d, h_round(h), h_author(h)) == h }
pub open spec fn sound(f: Fixed, a: Snap) -> bool {
    let gc = sat(a.cr, f.gcd as int);
    dag_wf(a.dag) && closed(a.dag, gc) && quorate(f.c, a.dag, gc) && rows_ok(a.dag, f.c) && seeded(a.dag) && a.cr >= 0 && a.cr % 2 == 0
}
proof fn lemma_inside(d: SDag, r: int, h: Header)
    requires dag_wf(d), look(d, r, h_dig(h)) == Some(h),
    ensures inside(d, h), h_round(h) == r,
{ lemma_look_is(d, r, h_dig(h)); }
proof fn lemma_inside_look(d: SDag, h: Header)
    requires dag_wf(d), inside(d, h),
    ensures look(d, h_round(h) as int, h_dig(h)) == Some(h),
{ lemma_look(d, h_round(h), h_author(h)); }
proof fn lemma_reach_inside(d: SDag, l: Header, r: int, h: Header)
    requires dag_wf(d), inside(d, l), reach(d, l, r, h), r <= h_round(l),
    ensures inside(d, h), h_round(h) == r,
{ if r < h_round(l) { lemma_inside(d, r, h); } }
proof fn lemma_reach_same(d1: SDag, d2: SDag, gc: int, l: Header, r: int, h: Header)
    requires dag_wf(d1), dag_wf(d2), closed(d2, gc), inside(d1, l), inside(d2, l), gc < r <= h_round(l), gc >= 0, reach(d1, l, r, h),
    ensures reach(d2, l, r, h),
    decreases h_round(l) - r,
{
    if r < h_round(l) {
        let x = choose|x: Header| reach(d1, l, r + 1, x) && #[trigger] h_parents(x)@.contains(h_dig(h));
        lemma_reach_same(d1, d2, gc, l, r + 1, x);
        lemma_reach_inside(d1, l, r + 1, x); lemma_reach_inside(d2, l, r + 1, x);
        assert(look(d2, h_round(x) - 1, h_dig(h)) is Some);
        lemma_look_same(d1, d2, r, h_dig(h));
    }
}
proof fn lemma_reach_trans(d: SDag, x: Header, q: int, y: Header, r: int, h: Header)
    requires reach(d, x, q, y), reach(d, y, r, h), r <= q <= h_round(x), h_round(y) == q,
    ensures reach(d, x, r, h),
    decreases q - r,
{
    if r < q {
        let z = choose|z: Header| reach(d, y, r + 1, z) && #[trigger] h_parents(z)@.contains(h_dig(h));
        lemma_reach_trans(d, x, q, y, r + 1, z);
    }
}
/// two sets of committee members, a quorum and a validity threshold, meet
proof fn lemma_meet(m: Set<AuthorityIdentifier>, x: Set<AuthorityIdentifier>, y: Set<AuthorityIdentifier>) -> (a: AuthorityIdentifier)
    requires x.subset_of(m), y.subset_of(m), x.len() >= quorum(m.len()), y.len() >= validity(m.len()), m.len() > 0,
    ensures x.contains(a), y.contains(a),
{
    if x.disjoint(y) {
        vstd::set_lib::lemma_set_disjoint_lens(x, y);
        vstd::set_lib::lemma_len_subset(x + y, m);
        assert(quorum(m.len()) + validity(m.len()) > m.len());
        assert(false);
    }
    choose|a: AuthorityIdentifier| x.contains(a) && y.contains(a)
}
/// a leader with support is in the causal history of every certificate two rounds later, on any node
pub proof fn theorem_support(c: Committee, d1: SDag, d2: SDag, gc: int, l: Header, x: Header)
    requires dag_wf(d1), dag_wf(d2), closed(d2, gc), quorate(c, d2, gc), rows_ok(d1, c), rows_ok(d2, c), agree(d1, d2), c.wf(), gc >= 0, h_round(l) > gc, inside(d1, l), h_round(l) < u32::MAX,
        backers(d1, (h_round(l) + 1) as Round, h_dig(l)).len() >= validity(csize(c)), inside(d2, x), h_round(x) >= h_round(l) + 2,
    ensures reach(d2, x, h_round(l) as int, l),
    decreases h_round(x),
{
    let q = h_round(l) as int; let p = h_round(x) - 1; let pr = p as Round;
    let cs = cited(d2, pr, x);
    assert(has(d2, h_round(x), h_author(x)));
    assert forall|a: AuthorityIdentifier| #[trigger] cs.contains(a) implies members(c).contains(a) && has(d2, pr, a) by { assert(row(d2, pr).contains_key(a)); assert(has(d2, pr, a)); }
    if p == q + 1 {
        let bs = backers(d1, pr, h_dig(l));
        assert forall|a: AuthorityIdentifier| #[trigger] bs.contains(a) implies members(c).contains(a) && has(d1, pr, a) by { assert(row(d1, pr).contains_key(a)); assert(has(d1, pr, a)); }
        let a = lemma_meet(members(c), cs, bs);
        assert(bs.contains(a) && cs.contains(a));
        let y = at(d2, pr, a);
        assert(has(d1, pr, a) && has(d2, pr, a)); assert(at(d1, pr, a) == y);
        lemma_look(d2, pr, a);
        assert(reach(d2, x, p + 1, x)); assert(h_parents(x)@.contains(h_dig(y)));
        assert(reach(d2, x, p, y));
        assert(h_parents(y)@.contains(h_dig(l)));
        assert(look(d2, pr - 1, h_dig(l)) is Some);
        lemma_inside_look(d1, l);
        lemma_look_same(d1, d2, q, h_dig(l));
        assert(reach(d2, x, q, l));
    } else {
        assert(cs.len() >= 1);
        let a = cs.choose(); assert(cs.contains(a));
        let y = at(d2, pr, a);
        lemma_look(d2, pr, a);
        assert(reach(d2, x, p + 1, x)); assert(h_parents(x)@.contains(h_dig(y)));
        assert(reach(d2, x, p, y));
        theorem_support(c, d1, d2, gc, l, y);
        lemma_reach_trans(d2, x, p, y, q, l);
    }
}
proof fn lemma_leader_inside(s: LeaderSchedule, d: SDag, r: Round)
    requires dag_wf(d),
    ensures leader_cert(s, d, r) matches Some(p) ==> inside(d, p.header) && h_round(p.header) == r && h_author(p.header) == leader_of(s, r).aid && lead_ok(d, p),
{ if has(d, r, leader_of(s, r).aid) { } }
/// the walk from a header both have is the same on both
proof fn lemma_walk_same(d1: SDag, d2: SDag, gc: int, s: LeaderSchedule, cur: Header, r: int, stop: int)
    requires dag_wf(d1), dag_wf(d2), closed(d1, gc), closed(d2, gc), inside(d1, cur), inside(d2, cur), gc >= 0, stop >= gc, r < h_round(cur),
    ensures heads(walk(d1, s, cur, r, stop)) == heads(walk(d2, s, cur, r, stop)),
    decreases (if r > stop { r - stop } else { 0 }),
{
    if !(r <= stop || r < 0) {
        let q = r as Round;
        lemma_leader_inside(s, d1, q); lemma_leader_inside(s, d2, q);
        let c1 = leader_cert(s, d1, q); let c2 = leader_cert(s, d2, q);
        let in1 = c1 is Some && reach(d1, cur, r, c1->0.header); let in2 = c2 is Some && reach(d2, cur, r, c2->0.header);
        if in1 { lemma_reach_same(d1, d2, gc, cur, r, c1->0.header); lemma_reach_inside(d2, cur, r, c1->0.header); assert(has(d2, q, leader_of(s, q).aid)); assert(c2->0.header == c1->0.header); }
        if in2 { lemma_reach_same(d2, d1, gc, cur, r, c2->0.header); lemma_reach_inside(d1, cur, r, c2->0.header); assert(has(d1, q, leader_of(s, q).aid)); assert(c2->0.header == c1->0.header); }
        assert(in1 == in2);
        if in1 {
            lemma_walk_same(d1, d2, gc, s, c1->0.header, r - 2, stop);
            let w1 = walk(d1, s, c1->0.header, r - 2, stop); let w2 = walk(d2, s, c1->0.header, r - 2, stop);
            assert(heads(seq![c1->0] + w1) =~= seq![c1->0.header] + heads(w1)); assert(heads(seq![c2->0] + w2) =~= seq![c2->0.header] + heads(w2));
        } else { lemma_walk_same(d1, d2, gc, s, cur, r - 2, stop); }
    }
}
/// the last leader of the walk (the oldest)
pub open spec fn oldest(s: Seq<Certificate>, l: Certificate) -> Certificate { if s.len() == 0 { l } else { s.last() } }
proof fn lemma_plan_first(a: Snap, l: Certificate)
    ensures plan(a, l).len() >= 1, plan(a, l)[0] == oldest(walk(a.dag, a.sched, l.header, h_round(l.header) - 2, a.cr + 1), l),
{ }
/// a walk from above passes through a leader that everything above it reaches
proof fn lemma_walk_through(d: SDag, s: LeaderSchedule, cur: Header, r: int, stop: int, l: Certificate) -> (n: int)
    requires dag_wf(d), inside(d, cur), r < h_round(cur), h_round(l.header) <= r, stop < h_round(l.header), r % 2 == 0, h_round(l.header) % 2 == 0, leader_cert(s, d, h_round(l.header)) == Some(l),
        reach(d, cur, h_round(l.header) as int, l.header),
        forall|x: Header| #[trigger] inside(d, x) && h_round(x) >= h_round(l.header) + 2 ==> reach(d, x, h_round(l.header) as int, l.header),
    ensures ({ let w = walk(d, s, cur, r, stop); 0 <= n < w.len() && w[n] == l && w.skip(n + 1) == walk(d, s, l.header, h_round(l.header) - 2, stop) }),
    decreases r - h_round(l.header),
{
    let w = walk(d, s, cur, r, stop);
    if r == h_round(l.header) {
        let v = walk(d, s, l.header, r - 2, stop);
        assert(w == seq![l] + v); assert(w.skip(1) =~= v); 0
    } else {
        lemma_leader_inside(s, d, r as Round);
        match leader_cert(s, d, r as Round) {
            Some(p) if reach(d, cur, r, p.header) => {
                let n = lemma_walk_through(d, s, p.header, r - 2, stop, l);
                let v = walk(d, s, p.header, r - 2, stop);
                assert(w == seq![p] + v); assert(w.skip(n + 2) =~= v.skip(n + 1)); n + 1
            }
            _ => lemma_walk_through(d, s, cur, r - 2, stop, l),
        }
    }
}
/// everything but the DAG is the same
pub open spec fn same_sub(x: CommittedSubDag, y: CommittedSubDag) -> bool {
    &&& x.inner.headers@ == y.inner.headers@ && x.inner.commit_timestamp == y.inner.commit_timestamp && x.inner.randomness == y.inner.randomness
    &&& x.inner.reputation_scores.scores_per_authority@ == y.inner.reputation_scores.scores_per_authority@ && x.inner.reputation_scores.final_of_schedule == y.inner.reputation_scores.final_of_schedule
}
pub open spec fn same_past(a: Snap, b: Snap) -> bool {
    &&& a.lc == b.lc && a.cr == b.cr && a.seed == b.seed && a.sched == b.sched
    &&& match (a.sub, b.sub) { (Some(x), Some(y)) => same_sub(x, y), (None, None) => true, _ => false }
}
proof fn lemma_first_leader(f: Fixed, a1: Snap, a2: Snap, r1: Round, r2: Round)
    requires f.c.wf(), sound(f, a1), sound(f, a2), agree(a1.dag, a2.dag), same_past(a1, a2), r1 <= r2, f.gcd >= 1,
        leader_cert(a1.sched, a1.dag, r1) is Some, supported(f, a1.dag, lead(a1, r1)), a1.cr < r1, r1 % 2 == 0, r1 < u32::MAX,
        leader_cert(a2.sched, a2.dag, r2) is Some, r2 % 2 == 0,
    ensures plan(a1, lead(a1, r1))[0].header == plan(a2, lead(a2, r2))[0].header,
{
    let gc = sat(a1.cr, f.gcd as int); let stop = a1.cr + 1; let s = a1.sched;
    let l1 = lead(a1, r1); let l2 = lead(a2, r2);
    lemma_leader_inside(s, a1.dag, r1); lemma_leader_inside(s, a2.dag, r2);
    lemma_plan_first(a1, l1); lemma_plan_first(a2, l2);
    if r1 == r2 {
        assert(has(a1.dag, r1, leader_of(s, r1).aid) && has(a2.dag, r1, leader_of(s, r1).aid));
        lemma_walk_same(a1.dag, a2.dag, gc, s, l1.header, r1 - 2, stop);
        lemma_oldest(walk(a1.dag, s, l1.header, r1 - 2, stop), walk(a2.dag, s, l1.header, r1 - 2, stop), l1, l2);
    } else {
        assert forall|x: Header| #[trigger] inside(a2.dag, x) && h_round(x) >= r1 + 2 implies reach(a2.dag, x, r1 as int, l1.header) by { theorem_support(f.c, a1.dag, a2.dag, gc, l1.header, x); }
        assert(reach(a2.dag, l2.header, r1 as int, l1.header));
        lemma_reach_inside(a2.dag, l2.header, r1 as int, l1.header);
        let m = lead(a2, r1);
        assert(has(a2.dag, r1, leader_of(s, r1).aid)); assert(m.header == l1.header);
        if r1 > stop {
            let n = lemma_walk_through(a2.dag, s, l2.header, r2 - 2, stop, m);
            let w = walk(a2.dag, s, l2.header, r2 - 2, stop); let v = walk(a2.dag, s, m.header, r1 - 2, stop);
            assert(w.skip(n + 1) == v);
            assert(oldest(w, l2) == oldest(v, m)) by { if v.len() == 0 { assert(w.len() == n + 1); } else { assert(v.last() == w.last()); } }
            lemma_walk_same(a1.dag, a2.dag, gc, s, l1.header, r1 - 2, stop);
            lemma_oldest(walk(a1.dag, s, l1.header, r1 - 2, stop), v, l1, m);
        }
    }
}
// ---- the flattened history is the same on both
pub open spec fn both(d1: SDag, d2: SDag, s: Seq<Header>) -> bool { forall|i: int| 0 <= i < s.len() ==> inside(d1, #[trigger] s[i]) && inside(d2, s[i]) }
proof fn lemma_visit_same(d1: SDag, d2: SDag, lc: Lc, gc: int, s: D, x: Header, ps: Seq<HeaderDigest>, n: int)
    requires dag_wf(d1), dag_wf(d2), closed(d1, gc), closed(d2, gc), both(d1, d2, s.buf), inside(d1, x), inside(d2, x), h_round(x) > gc + 1, gc >= 0, ps == parents_of(x), 0 <= n <= ps.len(),
    ensures visit(d1, lc, h_round(x) as int, s, ps, n) == visit(d2, lc, h_round(x) as int, s, ps, n), both(d1, d2, visit(d1, lc, h_round(x) as int, s, ps, n).buf),
        forall|g: Header| #[trigger] s.buf.contains(g) ==> visit(d1, lc, h_round(x) as int, s, ps, n).buf.contains(g),
    decreases n,
{
    let r = h_round(x) as int;
    if n > 0 {
        lemma_visit_same(d1, d2, lc, gc, s, x, ps, n - 1);
        let t = visit(d1, lc, r, s, ps, n - 1); let g = ps[n - 1];
        assert(parents_of(x).contains(g)); assert(h_parents(x)@.contains(g));
        assert(has(d1, h_round(x), h_author(x)) && has(d2, h_round(x), h_author(x)));
        lemma_look_same(d1, d2, r - 1, g); lemma_look_is(d1, r - 1, g); lemma_look_is(d2, r - 1, g);
        let u = visit(d1, lc, r, s, ps, n);
        assert(u == visit1(d1, lc, r, t, g));
        assert forall|h: Header| #[trigger] s.buf.contains(h) implies u.buf.contains(h) by { assert(t.buf.contains(h)); let i = t.buf.index_of(h); assert(u.buf[i] == h); }
    }
}
proof fn lemma_run_same(d1: SDag, d2: SDag, lc: Lc, gc: int, l: Header, n: nat)
    requires dag_wf(d1), dag_wf(d2), closed(d1, gc), closed(d2, gc), inside(d1, l), inside(d2, l), h_round(l) > gc, gc >= 0,
    ensures run(d1, lc, gc, start(l), n) == run(d2, lc, gc, start(l), n), both(d1, d2, run(d1, lc, gc, start(l), n).buf),
        forall|i: int| 0 <= i < run(d1, lc, gc, start(l), n).buf.len() ==> h_round(#[trigger] run(d1, lc, gc, start(l), n).buf[i]) > gc,
    decreases n,
{
    if n > 0 {
        lemma_run_same(d1, d2, lc, gc, l, (n - 1) as nat);
        let s = run(d1, lc, gc, start(l), (n - 1) as nat);
        if s.buf.len() > 0 {
            let x = s.buf.last(); assert(s.buf[s.buf.len() - 1] == x);
            assert(h_round(x) > gc); assert(inside(d1, x) && inside(d2, x));
            if h_round(x) != gc + 1 {
                assert(both(d1, d2, popped(s).buf));
                lemma_visit_same(d1, d2, lc, gc, popped(s), x, parents_of(x), parents_of(x).len() as int);
                lemma_visit_rounds(d1, lc, gc, popped(s), h_round(x) as int, parents_of(x), parents_of(x).len() as int);
            }
        }
    }
}
proof fn lemma_visit_rounds(d: SDag, lc: Lc, gc: int, s: D, r: int, ps: Seq<HeaderDigest>, n: int)
    requires dag_wf(d), r > gc + 1, forall|i: int| 0 <= i < s.buf.len() ==> h_round(#[trigger] s.buf[i]) > gc, 0 <= n <= ps.len(),
    ensures forall|i: int| 0 <= i < visit(d, lc, r, s, ps, n).buf.len() ==> h_round(#[trigger] visit(d, lc, r, s, ps, n).buf[i]) > gc,
    decreases n,
{
    if n > 0 {
        lemma_visit_rounds(d, lc, gc, s, r, ps, n - 1);
        if look(d, r - 1, ps[n - 1]) is Some { lemma_look_is(d, r - 1, ps[n - 1]); }
        let t = visit(d, lc, r, s, ps, n - 1); let u = visit(d, lc, r, s, ps, n);
        assert(u == visit1(d, lc, r, t, ps[n - 1]));
        assert forall|i: int| 0 <= i < u.buf.len() implies h_round(#[trigger] u.buf[i]) > gc by { if i < t.buf.len() { assert(h_round(t.buf[i]) > gc); } }
    }
}
proof fn lemma_flat_same(d1: SDag, d2: SDag, lc: Lc, gc: int, l: Header)
    requires dag_wf(d1), dag_wf(d2), closed(d1, gc), closed(d2, gc), inside(d1, l), inside(d2, l), h_round(l) > gc, gc >= 0, finite(d1, lc, gc, l),
    ensures flat(d1, lc, gc, l) == flat(d2, lc, gc, l),
{
    let n = choose|n: nat| ends(d1, lc, gc, l, n);
    lemma_run_same(d1, d2, lc, gc, l, n);
    assert(ends(d2, lc, gc, l, n));
    lemma_flat(d1, lc, gc, l, n); lemma_flat(d2, lc, gc, l, n);
}
proof fn lemma_closed_up(d: SDag, g0: int, g1: int) requires closed(d, g0), g0 <= g1 ensures closed(d, g1) { }
/// two nodes with the same past commit the same next headers, whatever certificates each of them has, and have the same past again
pub proof fn theorem_next(f: Fixed, a1: Snap, a2: Snap, r1: Round, r2: Round, s1: CommittedSubDag, s2: CommittedSubDag, b1: Snap, b2: Snap)
    requires f.c.wf(), f.gcd >= 1, sound(f, a1), sound(f, a2), agree(a1.dag, a2.dag), same_past(a1, a2), rule(f, r1, a1, s1, b1), rule(f, r2, a2, s2, b2),
    ensures same_sub(s1, s2), same_past(b1, b2),
{
    if r1 <= r2 { lemma_first_leader(f, a1, a2, r1, r2); } else { lemma_agree_sym(a1.dag, a2.dag); lemma_first_leader(f, a2, a1, r2, r1); }
    let c1 = plan(a1, lead(a1, r1))[0]; let c2 = plan(a2, lead(a2, r2))[0]; let l = c1.header; let gc = sat(h_round(l) as int, f.gcd as int); let gc0 = sat(a1.cr, f.gcd as int);
    assert(c2.header == l);
    assert(inside(a1.dag, l) && inside(a2.dag, l));
    lemma_closed_up(a1.dag, gc0, gc); lemma_closed_up(a2.dag, gc0, gc);
    lemma_flat_same(a1.dag, a2.dag, a1.lc, gc, l);
    lemma_by_round_same(flat(a1.dag, a1.lc, gc, l), s1.inner.headers@, s2.inner.headers@);
    assert(has(a1.dag, h_round(l), h_author(l))); assert(h_seed(l) is Some);
    let hs = s1.inner.headers@;
    assert(base_scores(f.c, f.num, a1.sub, nonce_of(l)) == base_scores(f.c, f.num, a2.sub, nonce_of(l)));
    assert(scores_of(f.c, f.num, a1.sub, hs, nonce_of(l)) == scores_of(f.c, f.num, a2.sub, hs, nonce_of(l)));
}
proof fn lemma_agree_sym(d1: SDag, d2: SDag) requires agree(d1, d2) ensures agree(d2, d1) { assert forall|r: Round, a: AuthorityIdentifier| #[trigger] has(d2, r, a) && has(d1, r, a) implies at(d2, r, a) == at(d1, r, a) by { assert(has(d1, r, a)); } }
/// the committed sequence of one node is a prefix of the other's
pub proof fn theorem_prefix(f: Fixed, h1: Seq<Step>, h2: Seq<Step>, k: int)
    requires f.c.wf(), f.gcd >= 1, history(f, h1), history(f, h2), 0 <= k < h1.len(), k < h2.len(), same_past(h1[0].a, h2[0].a),
        forall|i: int| 0 <= i < h1.len() ==> sound(f, #[trigger] h1[i].a), forall|i: int| 0 <= i < h2.len() ==> sound(f, #[trigger] h2[i].a),
        forall|i: int| 0 <= i < h1.len() && 0 <= i < h2.len() ==> agree(#[trigger] h1[i].a.dag, #[trigger] h2[i].a.dag),
    ensures same_sub(h1[k].sub, h2[k].sub), same_past(h1[k].a, h2[k].a), same_past(h1[k].b, h2[k].b),
    decreases k,
{
    if k > 0 { theorem_prefix(f, h1, h2, k - 1); }
    assert(rule(f, h1[k].r, h1[k].a, h1[k].sub, h1[k].b)); assert(rule(f, h2[k].r, h2[k].a, h2[k].sub, h2[k].b));
    assert(sound(f, h1[k].a) && sound(f, h2[k].a)); assert(agree(h1[k].a.dag, h2[k].a.dag));
    theorem_next(f, h1[k].a, h2[k].a, h1[k].r, h2[k].r, h1[k].sub, h2[k].sub, h1[k].b, h2[k].b);
}
proof fn lemma_oldest(x: Seq<Certificate>, y: Seq<Certificate>, l: Certificate, m: Certificate)
    requires heads(x) == heads(y), l.header == m.header,
    ensures oldest(x, l).header == oldest(y, m).header,
{ assert(x.len() == heads(x).len() && y.len() == heads(y).len()); if x.len() > 0 { assert(heads(x)[x.len() - 1] == x.last().header); assert(heads(y)[y.len() - 1] == y.last().header); } }
fn main() {}
}
