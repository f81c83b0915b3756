// C01: committee membership index, voting power and quorum / validity thresholds
use vstd::prelude::*;
verus! {
//@include lib/verus/viter.rs
//@include lib/verus/btree.rs
// ---- shims for dependencies (opaque keys, addresses, the id hash)
#[derive(Clone, Copy)] pub struct Address(pub u64);
pub struct BootstrapServer(pub u64);
pub type Epoch = u32;
//@item file=crates/types/src/committee.rs path="type VotingPower"
//@end
/// assumed: distinct keys have distinct identifiers (collision resistance of the id hash)
pub mod vx_ax { use vstd::prelude::*;
#[derive(Clone, Copy)] pub struct BlsPublicKey(pub u64);
#[derive(Clone, Copy)] pub struct AuthorityIdentifier(pub u64);
pub uninterp spec fn id_of(k: BlsPublicKey) -> AuthorityIdentifier;
pub broadcast axiom fn axiom_id(a: BlsPublicKey, b: BlsPublicKey)
    ensures (#[trigger] id_of(a) == #[trigger] id_of(b)) ==> a == b;
}
pub use vx_ax::{BlsPublicKey, AuthorityIdentifier, id_of};
broadcast use {vx_ax::axiom_id, vx_btree::group_btree};
/// `Arc<T>` is T
pub struct Authority { pub inner: AuthorityInner }
impl Clone for Authority {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@item file=crates/types/src/committee.rs path="struct AuthorityInner"
//@end
impl Authority {
//@fn file=crates/types/src/committee.rs path="impl Authority :: fn new" ret=r
//@sub? /Arc::new\( (AuthorityInner \{[^{}]*\}) \)/ => \1
//@spec
    ensures r.inner.protocol_key == protocol_key, r.inner.execution_address == execution_address,
//@end
//@fn file=crates/types/src/committee.rs path="impl Authority :: fn execution_address" ret=r
//@spec
    ensures r == self.inner.execution_address,
//@end
    /// assumed contract: the identifier is the hash of the key (Authority::id body calls the BLS / hash crates)
    #[verifier::external_body]
    pub fn id(&self) -> (r: AuthorityIdentifier) ensures r == id_of(self.inner.protocol_key) { unimplemented!() }
//@fn file=crates/types/src/committee.rs path="impl Authority :: fn protocol_key" ret=r
//@spec
    ensures *r == self.inner.protocol_key,
//@end
//@fn file=crates/types/src/committee.rs path="impl Authority :: fn voting_power" ret=r
//@spec
    ensures r == 1,
//@end
}
#[derive(Clone, Copy)] pub struct NonZeroU64 { pub v: u64 }
impl NonZeroU64 {
    pub fn new(v: u64) -> (r: Option<NonZeroU64>)
        ensures r == (if v == 0 { None } else { Some(NonZeroU64 { v }) })
    { if v == 0 { None } else { Some(NonZeroU64 { v }) } }
    pub fn get(self) -> (r: u64) ensures r == self.v { self.v }
}
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == (a as int + b as int - 1) / (b as int);

//@item file=crates/types/src/committee.rs path="const EQUAL_VOTING_POWER"
//@end
//@item file=crates/types/src/committee.rs path="struct CommitteeInner"
//@end
pub struct Committee { pub inner: CommitteeInner }

// ------------------------------------------------------------------ specification
/// the largest number of faulty members tolerated: n = 3f + 1 + k, 0 <= k < 3
pub open spec fn max_faulty(n: nat) -> nat { ((n - 1) / 3) as nat }
pub open spec fn quorum(n: nat) -> nat { ((2 * n) / 3 + 1) as nat }
pub open spec fn validity(n: nat) -> nat { ((n + 2) / 3) as nat }

/// headline facts, for every committee size
proof fn lemma_quorum(n: nat)
    requires n >= 1,
    ensures
        quorum(n) + max_faulty(n) <= n,                       // the honest members alone reach it (liveness)
        2 * quorum(n) >= n + max_faulty(n) + 1,               // two quorums share an honest member (safety)
        validity(n) >= max_faulty(n) + 1,                     // holds at least one honest member
        validity(n) <= quorum(n), validity(n) >= 1, quorum(n) <= n,
        // weaker quorums would not be safe
        2 * (quorum(n) - 1) < n + max_faulty(n) + 1 || quorum(n) == n || 2 * (quorum(n) - 1) - n <= max_faulty(n) + 1,
{ }
/// two sets of members each reaching quorum intersect in more than f members
proof fn lemma_intersection<A>(u: Set<A>, a: Set<A>, b: Set<A>)
    requires u.finite(), u.len() >= 1, a.subset_of(u), b.subset_of(u), a.len() >= quorum(u.len()), b.len() >= quorum(u.len()),
    ensures a.intersect(b).len() > max_faulty(u.len()),
{
    lemma_quorum(u.len());
    vstd::set_lib::lemma_len_subset(a, u);
    vstd::set_lib::lemma_len_subset(b, u);
    lemma_incl_excl(a, b);
    assert(a.union(b).subset_of(u));
    vstd::set_lib::lemma_len_subset(a.union(b), u);
}
proof fn lemma_incl_excl<A>(a: Set<A>, b: Set<A>)
    requires a.finite(), b.finite(),
    ensures a.union(b).len() + a.intersect(b).len() == a.len() + b.len(), a.union(b).finite(), a.intersect(b).finite(),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a =~= Set::empty());
        assert(a.union(b) =~= b);
        assert(a.intersect(b) =~= Set::empty());
    } else {
        let x = a.choose();
        let a2 = a.remove(x);
        lemma_incl_excl(a2, b);
        if b.contains(x) {
            assert(a2.union(b) =~= a.union(b));
            assert(a2.intersect(b) =~= a.intersect(b).remove(x));
        } else {
            assert(a2.union(b) =~= a.union(b).remove(x));
            assert(a2.intersect(b) =~= a.intersect(b));
        }
    }
}

pub open spec fn keyed(m: Map<BlsPublicKey, Authority>) -> bool {
    forall|k: BlsPublicKey| #[trigger] m.contains_key(k) ==> m[k].inner.protocol_key == k
}
impl CommitteeInner {
    pub open spec fn n(self) -> nat { self.authorities@.dom().len() }
    pub open spec fn indexed(self) -> bool {
        &&& forall|k: BlsPublicKey| #[trigger] self.authorities@.contains_key(k) ==> self.authorities_by_id@.contains_key(id_of(k)) && self.authorities_by_id@[id_of(k)] == self.authorities@[k]
        &&& forall|i: AuthorityIdentifier| #[trigger] self.authorities_by_id@.contains_key(i) ==> exists|k: BlsPublicKey| self.authorities@.contains_key(k) && id_of(k) == i
        &&& self.authorities_by_id@.dom().len() == self.n()
    }
    pub open spec fn wf(self) -> bool {
        &&& keyed(self.authorities@) && self.indexed()
        &&& self.quorum_threshold == quorum(self.n()) && self.validity_threshold == validity(self.n())
        &&& self.n() > 1
    }
}
/// the id index built from the ascending list of members
proof fn lemma_index(m: Map<BlsPublicKey, Authority>, ks: Seq<BlsPublicKey>, s: Seq<(AuthorityIdentifier, Authority)>)
    requires
        keyed(m), m.dom().finite(), ks.len() == s.len(), ks.no_duplicates(),
        forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i]) && s[i] == (id_of(ks[i]), m[ks[i]]),
    ensures
        forall|i: int| 0 <= i < ks.len() ==> #[trigger] map_of(s).contains_key(id_of(ks[i])) && map_of(s)[id_of(ks[i])] == m[ks[i]],
        forall|d: AuthorityIdentifier| #[trigger] map_of(s).contains_key(d) ==> exists|i: int| 0 <= i < ks.len() && id_of(#[trigger] ks[i]) == d,
        map_of(s).dom().finite(), map_of(s).dom().len() == ks.len(),
    decreases ks.len(),
{
    if ks.len() > 0 {
        let k0 = ks.drop_last(); let s0 = s.drop_last();
        assert forall|i: int| 0 <= i < k0.len() implies m.contains_key(#[trigger] k0[i]) && s0[i] == (id_of(k0[i]), m[k0[i]]) by { assert(k0[i] == ks[i]); }
        lemma_index(m, k0, s0);
        let kl = ks.last();
        assert(s.last() == (id_of(kl), m[kl]));
        assert(!map_of(s0).contains_key(id_of(kl))) by {
            if map_of(s0).contains_key(id_of(kl)) {
                let i = choose|i: int| 0 <= i < k0.len() && id_of(#[trigger] k0[i]) == id_of(kl);
                assert(ks[i] == ks[ks.len() - 1]);
            }
        }
        assert forall|i: int| 0 <= i < ks.len() implies #[trigger] map_of(s).contains_key(id_of(ks[i])) && map_of(s)[id_of(ks[i])] == m[ks[i]] by {
            if i < k0.len() { assert(k0[i] == ks[i]); assert(map_of(s0).contains_key(id_of(k0[i]))); }
        }
        assert forall|d: AuthorityIdentifier| #[trigger] map_of(s).contains_key(d) implies exists|i: int| 0 <= i < ks.len() && id_of(#[trigger] ks[i]) == d by {
            if d == id_of(kl) { assert(id_of(ks[ks.len() - 1]) == d); }
            else { let i = choose|i: int| 0 <= i < k0.len() && id_of(#[trigger] k0[i]) == d; assert(ks[i] == k0[i]); }
        }
        assert(map_of(s).dom() =~= map_of(s0).dom().insert(id_of(kl)));
    } else {
        assert(map_of(s).dom() =~= Set::empty());
    }
}

impl CommitteeInner {
//@fn file=crates/types/src/committee.rs path="impl CommitteeInner :: fn total_voting_power" ret=r
//@spec
    ensures r == self.n(),
//@end
//@fn file=crates/types/src/committee.rs path="impl CommitteeInner :: fn calculate_quorum_threshold" ret=r
//@spec
    requires self.n() < 0x4000_0000_0000_0000,
    ensures r.v == quorum(self.n()),
//@end
//@fn file=crates/types/src/committee.rs path="impl CommitteeInner :: fn calculate_validity_threshold" ret=r
//@spec
    requires self.n() < 0x4000_0000_0000_0000,
    ensures self.n() >= 1 ==> r.v == validity(self.n()), self.n() == 0 ==> r.v == 1,
//@end
//@fn file=crates/types/src/committee.rs path="impl CommitteeInner :: fn load"
//@clos map.0 &Authority -> (r: (AuthorityIdentifier, Authority))
    ensures r.0 == id_of($0.inner.protocol_key), r.1 == *$0
//@spec
    requires keyed(old(self).authorities@), 1 < old(self).n() < 0x4000_0000_0000_0000,
    ensures
        final(self).wf(),
        final(self).authorities == old(self).authorities, final(self).epoch == old(self).epoch,
        final(self).bootstrap_servers == old(self).bootstrap_servers,
//@before /self\.validity_threshold =/
    proof {
        let ks = old(self).authorities.ks();
        let s = choose|s: Seq<(AuthorityIdentifier, Authority)>| s.len() == ks.len() && #[trigger] map_of(s) == self.authorities_by_id@
            && forall|i: int| 0 <= i < ks.len() ==> s[i] == (id_of(ks[i]), old(self).authorities@[#[trigger] ks[i]]);
        lemma_index(old(self).authorities@, ks, s);
        assert forall|k: BlsPublicKey| #[trigger] self.authorities@.contains_key(k) implies self.authorities_by_id@.contains_key(id_of(k)) && self.authorities_by_id@[id_of(k)] == self.authorities@[k] by {
            assert(ks.contains(k)); let i = ks.index_of(k); assert(ks[i] == k);
            assert(map_of(s).contains_key(id_of(ks[i])));
        }
        assert(self.indexed());
    }
//@end
}
impl Committee {
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn new" ret=r
//@sub? /Default::default\(\)/ => BTreeMap::default()
//@sub? /Arc::new\( (\w+) \)/ => \1
//@spec
    requires keyed(authorities@), 1 < authorities@.dom().len() < 0x4000_0000_0000_0000,
    ensures r.inner.wf(), r.inner.authorities@ == authorities@, r.inner.epoch == epoch,
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn epoch" ret=r
//@spec
    ensures r == self.inner.epoch,
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn authority" ret=r
//@spec
    requires self.inner.wf(),
    ensures
        forall|k: BlsPublicKey| #[trigger] self.inner.authorities@.contains_key(k) && id_of(k) == *identifier ==> r == Some(self.inner.authorities@[k]),
        r matches Some(a) ==> self.inner.authorities@.contains_key(a.inner.protocol_key) && id_of(a.inner.protocol_key) == *identifier,
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn authority_by_key" ret=r
//@spec
    ensures r == (if self.inner.authorities@.contains_key(*key) { Some(self.inner.authorities@[*key]) } else { None }),
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn is_authority" ret=r
//@spec
    requires self.inner.wf(),
    ensures r == exists|k: BlsPublicKey| #[trigger] self.inner.authorities@.contains_key(k) && id_of(k) == *id,
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn authorities" ret=r
//@spec
    requires self.inner.wf(),
    ensures
        r@.len() == self.inner.n(),
        r@.map_values(|a: Authority| id_of(a.inner.protocol_key)) =~= sorted_keys(self.inner.authorities_by_id@.dom()),
        forall|i: int| 0 <= i < r@.len() ==> self.inner.authorities@.contains_key((#[trigger] r@[i]).inner.protocol_key),
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn size" ret=r
//@spec
    ensures r == self.inner.n(),
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn voting_power" ret=r
//@desugar opt.map_or_else
//@desugar opt.map_or
//@spec
    ensures r == (if self.inner.authorities@.contains_key(*name) { 1u64 } else { 0 }),
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn voting_power_by_id" ret=r
//@desugar opt.map_or_else
//@desugar opt.map_or
//@spec
    requires self.inner.wf(),
    ensures r == (if exists|k: BlsPublicKey| #[trigger] self.inner.authorities@.contains_key(k) && id_of(k) == *id { 1u64 } else { 0 }),
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn quorum_threshold" ret=r
//@spec
    requires self.inner.wf(),
    ensures r == quorum(self.inner.n()),
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn validity_threshold" ret=r
//@spec
    requires self.inner.wf(),
    ensures r == validity(self.inner.n()),
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn reached_quorum" ret=r
//@spec
    requires self.inner.wf(),
    ensures r == (voting_power >= quorum(self.inner.n())),
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn reached_validity" ret=r
//@spec
    requires self.inner.wf(),
    ensures r == (voting_power >= validity(self.inner.n())),
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn total_voting_power" ret=r
//@spec
    ensures r == self.inner.n(),
//@end
//@fn file=crates/types/src/committee.rs path="impl Committee :: fn bls_keys" ret=r
//@clos map.0 &Authority -> (r: BlsPublicKey)
    ensures r == $0.inner.protocol_key
//@spec
    requires self.inner.wf(),
    ensures r@ == self.inner.authorities@.dom(),
//@head
    proof {
        let ks = self.inner.authorities.ks();
        assert forall|s: Seq<BlsPublicKey>| s.len() == ks.len() && (forall|i: int| 0 <= i < ks.len() ==> (#[trigger] s[i]) == self.inner.authorities@[ks[i]].inner.protocol_key)
            implies #[trigger] s.to_set() == self.inner.authorities@.dom() by {
            assert forall|i: int| 0 <= i < ks.len() implies s[i] == ks[i] by { assert(self.inner.authorities@.contains_key(ks[i])); }
            assert(s =~= ks);
        }
    }
//@end
}
//@fn file=crates/types/src/committee.rs path="fn quorum_threshold" ret=r
//@spec
    requires committee_members < 0x4000_0000_0000_0000,
    ensures r == quorum(committee_members as nat),
//@end
//@item file=crates/types/src/committee.rs path="struct CommitteeBuilder"
//@end
impl CommitteeBuilder {
//@fn file=crates/types/src/committee.rs path="impl CommitteeBuilder :: fn new" ret=r
//@spec
    ensures r.epoch == epoch, keyed(r.authorities@), r.authorities@ == Map::<BlsPublicKey, Authority>::empty(),
//@end
//@fn file=crates/types/src/committee.rs path="impl CommitteeBuilder :: fn add_authority"
//@spec
    requires keyed(old(self).authorities@),
    ensures keyed(final(self).authorities@), final(self).authorities@.dom() == old(self).authorities@.dom().insert(protocol_key),
        final(self).epoch == old(self).epoch,
        final(self).authorities@[protocol_key].inner.execution_address == execution_address,
        forall|k: BlsPublicKey| k != protocol_key && old(self).authorities@.contains_key(k) ==> final(self).authorities@[k] == old(self).authorities@[k],
//@end
//@fn file=crates/types/src/committee.rs path="impl CommitteeBuilder :: fn build" ret=r
//@spec
    requires keyed(self.authorities@), 1 < self.authorities@.dom().len() < 0x4000_0000_0000_0000,
    ensures r.inner.wf(), r.inner.authorities@ == self.authorities@, r.inner.epoch == self.epoch,
//@end
}
} // verus!
fn main() {}
