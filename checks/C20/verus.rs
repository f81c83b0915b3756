// C20: reputation ranking, leader swap table, leader of a round
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@include lib/verus/viter.rs
//@include lib/verus/btree.rs
//@include lib/verus/bytes.rs
broadcast use vx_btree::group_btree;
pub type Round = u32;
#[derive(Clone, Copy)] pub struct AuthorityIdentifier(pub u64);
impl AuthorityIdentifier {
    /// identifiers are totally ordered
    #[verifier::external_body]
    pub fn cmp(&self, o: &Self) -> (r: Ordering)
        ensures r == (if self.0 < o.0 { Ordering::Less } else if self.0 == o.0 { Ordering::Equal } else { Ordering::Greater })
    { unimplemented!() }
}
pub struct Authority { pub aid: AuthorityIdentifier, pub data: u64 }
impl Clone for Authority {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Authority {
    #[verifier::external_body]
    pub fn id(&self) -> (r: AuthorityIdentifier) ensures r == self.aid { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Authority) ensures r == *self { unimplemented!() }
}
/// The committee, by the contracts proved in C01: members listed once each in identifier order, looked up by identifier
pub struct Committee { pub members: Ghost<Seq<Authority>> }
impl Committee {
    pub open spec fn ids(self) -> Seq<AuthorityIdentifier> { self.members@.map_values(|a: Authority| a.aid) }
    pub open spec fn has(self, id: AuthorityIdentifier) -> bool { exists|i: int| 0 <= i < self.members@.len() && (#[trigger] self.members@[i]).aid == id }
    pub open spec fn auth(self, id: AuthorityIdentifier) -> Authority { let i = choose|i: int| 0 <= i < self.members@.len() && (#[trigger] self.members@[i]).aid == id; self.members@[i] }
    pub open spec fn wf(self) -> bool { &&& 1 < self.members@.len() <= 0x7fff
        &&& forall|i: int, j: int| 0 <= i < j < self.members@.len() ==> (#[trigger] self.members@[i]).aid.0 < (#[trigger] self.members@[j]).aid.0 }
    #[verifier::external_body]
    pub fn authority(&self, id: &AuthorityIdentifier) -> (r: Option<Authority>)
        ensures r == (if self.has(*id) { Some(self.auth(*id)) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn authorities(&self) -> (r: Vec<Authority>) ensures r@ == self.members@ { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == self.members@.len() { unimplemented!() }
}
//@item file=crates/types/src/primary/reputation.rs path="struct ReputationScores"
//@end
pub type Entry = (AuthorityIdentifier, u64);
/// best score first; equal scores by identifier, highest first
pub open spec fn before(a: Entry, b: Entry) -> bool { a.1 > b.1 || (a.1 == b.1 && a.0.0 >= b.0.0) }
pub open spec fn ranked(m: Map<AuthorityIdentifier, u64>, s: Seq<Entry>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> before(#[trigger] s[i], #[trigger] s[j])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: AuthorityIdentifier| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& s.len() == m.dom().len()
}
/// the ranking is a function of the scores alone
pub proof fn lemma_rank_unique(m: Map<AuthorityIdentifier, u64>, a: Seq<Entry>, b: Seq<Entry>)
    requires ranked(m, a), ranked(m, b),
    ensures a == b,
    decreases a.len(),
{
    if a.len() > 0 {
        let la = a.last(); let lb = b.last();
        assert(m.contains_key(la.0)); assert(m.contains_key(lb.0));
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == la.0;
        let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0 == lb.0;
        assert(b[i] == la); assert(a[j] == lb);
        if la != lb {
            assert(before(b[i], b[b.len() - 1])); assert(before(a[j], a[a.len() - 1]));
            assert(false);
        }
        let m2 = m.remove(la.0);
        let a2 = a.drop_last(); let b2 = b.drop_last();
        assert(m.contains_key(la.0));
        assert forall|k: AuthorityIdentifier| #[trigger] m2.contains_key(k) implies exists|i: int| 0 <= i < a2.len() && (#[trigger] a2[i]).0 == k by {
            assert(m.contains_key(k)); let q = choose|q: int| 0 <= q < a.len() && (#[trigger] a[q]).0 == k; assert(a2[q] == a[q]);
        }
        assert forall|k: AuthorityIdentifier| #[trigger] m2.contains_key(k) implies exists|i: int| 0 <= i < b2.len() && (#[trigger] b2[i]).0 == k by {
            assert(m.contains_key(k)); let q = choose|q: int| 0 <= q < b.len() && (#[trigger] b[q]).0 == k; assert(b2[q] == b[q]);
        }
        assert forall|i: int| 0 <= i < a2.len() implies m2.contains_key((#[trigger] a2[i]).0) && m2[a2[i].0] == a2[i].1 by { assert(a2[i] == a[i]); assert(a[i].0 != a[a.len() - 1].0); }
        assert forall|i: int| 0 <= i < b2.len() implies m2.contains_key((#[trigger] b2[i]).0) && m2[b2[i].0] == b2[i].1 by { assert(b2[i] == b[i]); assert(b[i].0 != b[b.len() - 1].0); }
        assert(m2.dom() =~= m.dom().remove(la.0));
        lemma_rank_unique(m2, a2, b2);
        assert(a =~= a2.push(la)); assert(b =~= b2.push(lb));
    } else { assert(b =~= a); }
}
/// entries listed in key order, permuted by the sort
proof fn lemma_sorted(m: Map<AuthorityIdentifier, u64>, ks: Seq<AuthorityIdentifier>, pre: Seq<Entry>, s: Seq<Entry>)
    requires
        ks.no_duplicates(), ks.len() == m.dom().len(), pre.len() == ks.len(),
        forall|i: int| 0 <= i < ks.len() ==> #[trigger] pre[i] == (ks[i], m[ks[i]]),
        forall|k: AuthorityIdentifier| #[trigger] ks.contains(k) <==> m.contains_key(k),
        s.to_multiset() == pre.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> before(#[trigger] s[i], #[trigger] s[j]),
    ensures ranked(m, s),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < s.len() implies pre.contains(#[trigger] s[i]) by { assert(s.contains(s[i])); assert(s.to_multiset().count(s[i]) > 0); }
    assert forall|i: int| 0 <= i < pre.len() implies s.contains(#[trigger] pre[i]) by { assert(pre.contains(pre[i])); assert(pre.to_multiset().count(pre[i]) > 0); }
    s.to_multiset_ensures(); pre.to_multiset_ensures();
    assert(s.len() == pre.len());
    assert(pre.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < pre.len() && 0 <= j < pre.len() && i != j implies pre[i] != pre[j] by { assert(ks[i] != ks[j]); } }
    pre.lemma_multiset_has_no_duplicates();
    s.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1 by {
        let q = choose|q: int| 0 <= q < pre.len() && pre[q] == s[i]; assert(pre[q] == (ks[q], m[ks[q]])); assert(ks.contains(ks[q]));
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by {
        if s[i].0 == s[j].0 { assert(s[i] == s[j]); assert(false); }
    }
    assert forall|k: AuthorityIdentifier| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
        assert(ks.contains(k)); let q = choose|q: int| 0 <= q < ks.len() && ks[q] == k; assert(pre[q].0 == k);
        let z = choose|z: int| 0 <= z < s.len() && s[z] == pre[q]; assert(s[z].0 == k);
    }
}
impl ReputationScores {
//@fn file=crates/types/src/primary/reputation.rs path="impl ReputationScores :: fn add_score"
//@spec
    requires old(self).scores_per_authority@.contains_key(*authority) ==> old(self).scores_per_authority@[*authority] + score <= u64::MAX,
    ensures
        final(self).final_of_schedule == old(self).final_of_schedule,
        final(self).scores_per_authority@ == old(self).scores_per_authority@.insert(*authority,
            if old(self).scores_per_authority@.contains_key(*authority) { (old(self).scores_per_authority@[*authority] + score) as u64 } else { score }),
//@end
//@fn file=crates/types/src/primary/reputation.rs path="impl ReputationScores :: fn total_authorities" ret=r
//@spec
    ensures r == self.scores_per_authority@.dom().len(),
//@end
//@fn file=crates/types/src/primary/reputation.rs path="impl ReputationScores :: fn all_zero" ret=r
//@clos any.0 &u64 -> (b: bool)
    ensures b == (*$0 > 0)
//@spec
    ensures r == (forall|k: AuthorityIdentifier| #[trigger] self.scores_per_authority@.contains_key(k) ==> self.scores_per_authority@[k] == 0),
//@tail vx_r
    proof {
        let m = self.scores_per_authority@; let ks = self.scores_per_authority.ks();
        if vx_r {
            assert forall|k: AuthorityIdentifier| #[trigger] m.contains_key(k) implies m[k] == 0 by { assert(m.dom().contains(k)); assert(ks.contains(k)); let i = ks.index_of(k); assert(ks[i] == k); }
        } else {
            let i = choose|i: int| 0 <= i < ks.len() && m[#[trigger] ks[i]] > 0; assert(m.contains_key(ks[i]));
        }
    }
//@end
//@fn file=crates/types/src/primary/reputation.rs path="impl ReputationScores :: fn authorities_by_score_desc" ret=r
//@clos map.0 (&AuthorityIdentifier, &u64) -> (r: (AuthorityIdentifier, u64))
    ensures r == (*$0.0, *$0.1)
//@clos sort_by.0 &(AuthorityIdentifier, u64) ; &(AuthorityIdentifier, u64) -> (r: Ordering)
    ensures r != Ordering::Greater ==> before(*$0, *$1)
//@spec
    ensures ranked(self.scores_per_authority@, r@),
//@after /\.collect\(\);/
    let ghost pre = authorities@;
//@tail vx_r
    proof { lemma_sorted(self.scores_per_authority@, self.scores_per_authority.ks(), pre, vx_r@); }
//@end
}

// ---- leader swap table
pub type HashMap<K, V> = BTreeMap<K, V>;
pub open spec fn score_max() -> u64 { 0x100_0000 }
pub open spec fn sat(a: nat, b: nat) -> nat { if a >= b { (a - b) as nat } else { 0 } }
pub open spec fn max_(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
/// length of the longest prefix whose last entry satisfies p
pub open spec fn prefix(s: Seq<Entry>, p: spec_fn(u64) -> bool) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else if p(s.last().1) { s.len() } else { prefix(s.drop_last(), p) }
}
pub open spec fn le_cnt(s: Seq<Entry>, c: nat) -> nat { prefix(s.reverse(), |x: u64| x <= c) }
pub open spec fn ge_cnt(s: Seq<Entry>, c: nat) -> nat { prefix(s, |x: u64| x >= c) }
proof fn lemma_prefix(s: Seq<Entry>, p: spec_fn(u64) -> bool)
    requires forall|i: int, j: int| 0 <= i < j < s.len() && p((#[trigger] s[j]).1) ==> p((#[trigger] s[i]).1),
    ensures prefix(s, p) <= s.len(), forall|i: int| 0 <= i < s.len() ==> (p((#[trigger] s[i]).1) <==> i < prefix(s, p)),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < t.len() && p((#[trigger] t[j]).1) implies p((#[trigger] t[i]).1) by { assert(t[i] == s[i]); assert(t[j] == s[j]); }
        lemma_prefix(t, p);
        assert forall|i: int| 0 <= i < s.len() implies (p((#[trigger] s[i]).1) <==> i < prefix(s, p)) by {
            if i < t.len() { assert(t[i] == s[i]); }
        }
    }
}
/// strictly increasing indexes that are exactly those below k
proof fn lemma_first_k(n: nat, ix: Seq<int>, k: nat)
    requires fm_ix(n, ix), k <= n, forall|i: int| 0 <= i < n ==> (#[trigger] ix.contains(i) <==> i < k),
    ensures ix.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] ix[i] == i,
{
    assert forall|i: int| 0 <= i < ix.len() implies #[trigger] ix[i] >= i by { lemma_ix_ge(n, ix, i); }
    assert(ix.len() <= k) by { if ix.len() > 0 { let l = ix[ix.len() - 1]; assert(ix.contains(l)); } }
    lemma_ix_is(n, ix, k, k as int);
}
proof fn lemma_ix_ge(n: nat, ix: Seq<int>, i: int)
    requires fm_ix(n, ix), 0 <= i < ix.len(),
    ensures ix[i] >= i,
    decreases i,
{ if i > 0 { lemma_ix_ge(n, ix, i - 1); assert(ix[i - 1] < ix[i]); } }
proof fn lemma_ix_is(n: nat, ix: Seq<int>, k: nat, m: int)
    requires fm_ix(n, ix), k <= n, 0 <= m <= k, forall|i: int| 0 <= i < n ==> (#[trigger] ix.contains(i) <==> i < k), ix.len() <= k,
    ensures m <= ix.len(), forall|i: int| 0 <= i < m ==> #[trigger] ix[i] == i,
    decreases m,
{
    if m > 0 {
        lemma_ix_is(n, ix, k, m - 1);
        assert(ix.contains(m - 1));
        let q = choose|q: int| 0 <= q < ix.len() && ix[q] == m - 1;
        lemma_ix_ge(n, ix, q);
        if q < m - 1 { assert(ix[q] == q); }
    }
}
/// the entries at or below c are the last le_cnt ones
proof fn lemma_le(s: Seq<Entry>, c: nat)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> before(#[trigger] s[i], #[trigger] s[j]),
    ensures le_cnt(s, c) <= s.len(), forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]).1 <= c <==> s.len() - 1 - i < le_cnt(s, c)),
{
    let p = |x: u64| x <= c; let rv = s.reverse();
    assert forall|i: int, j: int| 0 <= i < j < rv.len() && p((#[trigger] rv[j]).1) implies p((#[trigger] rv[i]).1) by { assert(before(s[rv.len() - 1 - j], s[rv.len() - 1 - i])); }
    lemma_prefix(rv, p);
    assert forall|i: int| 0 <= i < s.len() implies ((#[trigger] s[i]).1 <= c <==> s.len() - 1 - i < le_cnt(s, c)) by { assert(rv[s.len() - 1 - i] == s[i]); }
}
proof fn lemma_bceil(s: Seq<Entry>, c: nat, sd: nat, thr: nat)
    ensures bceil(s, c, sd, thr) <= c,
    decreases c,
{ if !(sd == 0 || le_cnt(s, c) <= thr || c == 0) { lemma_bceil(s, sat(c, sd), sd, thr); } }
/// the map built from members under their own identifier
proof fn lemma_by_id(com: Committee, l: Seq<(AuthorityIdentifier, Authority)>, a: Seq<Authority>, ids: Seq<AuthorityIdentifier>)
    requires l.len() == a.len(), ids.len() == a.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == (a[i].aid, a[i]),
        forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == com.auth(ids[i]) && com.has(ids[i]),
    ensures
        forall|k: AuthorityIdentifier| #[trigger] map_of(l).contains_key(k) <==> ids.contains(k),
        forall|k: AuthorityIdentifier| #[trigger] map_of(l).contains_key(k) ==> map_of(l)[k] == com.auth(k),
    decreases l.len(),
{
    if l.len() > 0 {
        let l2 = l.drop_last(); let a2 = a.drop_last(); let i2 = ids.drop_last();
        assert forall|i: int| 0 <= i < l2.len() implies #[trigger] l2[i] == (a2[i].aid, a2[i]) by { assert(l[i] == (a[i].aid, a[i])); }
        assert forall|i: int| 0 <= i < a2.len() implies #[trigger] a2[i] == com.auth(i2[i]) && com.has(i2[i]) by { assert(a[i] == com.auth(ids[i])); }
        lemma_by_id(com, l2, a2, i2);
        let z = l.len() - 1;
        assert(l[z] == (a[z].aid, a[z])); assert(a[z] == com.auth(ids[z])); assert(com.auth(ids[z]).aid == ids[z]);
        assert(l.last() == (ids[z], com.auth(ids[z])));
        assert forall|k: AuthorityIdentifier| #[trigger] map_of(l).contains_key(k) <==> ids.contains(k) by {
            assert(map_of(l) == map_of(l2).insert(l.last().0, l.last().1));
            if ids.contains(k) { let q = choose|q: int| 0 <= q < ids.len() && ids[q] == k; if q < z { assert(i2[q] == k); assert(i2.contains(k)); } }
            if i2.contains(k) { let q = choose|q: int| 0 <= q < i2.len() && i2[q] == k; assert(ids[q] == k); }
            if k == ids[z] { assert(ids.contains(k)); }
        }
        assert forall|k: AuthorityIdentifier| #[trigger] map_of(l).contains_key(k) implies map_of(l)[k] == com.auth(k) by { assert(map_of(l) == map_of(l2).insert(l.last().0, l.last().1)); if k != ids[z] { assert(map_of(l2).contains_key(k)); } }
    }
}
/// what filtering a list by score and looking the members up gives
pub open spec fn chosen(s: Seq<Entry>, com: Committee, p: spec_fn(u64) -> bool, out: Seq<Authority>, ix: Seq<int>) -> bool {
    &&& fm_ix(s.len(), ix) && ix.len() == out.len()
    &&& forall|j: int| 0 <= j < ix.len() ==> p(s[#[trigger] ix[j]].1) && out[j] == com.auth(s[ix[j]].0)
    &&& forall|i: int| 0 <= i < s.len() && !#[trigger] ix.contains(i) ==> !p(s[i].1)
}
proof fn lemma_chosen(s: Seq<Entry>, com: Committee, p: spec_fn(u64) -> bool, out: Seq<Authority>)
    requires
        exists|ix: Seq<int>| #[trigger] chosen(s, com, p, out, ix),
        forall|i: int, j: int| 0 <= i < j < s.len() && p((#[trigger] s[j]).1) ==> p((#[trigger] s[i]).1),
    ensures out == Seq::new(prefix(s, p), |i: int| com.auth(s[i].0)), prefix(s, p) <= s.len(),
        forall|i: int| 0 <= i < s.len() ==> (p((#[trigger] s[i]).1) <==> i < prefix(s, p)),
{
    let ix = choose|ix: Seq<int>| #[trigger] chosen(s, com, p, out, ix);
    lemma_prefix(s, p);
    let k = prefix(s, p);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] ix.contains(i) <==> i < k) by {
        if ix.contains(i) { let j = choose|j: int| 0 <= j < ix.len() && ix[j] == i; assert(p(s[ix[j]].1)); assert(p(s[i].1)); }
        else { assert(!p(s[i].1)); }
    }
    lemma_first_k(s.len(), ix, k);
    assert(out =~= Seq::new(k, |i: int| com.auth(s[i].0))) by {
        assert forall|i: int| 0 <= i < k implies out[i] == com.auth(s[i].0) by { assert(ix[i] == i); }
    }
}
/// the bad ceiling: lowered by `sd` until at most `thr` are at or below it (or it is zero)
pub open spec fn bceil(s: Seq<Entry>, c: nat, sd: nat, thr: nat) -> nat decreases c {
    if sd == 0 || le_cnt(s, c) <= thr || c == 0 { c } else { bceil(s, sat(c, sd), sd, thr) }
}
/// the good floor: lowered by `sd`, never to `m` or below, until at least `thr` are at or above it
pub open spec fn gfloor(s: Seq<Entry>, g: nat, sd: nat, thr: nat, m: nat) -> nat decreases g {
    if ge_cnt(s, g) >= thr || max_(sat(g, sd), m) >= g { g } else { gfloor(s, max_(sat(g, sd), m), sd, thr, m) }
}
pub open spec fn score_seq(s: Seq<Entry>) -> Seq<u64> { s.map_values(|e: Entry| e.1) }
pub open spec fn sqd(a: u64, m: u64) -> u64 { ((a - m) * (a - m)) as u64 }
pub open spec fn sq_seq(s: Seq<Entry>, m: u64) -> Seq<u64> { s.map_values(|e: Entry| sqd(e.1, m)) }
pub open spec fn mean(s: Seq<Entry>) -> u64 { (seq_sum(score_seq(s)) / s.len()) as u64 }
pub uninterp spec fn isqrt(x: u64) -> u64;
pub open spec fn sdev(s: Seq<Entry>) -> u64 { isqrt((seq_sum(sq_seq(s, mean(s))) / s.len()) as u64) }
/// assumed: truncating the IEEE square root of an integer below 2^52 is the integer square root
#[verifier::external_body]
pub fn vx_sqrt(x: u64) -> (r: u64) requires x < 0x10_0000_0000_0000, ensures r == isqrt(x), r < 0x400_0000, r * r <= x < (r + 1) * (r + 1) { unimplemented!() }
proof fn lemma_sum_bound(s: Seq<u64>, b: u64)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= b,
    ensures seq_sum(s) <= s.len() * b,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] <= b by { assert(t[i] == s[i]); }
        lemma_sum_bound(t, b);
        assert(s[s.len() - 1] <= b);
        assert(s.len() * b == t.len() * b + b) by (nonlinear_arith) requires s.len() == t.len() + 1;
    }
}
proof fn lemma_div_bound(a: nat, n: nat, b: nat)
    requires a <= n * b, n > 0,
    ensures a / n <= b,
{ assert(a / n <= b) by (nonlinear_arith) requires a <= n * b, n > 0; }
proof fn lemma_sq(a: u64, m: u64)
    requires a <= 0x100_0000, m <= 0x100_0000,
    ensures 0 <= (a - m) * (a - m) <= 0x1_0000_0000_0000,
{ assert(0 <= (a - m) * (a - m) <= 0x1_0000_0000_0000) by (nonlinear_arith) requires 0 <= a <= 0x100_0000, 0 <= m <= 0x100_0000; }
/// facts of the statistics of a ranking
proof fn lemma_stats(s: Seq<Entry>)
    requires 0 < s.len() <= 0x7fff, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 <= score_max(),
    ensures
        mean(s) <= score_max(), seq_sum(score_seq(s)) / s.len() == mean(s),
        seq_sum(sq_seq(s, mean(s))) <= u64::MAX, seq_sum(sq_seq(s, mean(s))) / s.len() <= 0x1_0000_0000_0000,
        (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 == 0) ==> seq_sum(sq_seq(s, mean(s))) / s.len() == 0,
{
    let sc = score_seq(s);
    assert forall|i: int| 0 <= i < sc.len() implies #[trigger] sc[i] <= score_max() by { assert(sc[i] == s[i].1); }
    lemma_sum_bound(sc, score_max()); lemma_div_bound(seq_sum(sc), s.len(), score_max() as nat);
    let m = mean(s); let q = sq_seq(s, m);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] <= 0x1_0000_0000_0000u64 by { lemma_sq(s[i].1, m); }
    lemma_sum_bound(q, 0x1_0000_0000_0000); lemma_div_bound(seq_sum(q), s.len(), 0x1_0000_0000_0000);
    assert(s.len() * 0x1_0000_0000_0000 <= u64::MAX) by (nonlinear_arith) requires s.len() <= 0x7fff;
    if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 == 0 {
        assert forall|i: int| 0 <= i < sc.len() implies #[trigger] sc[i] <= 0u64 by { assert(sc[i] == s[i].1); }
        lemma_sum_bound(sc, 0);
        assert(m == 0) by { lemma_div_bound(seq_sum(sc), s.len(), 0); }
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] <= 0u64 by { assert(s[i].1 == 0); assert(q[i] == sqd(0, 0)); assert(sqd(0, 0) == 0) by (compute); }
        lemma_sum_bound(q, 0); lemma_div_bound(seq_sum(q), s.len(), 0);
    }
}
//@item file=crates/consensus/primary/src/consensus/leader_schedule.rs path="struct LeaderSwapTable"
//@end
/// what the table must be for the ranking s
pub open spec fn table_ok(t: LeaderSwapTable, com: Committee, s: Seq<Entry>, pct: u64) -> bool {
    let thr = max_((s.len() * pct) as nat / 100, 1);
    let hi = s[0].1 as nat; let lo = s.last().1 as nat; let sd = sdev(s) as nat;
    let c0 = sat(hi, 2 * sd);
    if sd == 0 || lo > c0 { t.good_nodes@.len() == 0 && t.bad_nodes@ == Map::<AuthorityIdentifier, Authority>::empty() }
    else {
        let bc = bceil(s, c0, sd, thr);
        let gf = gfloor(s, max_(sat(hi, sd), bc + 1), sd, thr, bc + 1);
        &&& t.good_nodes@ == Seq::new(ge_cnt(s, gf), |i: int| com.auth(s[i].0))
        &&& forall|k: AuthorityIdentifier| #[trigger] t.bad_nodes@.contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 <= bc && s[i].0 == k
        &&& forall|k: AuthorityIdentifier| #[trigger] t.bad_nodes@.contains_key(k) ==> t.bad_nodes@[k] == com.auth(k)
    }
}
impl LeaderSwapTable {
//@fn file=crates/consensus/primary/src/consensus/leader_schedule.rs path="impl LeaderSwapTable :: fn new" ret=r
//@sub? /\(0\.\.=33\)\.contains\( & (\w+) \)/ => (\1 <= 33)
//@sub? /\(standard_dev as f64\)\.sqrt\(\) as u64/ => vx_sqrt(standard_dev)
//@sub? /\|\(_, r\)\| r\b/ => |(_, r)| *r
//@sub? /(\w+) \.into_iter\(\)/ => vx_into_iter(\1)
//@desugar opt.unwrap_or
//@clos map.0 &(AuthorityIdentifier, u64) -> (x: u64)
    ensures x == $0.1
//@clos map.1 &(AuthorityIdentifier, u64) -> (x: u64)
    ensures x == $0.1
//@clos map.2 &(AuthorityIdentifier, u64) -> (x: u64)
    ensures x == $0.1
//@clos map.3 &(AuthorityIdentifier, u64) -> (x: u64)
    requires $0.1 <= score_max(), mean_rep <= score_max(), ensures x == sqd($0.1, mean_rep)
//@clos map.4 Authority -> (x: (AuthorityIdentifier, Authority))
    ensures x == ($0.aid, $0)
//@clos for_each.1? (&AuthorityIdentifier, &Authority) -> (u: ())
    ensures true
//@clos filter_map.0 &(AuthorityIdentifier, u64) -> (x: Option<Authority>)
    ensures x == (if $0.1 <= bad_ceil && committee.has($0.0) { Some(committee.auth($0.0)) } else { None })
//@clos filter_map.1 &(AuthorityIdentifier, u64) -> (x: Option<Authority>)
    ensures x == (if $0.1 >= good_floor && committee.has($0.0) { Some(committee.auth($0.0)) } else { None })
//@spec
    requires
        committee.wf(), 0 < reputation_scores.scores_per_authority@.dom().len() <= 0x7fff,
        reputation_scores.final_of_schedule, bad_nodes_percent_threshold <= 33,
        forall|k: AuthorityIdentifier| #[trigger] reputation_scores.scores_per_authority@.contains_key(k) ==> committee.has(k) && reputation_scores.scores_per_authority@[k] <= score_max(),
    ensures
        r.round == round,
        forall|s: Seq<Entry>| #[trigger] ranked(reputation_scores.scores_per_authority@, s) ==> table_ok(r, *committee, s, bad_nodes_percent_threshold),
//@before /let list_threshold =/
    let ghost sq = auths_by_score@;
    let ghost m = reputation_scores.scores_per_authority@;
    proof {
        assert forall|i: int| 0 <= i < sq.len() implies committee.has((#[trigger] sq[i]).0) && sq[i].1 <= score_max() by { assert(m.contains_key(sq[i].0)); }
        lemma_stats(sq);
        assert(sq.len() * bad_nodes_percent_threshold <= 0x7fff * 33) by (nonlinear_arith) requires sq.len() <= 0x7fff, bad_nodes_percent_threshold <= 33;
        assert forall|s: Seq<Entry>| #[trigger] ranked(m, s) implies s == sq by { lemma_rank_unique(m, s, sq); }
        assert forall|t: Seq<u64>| t.len() == sq.len() && (forall|i: int| 0 <= i < sq.len() ==> #[trigger] t[i] == sq[i].1) implies #[trigger] seq_sum(t) == seq_sum(score_seq(sq)) by { assert(t =~= score_seq(sq)); }
    }
//@before /\(v \* v\) as u64/
    proof { lemma_sq(*r, mean_rep); }
//@before /let mut standard_dev/
    proof {
        assert(mean_rep == mean(sq));
        assert forall|i: int| 0 <= i < sq.len() implies #[trigger] sqd(sq[i].1, mean_rep) <= 0x1_0000_0000_0000 by { lemma_sq(sq[i].1, mean_rep); }
        assert forall|t: Seq<u64>| t.len() == sq.len() && (forall|i: int| 0 <= i < sq.len() ==> #[trigger] t[i] == sqd(sq[i].1, mean_rep)) implies #[trigger] seq_sum(t) == seq_sum(sq_seq(sq, mean_rep)) by { assert(t =~= sq_seq(sq, mean_rep)); }
    }
//@before /if bad_nodes \. len\( \) <=/
    let ghost bc = bad_ceil;
    proof {
        let p = |x: u64| x <= bc as nat; let rv = sq.reverse();
        assert forall|i: int, j: int| 0 <= i < j < rv.len() && p((#[trigger] rv[j]).1) implies p((#[trigger] rv[i]).1) by { assert(before(sq[rv.len() - 1 - j], sq[rv.len() - 1 - i])); }
        assert(exists|ix: Seq<int>| #[trigger] fm_ix(rv.len(), ix) && chosen(rv, *committee, p, bad_nodes@, ix));
        lemma_chosen(rv, *committee, p, bad_nodes@);
        assert(bad_nodes@ =~= Seq::new(le_cnt(sq, bc as nat), |i: int| committee.auth(sq[sq.len() - 1 - i].0)));
    }
//@before /if good_nodes \. len\( \) >=/
    let ghost gg = good_floor;
    proof {
        let p = |x: u64| x >= gg as nat;
        assert forall|i: int, j: int| 0 <= i < j < sq.len() && p((#[trigger] sq[j]).1) implies p((#[trigger] sq[i]).1) by { assert(before(sq[i], sq[j])); }
        assert(exists|ix: Seq<int>| #[trigger] fm_ix(sq.len(), ix) && chosen(sq, *committee, p, good_nodes@, ix));
        lemma_chosen(sq, *committee, p, good_nodes@);
        assert(p(sq[0].1)); assert(0int < prefix(sq, p)); assert(prefix(sq, p) == ge_cnt(sq, gg as nat));
    }
//@loop 0
    invariant
        old_bad_ceil == bad_ceil, standard_dev > 0, auths_by_score@ == sq, list_threshold == max_((sq.len() * bad_nodes_percent_threshold) as nat / 100, 1),
        sq.len() > 0, ranked(m, sq), forall|i: int| 0 <= i < sq.len() ==> committee.has((#[trigger] sq[i]).0),
        bad_ceil <= sat(sq[0].1 as nat, 2 * standard_dev as nat),
        bceil(sq, bad_ceil as nat, standard_dev as nat, list_threshold as nat) == bceil(sq, sat(sq[0].1 as nat, 2 * standard_dev as nat), standard_dev as nat, list_threshold as nat),
    ensures
        bad_ceil == bceil(sq, sat(sq[0].1 as nat, 2 * standard_dev as nat), standard_dev as nat, list_threshold as nat),
        vx_l0@ == Seq::new(le_cnt(sq, bad_ceil as nat), |i: int| committee.auth(sq[sq.len() - 1 - i].0)),
    decreases bad_ceil,
//@loop 1
    invariant
        old_good_floor == good_floor, standard_dev > 0, auths_by_score@ == sq, list_threshold == max_((sq.len() * bad_nodes_percent_threshold) as nat / 100, 1),
        sq.len() > 0, ranked(m, sq), forall|i: int| 0 <= i < sq.len() ==> committee.has((#[trigger] sq[i]).0),
        bad_ceil < sq[0].1, bad_ceil + 1 <= good_floor <= sq[0].1,
        gfloor(sq, good_floor as nat, standard_dev as nat, list_threshold as nat, (bad_ceil + 1) as nat) == gf,
    ensures
        vx_l1@ == Seq::new(ge_cnt(sq, gf), |i: int| committee.auth(sq[i].0)),
        bad_ceil + 1 <= gf <= sq[0].1, ge_cnt(sq, gf) >= 1, ge_cnt(sq, gf) <= sq.len(),
    decreases good_floor,
//@before /let mut bad_ceil =/
    proof {
        if sq[0].1 == 0 {
            assert forall|i: int| 0 <= i < sq.len() implies (#[trigger] sq[i]).1 == 0 by { if i > 0 { assert(before(sq[0], sq[i])); } }
            assert(standard_dev == 0) by (nonlinear_arith) requires standard_dev * standard_dev <= 0;
        }
        lemma_bceil(sq, sat(sq[0].1 as nat, 2 * standard_dev as nat), standard_dev as nat, list_threshold as nat);
    }
//@before /let bad_nodes = (vx_into_iter|bad_nodes)/
    let ghost badl = bad_nodes@;
//@before /\( good_nodes, bad_nodes \) \} ;/
    proof {
        let n = le_cnt(sq, bad_ceil as nat);
        let ids = Seq::new(n, |i: int| sq[sq.len() - 1 - i].0);
        lemma_le(sq, bad_ceil as nat);
        assert forall|i: int| 0 <= i < badl.len() implies #[trigger] badl[i] == committee.auth(ids[i]) && committee.has(ids[i]) by { assert(committee.has(sq[sq.len() - 1 - i].0)); }
        assert forall|l: Seq<(AuthorityIdentifier, Authority)>| l.len() == badl.len() && (forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == (badl[i].aid, badl[i])) implies
            (forall|k: AuthorityIdentifier| #[trigger] map_of(l).contains_key(k) <==> ids.contains(k)) && (forall|k: AuthorityIdentifier| #[trigger] map_of(l).contains_key(k) ==> map_of(l)[k] == committee.auth(k)) by { lemma_by_id(*committee, l, badl, ids); }
        assert(forall|k: AuthorityIdentifier| #[trigger] bad_nodes@.contains_key(k) <==> ids.contains(k));
        assert forall|k: AuthorityIdentifier| #[trigger] ids.contains(k) <==> exists|i: int| 0 <= i < sq.len() && (#[trigger] sq[i]).1 <= bad_ceil && sq[i].0 == k by {
            if ids.contains(k) { let q = choose|q: int| 0 <= q < ids.len() && ids[q] == k; assert(sq[sq.len() - 1 - q].1 <= bad_ceil); }
            if exists|i: int| 0 <= i < sq.len() && (#[trigger] sq[i]).1 <= bad_ceil && sq[i].0 == k {
                let i = choose|i: int| 0 <= i < sq.len() && (#[trigger] sq[i]).1 <= bad_ceil && sq[i].0 == k;
                assert(ids[sq.len() - 1 - i] == k);
            }
        }
    }
//@beforeloop 1
    let ghost gf = gfloor(sq, good_floor as nat, standard_dev as nat, list_threshold as nat, (bad_ceil + 1) as nat);
//@end
//@fn file=crates/consensus/primary/src/consensus/leader_schedule.rs path="impl LeaderSwapTable :: fn swap" ret=r
//@sub? /seed_bytes\[32 - 8\.\.\]\.copy_from_slice\(&(.*?vx_le\(\))\);/ => vx_put8(&mut seed_bytes, 32 - 8, &\1);
//@spec
    requires self.usable(),
    ensures r == (if self.bad_nodes@.contains_key(*leader) { Some(self.good_nodes@[pick(seed_of(leader_round), self.good_nodes@.len())]) } else { None }),
        r is Some ==> self.good_nodes@.len() > 0,
//@before /let mut rng/
    proof { assert(seed_bytes@ =~= seed_of(leader_round)); }
//@end
}
/// swap candidates exist whenever somebody can be swapped out (from `theorem_table`)
impl LeaderSwapTable { pub open spec fn usable(self) -> bool { self.bad_nodes@ == Map::<AuthorityIdentifier, Authority>::empty() || self.good_nodes@.len() > 0 } }
// ---- the pinned generator
pub struct ChaCha12Rng { pub seed: Ghost<Seq<u8>> }
impl ChaCha12Rng {
    #[verifier::external_body]
    pub fn from_seed(b: [u8; 32]) -> (r: Self) ensures r.seed@ == b@ { unimplemented!() }
}
/// index the pinned generator draws first for a list of n (a function of the seed and n only)
pub uninterp spec fn pick(seed: Seq<u8>, n: nat) -> int;
pub trait VxChoose<T> { spec fn vx_cs(&self) -> Seq<T>;
    fn choose<'a>(&'a self, rng: &mut ChaCha12Rng) -> (r: Option<&'a T>)
        ensures r is None == (self.vx_cs().len() == 0), r matches Some(x) ==> 0 <= pick(old(rng).seed@, self.vx_cs().len()) < self.vx_cs().len() && *x == self.vx_cs()[pick(old(rng).seed@, self.vx_cs().len())]; }
impl<T> VxChoose<T> for Vec<T> {
    open spec fn vx_cs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn choose<'a>(&'a self, rng: &mut ChaCha12Rng) -> (r: Option<&'a T>) { unimplemented!() }
}
pub open spec fn seed_of(round: Round) -> Seq<u8> { Seq::new(24, |i: int| 0u8) + le64(round as u64) }
#[verifier::external_body]
pub fn vx_put8(b: &mut [u8; 32], at: usize, v: &[u8; 8])
    requires at + 8 <= 32,
    ensures final(b)@ == old(b)@.subrange(0, at as int) + v@ + old(b)@.subrange(at + 8, 32),
{ unimplemented!() }
/// what a node may rely on: swapped-out and swapped-in validators are members, never both, and there is always a stand-in
pub proof fn theorem_table(t: LeaderSwapTable, com: Committee, s: Seq<Entry>, pct: u64, m: Map<AuthorityIdentifier, u64>)
    requires
        com.wf(), ranked(m, s), 0 < s.len() <= 0x7fff, pct <= 33, isqrt(0) == 0,
        forall|k: AuthorityIdentifier| #[trigger] m.contains_key(k) ==> com.has(k) && m[k] <= score_max(),
        table_ok(t, com, s, pct),
    ensures
        t.usable(),
        forall|i: int| 0 <= i < t.good_nodes@.len() ==> !t.bad_nodes@.contains_key((#[trigger] t.good_nodes@[i]).aid) && com.members@.contains(t.good_nodes@[i]),
        forall|k: AuthorityIdentifier| #[trigger] t.bad_nodes@.contains_key(k) ==> com.has(k),
        t.bad_nodes@.dom().len() <= max_((s.len() * pct) as nat / 100, 1) || forall|k: AuthorityIdentifier| #[trigger] t.bad_nodes@.contains_key(k) ==> m[k] == 0,
{
    let thr = max_((s.len() * pct) as nat / 100, 1);
    let hi = s[0].1 as nat; let lo = s.last().1 as nat; let sd = sdev(s) as nat; let c0 = sat(hi, 2 * sd);
    if sd == 0 || lo > c0 {
        assert(t.bad_nodes@.dom() =~= Set::empty());
    } else {
        let bc = bceil(s, c0, sd, thr);
        let m1 = bc + 1;
        assert forall|i: int| 0 <= i < s.len() implies com.has((#[trigger] s[i]).0) && s[i].1 <= score_max() by { assert(m.contains_key(s[i].0)); }
        lemma_stats(s);
        if s[0].1 == 0 { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1 == 0 by { if i > 0 { assert(before(s[0], s[i])); } } assert(false); }
        lemma_bceil(s, c0, sd, thr); lemma_bceil_stop(s, c0, sd, thr);
        let g0 = max_(sat(hi, sd), m1);
        lemma_gfloor(s, g0, sd, thr, m1);
        let gf = gfloor(s, g0, sd, thr, m1);
        let p = |x: u64| x >= gf;
        assert forall|i: int, j: int| 0 <= i < j < s.len() && p((#[trigger] s[j]).1) implies p((#[trigger] s[i]).1) by { assert(before(s[i], s[j])); }
        lemma_prefix(s, p);
        assert(p(s[0].1)); assert(prefix(s, p) == ge_cnt(s, gf)); assert(0int < prefix(s, p));
        assert forall|i: int| 0 <= i < t.good_nodes@.len() implies !t.bad_nodes@.contains_key((#[trigger] t.good_nodes@[i]).aid) && com.members@.contains(t.good_nodes@[i]) by {
            assert(p(s[i].1)); assert(com.has(s[i].0)); assert(t.good_nodes@[i] == com.auth(s[i].0)); assert(com.auth(s[i].0).aid == s[i].0);
            assert forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 <= bc implies s[j].0 != s[i].0 by { if j < i { assert(s[j].0 != s[i].0); } else if i < j { assert(s[i].0 != s[j].0); } }
        }
        assert forall|k: AuthorityIdentifier| #[trigger] t.bad_nodes@.contains_key(k) implies com.has(k) && m.contains_key(k) && m[k] <= bc by {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 <= bc && s[i].0 == k; assert(com.has(s[i].0));
        }
        let n = le_cnt(s, bc);
        lemma_le(s, bc);
        let ids = Seq::new(n, |i: int| s[s.len() - 1 - i].0);
        assert(t.bad_nodes@.dom().subset_of(ids.to_set())) by {
            assert forall|k: AuthorityIdentifier| t.bad_nodes@.dom().contains(k) implies #[trigger] ids.to_set().contains(k) by {
                assert(t.bad_nodes@.contains_key(k));
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 <= bc && s[i].0 == k;
                assert(ids[s.len() - 1 - i] == k); assert(ids.contains(k));
            }
        }
        vstd::set_lib::lemma_len_subset(t.bad_nodes@.dom(), ids.to_set());
        ids.lemma_cardinality_of_set();
    }
}
proof fn lemma_bceil_stop(s: Seq<Entry>, c: nat, sd: nat, thr: nat)
    requires sd > 0,
    ensures le_cnt(s, bceil(s, c, sd, thr)) <= thr || bceil(s, c, sd, thr) == 0,
    decreases c,
{ if !(le_cnt(s, c) <= thr || c == 0) { lemma_bceil_stop(s, sat(c, sd), sd, thr); } }
proof fn lemma_gfloor(s: Seq<Entry>, g: nat, sd: nat, thr: nat, m: nat)
    requires g >= m,
    ensures m <= gfloor(s, g, sd, thr, m) <= g,
    decreases g,
{ if !(ge_cnt(s, g) >= thr || max_(sat(g, sd), m) >= g) { lemma_gfloor(s, max_(sat(g, sd), m), sd, thr, m); } }
// ---- the schedule
/// `Arc<RwLock<T>>` read under the lock
pub struct Lock<T> { pub v: T }
impl<T> Lock<T> {
    #[verifier::external_body]
    pub fn read<'a>(&'a self) -> (r: &'a T) ensures *r == self.v { unimplemented!() }
}
//@item file=crates/consensus/primary/src/consensus/leader_schedule.rs path="struct LeaderSchedule"
//@sub /Arc<RwLock<LeaderSwapTable>>/ => Lock<LeaderSwapTable>
//@end
/// round robin over the members in identifier order, one step every two rounds
pub open spec fn turn(round: Round, n: nat) -> int { if round < 2 { 0 } else { ((round as int) / 2 - 1) % (n as int) } }
pub open spec fn leader_of(ls: LeaderSchedule, round: Round) -> Authority {
    let l = ls.committee.members@[turn(round, ls.committee.members@.len())];
    let t = ls.leader_swap_table.v;
    if t.bad_nodes@.contains_key(l.aid) { t.good_nodes@[pick(seed_of(round), t.good_nodes@.len())] } else { l }
}
impl LeaderSchedule {
//@fn file=crates/consensus/primary/src/consensus/leader_schedule.rs path="impl LeaderSchedule :: fn leader" ret=r
//@desugar opt.unwrap_or
//@spec
    requires self.committee.wf(), round % 2 == 0, self.leader_swap_table.v.usable(),
    ensures r == leader_of(*self, round),
//@head
    proof {
        let n = self.committee.members@.len();
        vstd::arithmetic::div_mod::lemma_small_mod(0, n);
        if round >= 2 { vstd::arithmetic::div_mod::lemma_mod_bound(round as int / 2 - 1, n as int); }
    }
//@end
//@fn file=crates/consensus/primary/src/consensus/leader_schedule.rs path="impl LeaderSchedule :: fn num_of_bad_nodes" ret=r
//@spec
    ensures r == self.leader_swap_table.v.bad_nodes@.dom().len(),
//@end
}
}
fn main() {}
