//@known BTreeMap BTreeSet
// assumed contracts of std's ordered collections: a finite map / set whose iteration order is a function of its key set
pub mod vx_btree {
use vstd::prelude::*;
use super::vx_viter::*;
/// the iteration order (ascending under Ord)
pub uninterp spec fn sorted_keys<K>(s: Set<K>) -> Seq<K>;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
/// the map collected from pairs: later pairs win
pub open spec fn map_of<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1) }
}
impl<K, V> FromSeq<(K, V)> for BTreeMap<K, V> { open spec fn built(s: Seq<(K, V)>, r: Self) -> bool { r@ == map_of(s) } }
impl<K, V> BTreeMap<K, V> {
    pub open spec fn ks(self) -> Seq<K> { sorted_keys(self@.dom()) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0), r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures
            r matches Some(v) ==> old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            r is None ==> !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>)
        ensures r@.len() == self.ks().len(), forall|i: int| #![trigger r@[i]] #![trigger self.ks()[i]] 0 <= i < self.ks().len() ==> *((r@[i]).0) == self.ks()[i] && *(r@[i].1) == self@[self.ks()[i]],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: VIter<&'a K>)
        ensures r@.len() == self.ks().len(), forall|i: int| #![trigger r@[i]] #![trigger self.ks()[i]] 0 <= i < self.ks().len() ==> *(r@[i]) == self.ks()[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: VIter<&'a V>)
        ensures r@.len() == self.ks().len(), forall|i: int| #![trigger r@[i]] #![trigger self.ks()[i]] 0 <= i < self.ks().len() ==> *(r@[i]) == self@[self.ks()[i]],
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { k: core::marker::PhantomData<K> }
impl<K> View for BTreeSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> FromSeq<K> for BTreeSet<K> { open spec fn built(s: Seq<K>, r: Self) -> bool { r@ == s.to_set() } }
impl<K> BTreeSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K>::empty()), r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VIter<&'a K>)
        ensures r@.len() == sorted_keys(self@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == sorted_keys(self@)[i],
    { unimplemented!() }
}
pub broadcast axiom fn axiom_sorted_keys<K>(s: Set<K>)
    ensures #![trigger sorted_keys(s)] sorted_keys(s).no_duplicates(), sorted_keys(s).to_set() == s, sorted_keys(s).len() == s.len(),
        forall|k: K| sorted_keys(s).contains(k) <==> #[trigger] s.contains(k),
        forall|i: int| 0 <= i < sorted_keys(s).len() ==> s.contains(#[trigger] sorted_keys(s)[i]);
pub broadcast axiom fn axiom_btree_finite<K, V>(m: BTreeMap<K, V>)
    ensures #[trigger] m@.dom().len() <= usize::MAX;
pub broadcast axiom fn axiom_btreeset_finite<K>(m: BTreeSet<K>)
    ensures #[trigger] m@.len() <= usize::MAX;
    pub broadcast group group_btree { axiom_sorted_keys, axiom_btree_finite, axiom_btreeset_finite }
}
pub use vx_btree::{BTreeMap, BTreeSet, sorted_keys, map_of};
