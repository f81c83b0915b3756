//@known HashMap FxHashMap HashSet
// assumed contract of std's HashMap: a finite map (iteration order unspecified)
pub mod vx_hashmap {
use vstd::prelude::*;
use super::vx_viter::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
/// `s` lists every entry of `m` once
pub open spec fn lists<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 != s[j].0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: VIter<(K, V)>) ensures final(self)@ == Map::<K, V>::empty(), lists(r@, old(self)@) { unimplemented!() }
    /// later entries win
    #[verifier::external_body]
    pub fn extend(&mut self, v: Vec<(K, V)>)
        ensures
            forall|k: K| #[trigger] final(self)@.contains_key(k) <==> old(self)@.contains_key(k) || exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0 == k,
            forall|k: K| !(exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0 == k) && old(self)@.contains_key(k) ==> #[trigger] final(self)@[k] == old(self)@[k],
            (forall|i: int, j: int| #![trigger v@[i], v@[j]] 0 <= i < j < v@.len() ==> v@[i].0 != v@[j].0) ==> forall|i: int| 0 <= i < v@.len() ==> final(self)@[(#[trigger] v@[i]).0] == v@[i].1,
    { unimplemented!() }
}
}
pub use vx_hashmap::HashMap;
pub use vx_hashmap::HashMap as FxHashMap;
pub use vx_hashmap::lists;
