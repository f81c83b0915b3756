//@known VIter FromSeq
// assumed contracts of std's iterator adaptors over a finite sequence (trusted; listed in the evidence)
pub mod vx_viter {
use vstd::prelude::*;
pub struct VIter<T> { pub s: Ghost<Seq<T>>, pub v: Vec<T> }
impl<T> View for VIter<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.s@ } }
/// how `collect` builds a collection from the sequence
pub trait FromSeq<T>: Sized { spec fn built(s: Seq<T>, r: Self) -> bool; }
impl<T> FromSeq<T> for Vec<T> { open spec fn built(s: Seq<T>, r: Self) -> bool { r@ == s } }
/// the subsequence of the indexes in `keep`, in order
pub open spec fn picks<T>(s: Seq<T>, r: Seq<T>, ix: Seq<int>) -> bool {
    &&& ix.len() == r.len()
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> ix[i] < ix[j]
    &&& forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < s.len() && r[i] == s[ix[i]]
}
/// strictly increasing indexes below n
pub open spec fn fm_ix(n: nat, ix: Seq<int>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> ix[i] < ix[j]
    &&& forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < n
}
pub open spec fn seq_sum(s: Seq<u64>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { seq_sum(s.drop_last()) + s.last() as nat } }
pub open spec fn vx_skipped<T>(s: Seq<T>, r: Seq<T>, n: int) -> bool { r == s.skip(n) && (forall|j: int| #![trigger s[j]] n <= j < s.len() ==> s[j] == r[j - n]) && forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> r[j] == s[j + n] }
/// `collect` into a Result: the first error, or everything
impl<A, E> FromSeq<Result<A, E>> for Result<Vec<A>, E> {
    open spec fn built(s: Seq<Result<A, E>>, r: Self) -> bool {
        &&& (r matches Ok(v) ==> v@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ok::<A, E>(v@[i]))
        &&& (r matches Err(e) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<A, E>(e))
    }
}
impl<A, E> VIter<Result<A, E>> {
    /// the items that are Ok
    #[verifier::external_body]
    pub fn flatten(self) -> (r: VIter<A>)
        ensures (forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]) is Ok) ==> r@.len() == self@.len() && forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < r@.len() ==> Ok::<A, E>(r@[i]) == self@[i],
    { unimplemented!() }
}
impl VIter<u64> {
    #[verifier::external_body]
    pub fn sum(self) -> (r: u64)
        requires self@.len() <= 0x7fff, forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] <= 0x1_0000_0000_0000,
        ensures r == seq_sum(self@), forall|t: Seq<u64>| t =~= self@ ==> r == #[trigger] seq_sum(t),
    { unimplemented!() }
}
/// `.iter()` of a vector
pub trait VxIter<T> { spec fn vx_seq(&self) -> Seq<T>;
    fn iter<'a>(&'a self) -> (r: VIter<&'a T>) ensures r@.len() == self.vx_seq().len(), forall|i: int| #![trigger r@[i]] #![trigger self.vx_seq()[i]] 0 <= i < r@.len() ==> *(r@[i]) == self.vx_seq()[i]; }
impl<T> VxIter<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}
/// `sort_by` with a comparator that is a total order on the elements
pub trait VxSort<T> {
    spec fn vx_sq(&self) -> Seq<T>;
    fn sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| f.requires((a, b)),
        ensures final(self).vx_sq().to_multiset() == old(self).vx_sq().to_multiset(),
            forall|i: int, j: int| 0 <= i < j < final(self).vx_sq().len() ==> vx_le(f, #[trigger] final(self).vx_sq()[i], #[trigger] final(self).vx_sq()[j]);
    fn sort_unstable_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| f.requires((a, b)),
        ensures final(self).vx_sq().to_multiset() == old(self).vx_sq().to_multiset(),
            forall|i: int, j: int| 0 <= i < j < final(self).vx_sq().len() ==> vx_le(f, #[trigger] final(self).vx_sq()[i], #[trigger] final(self).vx_sq()[j]);
}
pub open spec fn vx_le<T, F: Fn(&T, &T) -> core::cmp::Ordering>(f: F, a: T, b: T) -> bool {
    exists|o: core::cmp::Ordering| f.ensures((&a, &b), o) && o != core::cmp::Ordering::Greater
}
impl<T> VxSort<T> for Vec<T> {
    open spec fn vx_sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn sort_unstable_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
}
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures
            exists|ix: Seq<int>| #[trigger] picks(self@, r@, ix) && forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), ix.contains(i)),
            // (a consequence of the above) a predicate that always holds keeps everything
            (forall|i: int, b: bool| 0 <= i < self@.len() && f.ensures((&#[trigger] self@[i],), b) ==> b) ==> r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures exists|n: int| 0 <= n <= self@.len() && #[trigger] vx_skipped(self@, r@, n) && (forall|i: int| 0 <= i < n ==> f.ensures((&#[trigger] self@[i],), true))
            && (n < self@.len() ==> f.ensures((&self@[n],), false)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures exists|n: int| 0 <= n <= self@.len() && r@ == #[trigger] self@.take(n) && (forall|i: int| 0 <= i < n ==> f.ensures((&#[trigger] self@[i],), true))
            && (n < self@.len() ==> f.ensures((&self@[n],), false)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            r matches Some(p) ==> p < self@.len() && f.ensures((self@[p as int],), true) && forall|j: int| 0 <= j < p ==> f.ensures((#[trigger] self@[j],), false),
            r is None ==> forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures
            r matches Some(x) ==> exists|p: int| 0 <= p < self@.len() && x == #[trigger] self@[p] && f.ensures((&self@[p],), true) && forall|j: int| 0 <= j < p ==> f.ensures((&#[trigger] self@[j],), false),
            r is None ==> forall|j: int| 0 <= j < self@.len() ==> f.ensures((&#[trigger] self@[j],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            exists|ix: Seq<int>| #[trigger] fm_ix(self@.len(), ix) && ix.len() == r@.len()
                && (forall|j: int| 0 <= j < ix.len() ==> f.ensures((self@[#[trigger] ix[j]],), Some(r@[j])))
                && forall|i: int| #![trigger self@[i]] #![trigger ix.contains(i)] 0 <= i < self@.len() && !ix.contains(i) ==> f.ensures((self@[i],), None),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn for_each<F: Fn(T)>(self, f: F)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: VIter<U>) -> (r: VIter<(T, U)>)
        ensures
            r@.len() == if self@.len() <= o@.len() { self@.len() } else { o@.len() },
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self@[i], o@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>)
        ensures r@ == self@.reverse(),
            forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> self@[i] == r@[self@.len() - 1 - i],
            forall|i: int| #![trigger r@[i]] 0 <= i < self@.len() ==> r@[i] == self@[self@.len() - 1 - i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIter<T>)
        ensures r@ == if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>)
        ensures r@ == if n <= self@.len() { self@.take(n as int) } else { self@ },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: VIter<T>) -> (r: VIter<T>)
        ensures r@ == self@ + o@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>)
        ensures r == if self@.len() == 0 { None } else { Some(self@.last()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: FromSeq<T>>(self) -> (r: C)
        ensures C::built(self@, r),
    { unimplemented!() }
    /// the sequence as a `Vec`, for a loop
    #[verifier::external_body]
    pub fn vx_vec(self) -> (r: Vec<T>)
        ensures r@ == self@,
    { unimplemented!() }
}
impl<'a, T> VIter<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: VIter<T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == *self@[i],
    { unimplemented!() }
    /// Clone is assumed to copy
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VIter<T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == *self@[i],
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_iter<T>(v: &Vec<T>) -> (r: VIter<&T>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i],
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_into_iter<T>(v: Vec<T>) -> (r: VIter<T>)
    ensures r@ == v@,
{ unimplemented!() }
}
pub use vx_viter::*;
