// C17: temporarily banned peers — bounded LRU with age expiry
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::cmp::*;
use std::collections::{HashSet, VecDeque};
verus! {
//@include lib/verus/vecdeque.rs
/// `Instant` / `Duration` as nanoseconds on the monotonic clock (dependency shim)
pub type Instant = u64;
pub type Duration = u64;
pub trait Clock: Sized { spec fn last(self) -> u64; }
pub struct SystemClock { pub t: u64 }
impl Clock for SystemClock { open spec fn last(self) -> u64 { self.t } }
/// assumed contract of the monotonic clock: it never goes back (and stays below 2^62 ns = 146 years)
#[verifier::external_body]
pub fn vx_now<C: Clock>(c: &mut C) -> (r: Instant)
    ensures r == final(c).last(), r >= old(c).last(), r < 0x4000_0000_0000_0000,
{ unimplemented!() }

//@item file=crates/network-libp2p/src/peers/cache.rs path="struct Element"
//@end
//@item file=crates/network-libp2p/src/peers/cache.rs path="struct BannedPeerCache"
//@sub? / = SystemClock/ =>
//@end

/// assumed of the key type: Eq is equality, Hash agrees with it, Clone copies
pub open spec fn key_ok<Key: Eq + Clone>() -> bool {
    &&& obeys_key_model::<Key>()
    &&& Key::obeys_eq_spec()
    &&& forall|a: Key, b: Key| #[trigger] a.eq_spec(&b) == (a == b)
    &&& forall|a: Key, b: Key| #[trigger] call_ensures(Key::clone, (&a,), b) ==> a == b
}

impl<Key: Eq + std::hash::Hash, C: Clock> BannedPeerCache<Key, C> {
    pub open spec fn wf(self) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < self.list@.len() ==> self.list@[i].key != self.list@[j].key
        &&& forall|i: int| 0 <= i < self.list@.len() ==> self.map@.contains(#[trigger] self.list@[i].key)
        &&& forall|k: Key| #[trigger] self.map@.contains(k) ==> self.has(k)
        &&& self.list@.len() <= self.max_len
        &&& self.max_len >= 1
        &&& self.max_len < usize::MAX
        &&& self.duration < 0x4000_0000_0000_0000
        &&& self.clock.last() < 0x4000_0000_0000_0000
        // sorted by insertion time, none in the future
        &&& forall|i: int, j: int| 0 <= i < j < self.list@.len() ==> self.list@[i].inserted <= self.list@[j].inserted
        &&& forall|i: int| 0 <= i < self.list@.len() ==> (#[trigger] self.list@[i]).inserted <= self.clock.last()
    }
    pub open spec fn has(self, k: Key) -> bool {
        exists|i: int| 0 <= i < self.list@.len() && (#[trigger] self.list@[i]).key == k
    }
    pub open spec fn at(self, k: Key) -> int {
        choose|i: int| 0 <= i < self.list@.len() && (#[trigger] self.list@[i]).key == k
    }
}
pub open spec fn keys_of<Key>(s: Seq<Element<Key>>) -> Seq<Key> { Seq::new(s.len(), |i: int| s[i].key) }

proof fn lemma_len<Key: Eq + std::hash::Hash, C: Clock>(c: BannedPeerCache<Key, C>)
    requires c.wf(),
    ensures c.map@.len() == c.list@.len(), c.map@.finite(),
{
    let s = keys_of(c.list@);
    assert(s.no_duplicates());
    s.unique_seq_to_set();
    assert forall|k: Key| c.map@.contains(k) <==> s.to_set().contains(k) by {
        if c.map@.contains(k) {
            let i = choose|i: int| 0 <= i < c.list@.len() && (#[trigger] c.list@[i]).key == k;
            assert(s[i] == k);
        }
        if s.to_set().contains(k) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
            assert(c.list@[i].key == k);
        }
    }
    assert(c.map@ =~= s.to_set());
}

#[verifier::external_body]
pub fn vx_position<T, F: Fn(&T) -> bool>(v: &VecDeque<T>, f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
    ensures
        r matches Some(p) ==> p < v@.len() && f.ensures((&v@[p as int],), true) && forall|j: int| 0 <= j < p ==> f.ensures((&#[trigger] v@[j],), false),
        r is None ==> forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false),
{ v.iter().position(|x| f(x)) }

/// moving `e` with a later time to the back of an ordered duplicate-free list
proof fn lemma_at<Key: Eq + std::hash::Hash, C: Clock>(c: BannedPeerCache<Key, C>, k: Key, p: int)
    requires c.wf(), 0 <= p < c.list@.len(), c.list@[p].key == k,
    ensures c.has(k), c.at(k) == p,
{
}

//@verus-only
impl<Key> BannedPeerCache<Key, SystemClock>
where Key: Eq + std::hash::Hash + Clone,
{
//@fn file=crates/network-libp2p/src/peers/cache.rs path="impl BannedPeerCache :: fn new" ret=r
//@sub? /clock: SystemClock/ => clock: SystemClock { t: 0 }
//@sub? /HashSet::default\(\)/ => HashSet::new()
//@spec
    requires duration < 0x4000_0000_0000_0000, max_len < usize::MAX, obeys_key_model::<Key>(),
    ensures r.wf(), r.max_len == (if max_len == 0 { 1 } else { max_len }), r.list@.len() == 0, r.duration == duration,
//@end
}
//@end-only

impl<Key, C> BannedPeerCache<Key, C>
where Key: Eq + std::hash::Hash + Clone, C: Clock,
{
//@fn file=crates/network-libp2p/src/peers/cache.rs path="impl BannedPeerCache :: fn insert" ret=r
//@sub? /(self\.list)\.iter\(\)\.position\( \|(\w+)\| ([^)]*)\)/ => vx_position(&\1, |\2: &Element<Key>| -> (b: bool) requires key_ok::<Key>() ensures b == (\2.key == key) { \3 })
//@sub? /self\.list\.pop_front\(\)\.map\( \|(\w+)\| (\{[^{}]*\}) \)/ => (match self.list.pop_front() { Some(\1) => Some(\2), None => None })
//@sub /self\.clock\.now\(\)/ => vx_now(&mut self.clock)
//@spec
    requires old(self).wf(), key_ok::<Key>(),
    ensures
        final(self).wf(),
        final(self).max_len == old(self).max_len, final(self).duration == old(self).duration,
        final(self).clock.last() >= old(self).clock.last(),
        // a new key goes to the back; the oldest one leaves iff the cap would be exceeded
        !old(self).has(key) ==> ({
            let full = old(self).list@.push(Element { key, inserted: final(self).clock.last() });
            &&& r.0
            &&& if old(self).list@.len() < old(self).max_len { final(self).list@ =~= full && r.1 is None }
                else { final(self).list@ =~= full.skip(1) && r.1 == Some(old(self).list@[0].key) }
        }),
        // a known key is refreshed: it becomes the youngest, nothing leaves
        old(self).has(key) ==> ({
            &&& !r.0 && r.1 is None
            &&& final(self).list@ =~= old(self).list@.remove(old(self).at(key)).push(Element { key, inserted: final(self).clock.last() })
        }),
        final(self).has(key),
//@head
    let ghost old_self = *self;
    proof {
        if old_self.map@.contains(key) { lemma_at(old_self, key, old_self.at(key)); }
        else { assert(!old_self.has(key)); }
    }
//@before /\( is_new , evicted \)/
    proof {
        if old_self.has(key) {
            let p = old_self.at(key);
            lemma_at(old_self, key, p);
            assert(self.list@ =~= old_self.list@.remove(p).push(Element { key, inserted: self.clock.last() }));
            let l = self.list@;
            assert(forall|i: int| 0 <= i < l.len() - 1 ==> l[i] == (if i < p { old_self.list@[i] } else { old_self.list@[i + 1] }));
            assert forall|k: Key| #[trigger] self.map@.contains(k) implies self.has(k) by {
                let i = old_self.at(k);
                assert(old_self.has(k));
                if i < p { assert(self.list@[i].key == k); } else if i > p { assert(self.list@[i - 1].key == k); } else { assert(self.list@[l.len() - 1].key == k); }
            }
            assert(self.list@[l.len() - 1].key == key);
        } else {
            let full = old_self.list@.push(Element { key, inserted: self.clock.last() });
            let evict = old_self.list@.len() >= old_self.max_len;
            assert(self.list@ =~= if evict { full.skip(1) } else { full });
            assert forall|k: Key| #[trigger] self.map@.contains(k) implies self.has(k) by {
                if k == key { assert(self.list@[self.list@.len() - 1].key == k); }
                else {
                    assert(old_self.map@.contains(k));
                    let i = old_self.at(k);
                    assert(old_self.has(k));
                    if evict { assert(i != 0); assert(self.list@[i - 1].key == k); } else { assert(self.list@[i].key == k); }
                }
            }
            assert(self.list@[self.list@.len() - 1].key == key);
        }
    }
//@end

//@fn file=crates/network-libp2p/src/peers/cache.rs path="impl BannedPeerCache :: fn remove" ret=r
//@sub? /(self\.list)\.iter\(\)\.position\( \|(\w+)\| ([^)]*)\)/ => vx_position(&\1, |\2: &Element<Key>| -> (b: bool) requires key_ok::<Key>() ensures b == (\2.key == *key) { \3 })
//@spec
    requires old(self).wf(), key_ok::<Key>(),
    ensures
        final(self).wf(), final(self).clock == old(self).clock,
        final(self).max_len == old(self).max_len, final(self).duration == old(self).duration,
        r == old(self).has(*key), !final(self).has(*key),
        r ==> final(self).list@ =~= old(self).list@.remove(old(self).at(*key)),
        !r ==> final(self).list@ == old(self).list@,
//@head
    let ghost old_self = *self;
    proof { if old_self.has(*key) { lemma_at(old_self, *key, old_self.at(*key)); } }
//@before /true \} else/
            proof {
                let p = old_self.at(*key);
                assert(self.list@ =~= old_self.list@.remove(p));
                assert forall|k: Key| #[trigger] self.map@.contains(k) implies self.has(k) by {
                    assert(old_self.has(k));
                    let i = old_self.at(k);
                    if i < p { assert(self.list@[i].key == k); } else { assert(self.list@[i - 1].key == k); }
                }
                assert forall|i: int| 0 <= i < self.list@.len() implies self.map@.contains(#[trigger] self.list@[i].key) by {
                    assert(self.list@[i] == (if i < p { old_self.list@[i] } else { old_self.list@[i + 1] }));
                }
            }
//@end

//@fn file=crates/network-libp2p/src/peers/cache.rs path="impl BannedPeerCache :: fn heartbeat" ret=r
//@sub /self\.clock\.now\(\)/ => vx_now(&mut self.clock)
//@spec
    requires old(self).wf(), key_ok::<Key>(),
    ensures
        final(self).wf(),
        final(self).max_len == old(self).max_len, final(self).duration == old(self).duration,
        // exactly the expired entries leave, oldest first
        exists|n: int| expired_prefix(old(self).list@, n, old(self).duration, final(self).clock.last()) && final(self).list@ =~= old(self).list@.skip(n) && r@ =~= keys_of(old(self).list@.take(n)),
//@head
    let ghost old_self = *self;
    let ghost mut n: int = 0;
    proof { assert(old_self.list@.skip(0) =~= old_self.list@); }
//@loop 0
        invariant_except_break
            0 <= n <= old_self.list@.len(),
            self.list@ == old_self.list@.skip(n),
        invariant
            old_self.wf(), key_ok::<Key>(),
            self.max_len == old_self.max_len, self.duration == old_self.duration,
            now == self.clock.last(), now < 0x4000_0000_0000_0000, now >= old_self.clock.last(),
            0 <= n <= old_self.list@.len(),
            forall|i: int| 0 <= i < n ==> (#[trigger] old_self.list@[i]).inserted + old_self.duration <= now,
            removed_elements@ == keys_of(old_self.list@.take(n)),
            forall|k: Key| #[trigger] self.map@.contains(k) <==> (old_self.map@.contains(k) && !keys_of(old_self.list@.take(n)).contains(k)),
        ensures
            self.list@ == old_self.list@.skip(n),
            n < old_self.list@.len() ==> old_self.list@[n].inserted + old_self.duration > now,
        decreases old_self.list@.len() - n,
//@loophead 0
        proof { assert(element == old_self.list@[n]); }
//@before /break ;/
                proof { assert(self.list@ =~= old_self.list@.skip(n)); }
//@loopend 0
            proof {
                let t0 = keys_of(old_self.list@.take(n));
                let t1 = keys_of(old_self.list@.take(n + 1));
                assert(t1 =~= t0.push(element.key));
                assert forall|k: Key| t1.contains(k) <==> (t0.contains(k) || k == element.key) by {
                    assert(t1[n] == element.key);
                    if t0.contains(k) { let i = choose|i: int| 0 <= i < t0.len() && t0[i] == k; assert(t1[i] == k); }
                    if t1.contains(k) && k != element.key { let i = choose|i: int| 0 <= i < t1.len() && t1[i] == k; assert(t0[i] == k); }
                }
                assert(self.list@ =~= old_self.list@.skip(n + 1));
                n = n + 1;
            }
//@afterloop 0
        proof {
            assert forall|k: Key| #[trigger] self.map@.contains(k) implies self.has(k) by {
                assert(old_self.map@.contains(k)); assert(old_self.has(k));
                let i = old_self.at(k);
                if i < n { assert(keys_of(old_self.list@.take(n))[i] == k); }
                assert(self.list@[i - n].key == k);
            }
            assert forall|i: int| 0 <= i < self.list@.len() implies self.map@.contains(#[trigger] self.list@[i].key) by {
                assert(self.list@[i] == old_self.list@[i + n]);
                let t = keys_of(old_self.list@.take(n));
                if t.contains(self.list@[i].key) { let j = choose|j: int| 0 <= j < t.len() && t[j] == self.list@[i].key; assert(old_self.list@[j].key == old_self.list@[i + n].key); }
            }
            assert(expired_prefix(old_self.list@, n, old_self.duration, now));
        }
//@end

//@fn file=crates/network-libp2p/src/peers/cache.rs path="impl BannedPeerCache :: fn contains" ret=r
//@spec
    requires self.wf(), key_ok::<Key>(),
    ensures r == self.has(*key),
//@end

//@fn file=crates/network-libp2p/src/peers/cache.rs path="impl BannedPeerCache :: fn len" ret=r
//@spec
    requires self.wf(), key_ok::<Key>(),
    ensures r == self.list@.len(), r <= self.max_len,
//@head
    proof { lemma_len(*self); }
//@end
}
pub open spec fn expired_prefix<Key>(l: Seq<Element<Key>>, n: int, d: u64, now: u64) -> bool {
    &&& 0 <= n <= l.len()
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).inserted + d <= now
    &&& forall|i: int| n <= i < l.len() ==> (#[trigger] l[i]).inserted + d > now
}
} // verus!
fn main() {}
