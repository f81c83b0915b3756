// C27: keyed waits (NotifyRead) and the channel wrappers
use vstd::prelude::*;
verus! {
//@include lib/verus/viter.rs
//@include lib/verus/hashmap.rs
//@known Mutex World AtomicUsize Poll Context Sender Receiver DefaultHasher KeyT ValT lock channel
pub type Registrations<V> = Vec<Sender<V>>;
/// Clone copies; Hash is a function of the key
pub uninterp spec fn hid<K>(k: K) -> int;
pub trait KeyT: Sized {
    fn clone(&self) -> (r: Self) ensures r == *self;
    fn hash(&self, h: &mut DefaultHasher) ensures final(h).fed == old(h).fed.push(hid(*self));
}
pub trait ValT: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
pub struct DefaultHasher { pub ghost fed: Seq<int> }
pub uninterp spec fn fin(s: Seq<int>) -> u64;
impl DefaultHasher {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.fed == Seq::<int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == fin(self.fed) { unimplemented!() }
}
// ---- tokio's one-shot channel
pub struct Sender<V> { pub ghost id: int, pub v: core::marker::PhantomData<V> }
pub struct Receiver<V> { pub ghost id: int, pub v: core::marker::PhantomData<V> }
/// `closed`: a look found the receiver gone; `gone`: the receiver was dropped before now
pub uninterp spec fn closed(id: int) -> bool;
pub uninterp spec fn gone(id: int) -> bool;
pub uninterp spec fn sent<V>(id: int, v: V) -> bool;
/// the sender was dropped without sending (never, while the table owns it: that is the contract of notify and cleanup)
pub uninterp spec fn orphan(id: int) -> bool;
#[derive(Debug)]
pub struct RecvError { pub e: u8 }
pub mod oneshot {
use super::*;
    #[verifier::external_body] pub fn channel<V>() -> (r: (Sender<V>, Receiver<V>)) ensures r.0.id == r.1.id { unimplemented!() }
}
impl<V> Sender<V> {
    #[verifier::external_body] pub fn send(self, v: V, Tracked(w): Tracked<&mut World<V>>) -> (r: Result<(), V>)
        ensures final(w).log == old(w).log.push(Ev::Send(self.id, v)) { unimplemented!() }
    #[verifier::external_body] pub fn is_closed(&self) -> (r: bool) ensures gone(self.id) ==> r, r ==> closed(self.id) { unimplemented!() }
}
impl<V> Receiver<V> {
    #[verifier::external_body] pub fn vx_poll(&mut self, cx: &mut Context) -> (r: Poll<Result<V, RecvError>>)
        ensures final(self).id == old(self).id, (r matches Poll::Ready(x) ==> (match x { Ok(v) => sent(old(self).id, v), Err(_) => orphan(old(self).id) })) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_drop_rx<V>(r: Receiver<V>) ensures gone(r.id) { unimplemented!() }
pub struct Context { pub w: u64 }
pub enum Poll<T> { Ready(T), Pending }
impl<T> Poll<T> {
    pub fn is_ready(&self) -> (r: bool) ensures r == (*self is Ready) { match self { Poll::Ready(_) => true, _ => false } }
    pub fn is_pending(&self) -> (r: bool) ensures r == (*self is Pending) { match self { Poll::Ready(_) => false, _ => true } }
}
// ---- one thread's steps: its changes of the tables, of the count, its sends
pub type Tab<K, V> = HashMap<K, Registrations<V>>;
#[allow(inconsistent_fields)]
pub enum Ev<V> { Map { b: int, o: Map<int, Seq<int>>, n: Map<int, Seq<int>> }, Add(int), Sub(int), Send(int, V) }
pub tracked struct World<V> { pub ghost log: Seq<Ev<V>> }
pub struct Mutex<T> { pub ghost x: int, pub t: core::marker::PhantomData<T> }
pub open spec fn ids<V>(s: Seq<Sender<V>>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].id) }
/// this thread took the bucket's lock, found `o` in it and left `n`
pub uninterp spec fn step<K, V>(e: Ev<V>, m: Mutex<Tab<K, V>>, o: Map<K, Registrations<V>>, n: Map<K, Registrations<V>>) -> bool;
impl<T> Mutex<T> { #[verifier::external_body] pub fn new(t: T) -> Self { unimplemented!() } }
impl<K, V> Mutex<Tab<K, V>> {
    #[verifier::external_body]
    pub fn lock<'a>(&'a self, Tracked(w): Tracked<&mut World<V>>) -> (r: &'a mut Tab<K, V>)
        ensures final(w).log.len() == old(w).log.len() + 1, final(w).log.drop_last() == old(w).log, step(final(w).log.last(), *self, (*r)@, (*final(r))@), final(w).log.last() is Map
    { unimplemented!() }
}
pub struct AtomicUsize { pub x: u64 }
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
impl AtomicUsize {
    #[verifier::external_body] pub fn new(v: usize) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add<V>(&self, n: usize, o: Ordering, Tracked(w): Tracked<&mut World<V>>) -> (r: usize)
        ensures final(w).log == old(w).log.push(Ev::Add(n as int)) { unimplemented!() }
    /// every registration is counted before it is in a table and uncounted once, after it was removed (the contracts below): the count covers `n`
    #[verifier::external_body] pub fn fetch_sub<V>(&self, n: usize, o: Ordering, Tracked(w): Tracked<&mut World<V>>) -> (r: usize)
        ensures final(w).log == old(w).log.push(Ev::Sub(n as int)), r >= n, was(final(w).log.len() as int - 1, r as int) { unimplemented!() }
}
pub uninterp spec fn was(i: int, n: int) -> bool;
pub open spec fn amt<V>(e: Ev<V>) -> int { match e { Ev::Add(n) => n, Ev::Sub(n) => -n, _ => 0 } }
pub open spec fn net<V>(s: Seq<Ev<V>>) -> int decreases s.len() { if s.len() == 0 { 0 } else { net(s.drop_last()) + amt(s.last()) } }
pub broadcast proof fn lemma_net_push<V>(s: Seq<Ev<V>>, e: Ev<V>) ensures #[trigger] net(s.push(e)) == net(s) + amt(e) { assert(s.push(e).drop_last() =~= s); }
pub proof fn lemma_net_app<V>(a: Seq<Ev<V>>, b: Seq<Ev<V>>) ensures net(a + b) == net(a) + net(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_net_app(a, b.drop_last()); } }
pub trait VxVec<T> { spec fn vx_q(&self) -> Seq<T>;
    fn vx_drain(&mut self) -> (r: Vec<T>) ensures r@ == old(self).vx_q(), r@.len() <= usize::MAX, final(self).vx_q() == Seq::<T>::empty();
    fn vx_put(&mut self, v: Vec<T>) ensures final(self).vx_q() == v@; }
impl<T> VxVec<T> for Vec<T> { open spec fn vx_q(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_drain(&mut self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_put(&mut self, v: Vec<T>) { unimplemented!() } }
impl<K, V> HashMap<K, Vec<V>> {
    #[verifier::external_body] pub fn vx_or_default(&mut self, k: K) -> (r: &mut Vec<V>)
        ensures r@ == (if old(self)@.contains_key(k) { old(self)@[k]@ } else { Seq::empty() }), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut Vec<V>>)
        ensures (match r { Some(x) => old(self)@.contains_key(*k) && *x == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(x)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }) { unimplemented!() }
}
//@item file=crates/tn-utils/src/notify_read.rs path="struct NotifyRead"
//@attr
#[verifier::reject_recursive_types(K)]
//@end
//@item file=crates/tn-utils/src/notify_read.rs path="struct Registration"
//@attr
#[verifier::reject_recursive_types(K)]
//@sub? /struct Registration<'a, K: Eq \+ Hash \+ Clone, V: Clone>/ => struct Registration<'a, K, V>
//@sub? /oneshot::Receiver/ => Receiver
//@end
/// the table a key belongs to
pub open spec fn bucket<K, V>(s: NotifyRead<K, V>, k: K) -> Mutex<Tab<K, V>> { s.pending@[(fin(Seq::<int>::empty().push(hid(k))) as int) % (s.pending@.len() as int)] }
pub open spec fn suffix<V>(a: World<V>, b: World<V>, r: Seq<Ev<V>>) -> bool { b.log == a.log + r }
impl<K: KeyT, V: ValT> NotifyRead<K, V> {
    pub open spec fn wf(self) -> bool { 0 < self.pending@.len() <= 0x1000_0000 }
//@fn file=crates/tn-utils/src/notify_read.rs path="impl NotifyRead :: fn new" ret=r
//@chain
//@sub? /\{ Default::default\(\) \}/ => { Mutex::new(HashMap::new()) }
//@sub? /; Default::default\(\)/ => ; Mutex::new(HashMap::new())
//@sub? /count_pending = Default::default\(\)/ => count_pending = AtomicUsize::new(0)
//@sub? /in \(0\.\.255\)/ => in 0..255
//@spec
    ensures r.wf(),
//@loop 0 iter=it
    invariant vx_col0@.len() == it.index(), it.index() <= 255,
//@end
//@fn file=crates/tn-utils/src/notify_read.rs path="impl NotifyRead :: fn pending" ret=r
//@sub? /fn pending\(&self, (\w+): &K\) -> MutexGuard<'_, HashMap<K, Registrations<V>>>/ => fn pending<'a>(&'a self, \1: &K, Tracked(vx_w): Tracked<&mut World<V>>) -> &'a mut Tab<K, V>
//@sub? /\.lock\(\)/ => .lock(Tracked(vx_w))
//@sub? /self\.pending \.get\((.*?)\) \.unwrap\(\);/ => &self.pending[\1];
//@spec
    requires self.wf(),
    ensures
        // one lock, always the same one for a key
        final(vx_w).log.len() == old(vx_w).log.len() + 1, final(vx_w).log.drop_last() == old(vx_w).log, final(vx_w).log.last() is Map,
        step(final(vx_w).log.last(), bucket(*self, *key), (*r)@, (*final(r))@),
//@end
//@fn file=crates/tn-utils/src/notify_read.rs path="impl NotifyRead :: fn num_pending" ret=r
//@end
//@fn file=crates/tn-utils/src/notify_read.rs path="impl NotifyRead :: fn register"
//@sub? /sender: oneshot::Sender<V>/ => sender: Sender<V>, Tracked(vx_w): Tracked<&mut World<V>>
//@sub? /self\.pending\((\w+)\)/ => self.pending(\1, Tracked(vx_w))
//@sub? /\.entry\((\w+)\.clone\(\)\) \.or_default\(\)/ => .vx_or_default(\1.clone())
//@sub? /\.entry\((\w+)\.clone\(\)\) \.or_insert_with\(Vec::new\)/ => .vx_or_default(\1.clone())
//@spec
    requires self.wf(),
    ensures
        final(vx_w).log.len() == old(vx_w).log.len() + 1, final(vx_w).log.drop_last() == old(vx_w).log, final(vx_w).log.last() is Map,
        registered(final(vx_w).log.last(), bucket(*self, *key), *key, sender.id),
//@head
    let ghost sid = sender.id;
//@end
//@fn file=crates/tn-utils/src/notify_read.rs path="impl NotifyRead :: fn register_one" ret=r
//@sub? /fn register_one\(&self, (\w+): &K\) -> Registration<'_, K, V>/ => fn register_one<'a>(&'a self, \1: &K, Tracked(vx_w): Tracked<&mut World<V>>) -> Registration<'a, K, V>
//@sub? /fetch_add\(([^,()]*(?:\(\))?), Ordering::(\w+)\)/ => fetch_add::<V>(\1, Ordering::\2, Tracked(vx_w))
//@sub? /self\.register\((\w+), (\w+)\)/ => self.register(\1, \2, Tracked(vx_w))
//@spec
    requires self.wf(),
    // counted first, then put on the list of its key
    ensures
        r.this == self, r.registration matches Some(x) && x.0 == *key
            && exists|e: Ev<V>| #[trigger] registered(e, bucket(*self, *key), *key, x.1.id) && final(vx_w).log == old(vx_w).log.push(Ev::Add(1)).push(e),
//@tail vx_r
    proof { assert(vx_w.log =~= vx_w.log.drop_last().push(vx_w.log.last())); }
//@end
//@fn file=crates/tn-utils/src/notify_read.rs path="impl NotifyRead :: fn register_all" ret=r
//@sub? /fn register_all\(&self, (\w+): Vec<K>\) -> Vec<Registration<'_, K, V>>/ => fn register_all<'a>(&'a self, \1: Vec<K>, Tracked(vx_w): Tracked<&mut World<V>>) -> Vec<Registration<'a, K, V>>
//@sub? /fetch_add\(([^,()]*(?:\(\))?), Ordering::(\w+)\)/ => fetch_add::<V>(\1, Ordering::\2, Tracked(vx_w))
//@sub? /self\.register\((&?\w+), (\w+)\)/ => self.register(\1, \2, Tracked(vx_w))
//@forvec 0
//@spec
    requires self.wf(), keys@.len() <= 0x7fff_ffff,
    // one registration per key, in order, all counted before the first is on a list
    ensures
        r@.len() == keys@.len(), final(vx_w).log.len() == old(vx_w).log.len() + 1 + keys@.len(),
        final(vx_w).log.take(old(vx_w).log.len() as int + 1) == old(vx_w).log.push(Ev::Add(keys@.len() as int)),
        forall|i: int| 0 <= i < keys@.len() ==> at_key(*self, #[trigger] r@[i], keys@[i], final(vx_w).log[old(vx_w).log.len() as int + 1 + i]),
//@head
    let ghost w0 = vx_w.log; let ghost k = w0.len() as int;
//@loop 0 iter=it
    invariant
        self.wf(), it.seq().len() == keys@.len(), forall|i: int| 0 <= i < keys@.len() ==> *(#[trigger] it.seq()[i]) == keys@[i],
        k == w0.len(), registrations@.len() == it.index(), vx_w.log.len() == k + 1 + it.index(), vx_w.log.take(k + 1) == w0.push(Ev::Add(keys@.len() as int)),
        forall|i: int| 0 <= i < it.index() ==> at_key(*self, #[trigger] registrations@[i], keys@[i], vx_w.log[k + 1 + i]),
//@loophead 0
    let ghost l0 = vx_w.log; let ghost r0 = registrations@;
//@loopend 0
    proof {
        assert(forall|q: int| 0 <= q < l0.len() ==> vx_w.log[q] == vx_w.log.drop_last()[q]);
        assert(vx_w.log.take(k + 1) =~= l0.take(k + 1));
        assert(forall|i: int| 0 <= i < r0.len() ==> registrations@[i] == r0[i]);
    }
//@end
//@fn file=crates/tn-utils/src/notify_read.rs path="impl NotifyRead :: fn notify" ret=r
//@sub? /value: &V\)/ => value: &V, Tracked(vx_w): Tracked<&mut World<V>>)
//@sub? /self\.pending\((\w+)\)/ => self.pending(\1, Tracked(vx_w))
//@sub? /fetch_sub\(([^,()]*(?:\(\))?), Ordering::(\w+)\)/ => fetch_sub::<V>(\1, Ordering::\2, Tracked(vx_w))
//@sub? /\.send\((\w+)\.clone\(\)\)/ => .send(\1.clone(), Tracked(vx_w))
//@spec
    requires self.wf(),
    ensures
        final(vx_w).log.len() > old(vx_w).log.len(), final(vx_w).log.take(old(vx_w).log.len() as int) == old(vx_w).log,
        cleared(final(vx_w).log, old(vx_w).log.len() as int, bucket(*self, *key), *key, *value, r as int),
//@head
    let ghost w0 = vx_w.log; let ghost k = w0.len() as int;
//@after? /else \{/
    proof { assert(vx_w.log.take(k) =~= w0); }
//@beforeloop 0
    let ghost s0 = vx_w.log[k]; let ghost l0 = vx_w.log; let ghost q = registrations@;
    proof { assert(l0.take(k) =~= w0); assert(l0.skip(k + 1) =~= Seq::<Ev<V>>::empty().push(l0[k + 1])); lemma_net_push(Seq::<Ev<V>>::empty(), l0[k + 1]); }
//@loop 0 iter=it
    invariant
        k == w0.len(), it.seq() == q, l0.len() == k + 2, vx_w.log.len() == k + 2 + it.index(), vx_w.log.take(k + 2) == l0,
        forall|i: int| 0 <= i < it.index() ==> #[trigger] vx_w.log[k + 2 + i] == Ev::Send(q[i].id, *value),
        net(vx_w.log.skip(k + 1)) == net(l0.skip(k + 1)),
//@loophead 0
    let ghost la = vx_w.log;
//@loopend 0
    proof {
        assert(vx_w.log.take(k + 2) =~= l0);
        assert(vx_w.log.skip(k + 1) =~= la.skip(k + 1).push(vx_w.log.last())); lemma_net_push(la.skip(k + 1), vx_w.log.last());
        assert(forall|i: int| 0 <= i < la.len() ==> vx_w.log[i] == la[i]);
    }
//@afterloop 0
    proof {
        assert(forall|i: int| 0 <= i < l0.len() ==> vx_w.log[i] == vx_w.log.take(k + 2)[i]);
        assert(vx_w.log.take(k) =~= w0);
        assert forall|i: int| 0 <= i < q.len() implies sent_in(vx_w.log, k + 1, (#[trigger] q[i]).id, *value) by { assert(vx_w.log[k + 2 + i] == Ev::Send(q[i].id, *value)); }
        assert forall|j: int| k + 1 <= j < vx_w.log.len() implies ((#[trigger] vx_w.log[j]) is Send || vx_w.log[j] is Sub) by { if j > k + 1 { assert(vx_w.log[k + 2 + (j - k - 2)] is Send); } }
    }
//@tail vx_r
    proof {
        assert(net(vx_w.log.skip(k + 1)) == -q.len());
        assert(was(k + 1, vx_r as int + q.len()));
        assert(exists|o: Map<K, Registrations<V>>, n: Map<K, Registrations<V>>| #[trigger] step(vx_w.log[k], bucket(*self, *key), o, n) && n =~= o.remove(*key) && o.contains_key(*key) && o[*key]@ == q);
    }
//@end
//@fn file=crates/tn-utils/src/notify_read.rs path="impl NotifyRead :: fn cleanup"
//@desugar vec.retain
//@sub? /fn cleanup\(&self, (\w+): &K\)/ => fn cleanup(&self, \1: &K, Tracked(vx_w): Tracked<&mut World<V>>)
//@sub? /self\.pending\((\w+)\)/ => self.pending(\1, Tracked(vx_w))
//@sub? /fetch_sub\(([^,()]*(?:\(\))?), Ordering::(\w+)\)/ => fetch_sub::<V>(\1, Ordering::\2, Tracked(vx_w))
//@spec
    requires self.wf(),
    ensures
        final(vx_w).log.len() > old(vx_w).log.len(), final(vx_w).log.take(old(vx_w).log.len() as int) == old(vx_w).log,
        swept(final(vx_w).log, old(vx_w).log.len() as int, bucket(*self, *key), *key),
//@head
    let ghost w0 = vx_w.log; let ghost k = w0.len() as int; let ghost mut gq: Seq<Sender<V>> = Seq::empty(); let ghost mut kept: Seq<Sender<V>> = Seq::empty();
//@after /self\.pending\([^;]*;/
    let ghost e0 = vx_w.log[k];
//@after? /else \{/
    proof { assert(vx_w.log.take(k) =~= w0); }
//@beforeloop 0
    let ghost q = registrations@; let ghost mut ix: Seq<int> = Seq::empty();
    proof { assert(vx_w.log.take(k) =~= w0); }
//@loop 0 iter=it
    invariant
        k == w0.len(), it.seq() == q, q.len() <= usize::MAX, count_deleted + vx_keep@.len() == it.index(), picks(q, vx_keep@, ix),
        forall|p: int| 0 <= p < ix.len() ==> #[trigger] ix[p] < it.index(),
        forall|i: int| 0 <= i < it.index() && !closed((#[trigger] q[i]).id) ==> ix.contains(i),
        forall|p: int| 0 <= p < vx_keep@.len() ==> !gone((#[trigger] vx_keep@[p]).id),
//@loophead 0
    let ghost k0 = vx_keep@; let ghost ix0 = ix;
//@loopend 0
    proof {
        if vx_keep@.len() > k0.len() { ix = ix.push(it.index() as int); assert(ix.last() == it.index() as int); assert(ix.contains(it.index() as int)); }
        assert forall|i: int| ix0.contains(i) implies ix.contains(i) by { let p = ix0.index_of(i); assert(ix[p] == i); }
    }
//@after? /count_deleted \+ vx_keep/
//@before? /registrations\.vx_put/
    proof { kept = vx_keep@; gq = q; assert(pruned(q, kept)); }
//@after? /Ordering::\w+, Tracked\(vx_w\)\);/
    proof {
        assert(vx_w.log.take(k) =~= w0);
        assert(vx_w.log.skip(k + 1) =~= Seq::<Ev<V>>::empty().push(vx_w.log.last())); lemma_net_push(Seq::<Ev<V>>::empty(), vx_w.log.last());
    }
//@tail vx_r
    proof {
        assert(vx_w.log[k] == e0);
        assert(net(vx_w.log.skip(k + 1)) == kept.len() - gq.len());
        assert(exists|o: Map<K, Registrations<V>>, n: Map<K, Registrations<V>>| #[trigger] step(vx_w.log[k], bucket(*self, *key), o, n) && o.contains_key(*key) && o[*key]@ == gq);
        assert(exists|o: Map<K, Registrations<V>>, n: Map<K, Registrations<V>>| #[trigger] step(vx_w.log[k], bucket(*self, *key), o, n) && n =~= pending@);
        assert(pending@.contains_key(*key) ==> pending@[*key]@ == kept);
        assert(pending@.contains_key(*key) == (kept.len() > 0));
    }
//@end
}
impl<'a, K: KeyT, V: ValT> Registration<'a, K, V> {
//@fn file=crates/tn-utils/src/notify_read.rs path="impl Future for Registration :: fn poll" ret=r
//@sub? /mut self: Pin<&mut Self>, cx: &mut Context<'_>/ => &mut self, cx: &mut Context
//@sub? /-> Poll<Self::Output>/ => -> Poll<V>
//@desugar opt.map /as_mut/
//@sub? /Pin::new\((\w+)\) \.poll\(cx\)/ => \1.vx_poll(cx)
//@sub? /poll\.map\(\|(\w+)\| \1\.expect\("[^"]*"\)\)/ => (match poll { Poll::Ready(\1) => Poll::Ready(\1.expect("")), Poll::Pending => Poll::Pending })
//@spec
    requires old(self).registration is Some, !orphan(old(self).registration->Some_0.1.id),
    ensures
        final(self).this == old(self).this,
        match r { Poll::Ready(v) => sent(old(self).registration->Some_0.1.id, v) && final(self).registration is None,
            Poll::Pending => final(self).registration matches Some(x) && x.0 == old(self).registration->Some_0.0 && x.1.id == old(self).registration->Some_0.1.id },
//@end
//@fn file=crates/tn-utils/src/notify_read.rs path="impl Drop for Registration :: fn drop" rename=dropped
//@sub? /&mut self\)/ => &mut self, Tracked(vx_w): Tracked<&mut World<V>>)
//@sub? /(?:std::)?(?:mem::)?\bdrop\((\w+)\)/ => vx_drop_rx(\1)
//@sub? /self\.this\.cleanup\((&\w+)\)/ => self.this.cleanup(\1, Tracked(vx_w))
//@spec
    requires old(self).this.wf(),
    // unresolved: the receiver is gone first, then its key is swept; resolved: nothing happens
    ensures
        match old(self).registration {
            None => final(vx_w).log == old(vx_w).log,
            Some(x) => gone(x.1.id) && final(vx_w).log.len() > old(vx_w).log.len() && final(vx_w).log.take(old(vx_w).log.len() as int) == old(vx_w).log
                && swept(final(vx_w).log, old(vx_w).log.len() as int, bucket(*old(self).this, x.0), x.0),
        },
//@end
}
pub open spec fn at_key<'a, K, V>(s: NotifyRead<K, V>, r: Registration<'a, K, V>, k: K, e: Ev<V>) -> bool {
    *r.this == s && (r.registration matches Some(x) && x.0 == k && registered(e, bucket(s, k), k, x.1.id))
}
pub open spec fn sent_in<V>(l: Seq<Ev<V>>, k: int, id: int, v: V) -> bool { exists|j: int| k <= j < l.len() && #[trigger] l[j] == Ev::Send(id, v) }
/// step `k` takes every registration of the key out; each of them is sent the value and uncounted; the rest stays; the result is what remains
pub open spec fn cleared<K, V>(l: Seq<Ev<V>>, k: int, m: Mutex<Tab<K, V>>, key: K, v: V, r: int) -> bool {
    exists|o: Map<K, Registrations<V>>, n: Map<K, Registrations<V>>| #[trigger] step(l[k], m, o, n) && n =~= o.remove(key)
        && if o.contains_key(key) {
            let q = o[key]@;
            &&& net(l.skip(k + 1)) == -q.len()
            &&& forall|i: int| 0 <= i < q.len() ==> sent_in(l, k + 1, (#[trigger] q[i]).id, v)
            &&& forall|j: int| k + 1 <= j < l.len() ==> (#[trigger] l[j]) is Send || l[j] is Sub
            &&& exists|i: int| #[trigger] was(i, r + q.len())
        } else { l.len() == k + 1 }
}
pub open spec fn pruned<V>(q: Seq<Sender<V>>, kept: Seq<Sender<V>>) -> bool {
    exists|ix: Seq<int>| #[trigger] picks(q, kept, ix) && (forall|i: int| 0 <= i < q.len() && !closed((#[trigger] q[i]).id) ==> ix.contains(i))
        && (forall|p: int| 0 <= p < kept.len() ==> !gone((#[trigger] kept[p]).id))
}
/// step `k` removes the registrations of the key whose receivers are gone, only closed ones, and uncounts exactly them
pub open spec fn swept<K, V>(l: Seq<Ev<V>>, k: int, m: Mutex<Tab<K, V>>, key: K) -> bool {
    exists|o: Map<K, Registrations<V>>, n: Map<K, Registrations<V>>| #[trigger] step(l[k], m, o, n) && n.remove(key) =~= o.remove(key)
        && if o.contains_key(key) {
            exists|kept: Seq<Sender<V>>| #[trigger] pruned(o[key]@, kept) && net(l.skip(k + 1)) == kept.len() - o[key]@.len()
                && if kept.len() == 0 { !n.contains_key(key) } else { n.contains_key(key) && n[key]@ == kept }
        } else { l.len() == k + 1 && !n.contains_key(key) }
}
/// the step adds one registration under `k` and changes nothing else
pub open spec fn registered<K, V>(e: Ev<V>, m: Mutex<Tab<K, V>>, k: K, id: int) -> bool {
    exists|o: Map<K, Registrations<V>>, n: Map<K, Registrations<V>>| #[trigger] step(e, m, o, n) && n.contains_key(k) && n =~= o.insert(k, n[k])
        && ids(n[k]@) =~= (if o.contains_key(k) { ids(o[k]@) } else { Seq::empty() }).push(id)
}
}
fn main() {}
