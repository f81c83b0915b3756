// C27: notifiers, keyed waits and channel wrappers
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::sync::Arc;
verus! {
// ---- the lock and what a thread does while it holds one
//@known Mutex World Waker Context Poll lock wake
/// a task handle (opaque); cloning gives a handle of the same task
pub struct Waker { pub x: u64 }
impl Waker {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Waker) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(self, Tracked(w): Tracked<&mut World>) ensures final(w).log == old(w).log.push(Ev::Wake(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn wake_by_ref(&self, Tracked(w): Tracked<&mut World>) ensures final(w).log == old(w).log.push(Ev::Wake(*self)) { unimplemented!() }
}
pub struct Context { pub w: Waker }
impl Context { pub fn waker(&self) -> (r: &Waker) ensures *r == self.w { &self.w } }
pub enum Poll<T> { Ready(T), Pending }
/// a mutex: `lock` may find any value in it (other threads ran), and this thread's change of it is one step of its log
pub struct Mutex<T> { pub x: u64, pub t: core::marker::PhantomData<T> }
pub uninterp spec fn made<T>(m: Mutex<T>) -> T;
pub trait Locked: Sized { spec fn ev(m: Mutex<Self>, o: Self, n: Self) -> Ev; }
pub type Bits = (bool, Option<Waker>);
impl Locked for Bits { open spec fn ev(m: Mutex<Bits>, o: Bits, n: Bits) -> Ev { Ev::Bit { m, o, n } } }
impl Locked for Vec<Noticer> { open spec fn ev(m: Mutex<Vec<Noticer>>, o: Vec<Noticer>, n: Vec<Noticer>) -> Ev { Ev::List { m, o: o@, n: n@ } } }
impl Locked for (bool, Vec<Noticer>) { open spec fn ev(m: Mutex<(bool, Vec<Noticer>)>, o: (bool, Vec<Noticer>), n: (bool, Vec<Noticer>)) -> Ev { Ev::Latch { m, ob: o.0, o: o.1@, nb: n.0, n: n.1@ } } }
#[allow(inconsistent_fields)]
pub enum Ev {
    Bit { m: Mutex<Bits>, o: Bits, n: Bits },
    List { m: Mutex<Vec<Noticer>>, o: Seq<Noticer>, n: Seq<Noticer> },
    Latch { m: Mutex<(bool, Vec<Noticer>)>, ob: bool, o: Seq<Noticer>, nb: bool, n: Seq<Noticer> },
    Wake(Waker),
}
/// the steps of this thread, in the order the locks were taken
pub tracked struct World { pub ghost log: Seq<Ev> }
impl<T: Locked> Mutex<T> {
    #[verifier::external_body]
    pub fn lock<'a>(&'a self, Tracked(w): Tracked<&mut World>) -> (r: &'a mut T)
        ensures final(w).log == old(w).log.push(T::ev(*self, *r, *final(r))),
    { unimplemented!() }
}
impl<T> Mutex<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures made(r) == t { unimplemented!() }
}
pub trait VxDrain<T> { spec fn vx_d(&self) -> Seq<T>;
    fn vx_drain(&mut self) -> (r: Vec<T>) ensures r@ == old(self).vx_d(), final(self).vx_d() == Seq::<T>::empty(); }
impl<T> VxDrain<T> for Vec<T> { open spec fn vx_d(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_drain(&mut self) -> (r: Vec<T>) { unimplemented!() } }
//@item file=crates/types/src/notifier.rs path="struct Noticer"
//@end
//@item file=crates/types/src/notifier.rs path="struct Notifier"
//@end
//@item file=crates/types/src/notifier.rs path="struct ShutdownNotifier"
//@end
// ---- what every step on a noticer respects: set stays set; a waiting task's handle is replaced by a later poll or taken by whoever sets the flag
pub open spec fn bit_ok(o: Bits, n: Bits) -> bool {
    &&& (o.0 ==> n.0)
    &&& (!n.0 && o.1 is Some ==> n.1 is Some)
}
/// one step set the flag of `m`, and took the waiting task (if any) for waking
pub open spec fn caught(e: Ev, m: Mutex<Bits>, wk: Seq<Waker>) -> bool { e matches Ev::Bit { m: a, o, n } && a == m && n.0 && n.1 is None && (o.1 matches Some(x) ==> wk.contains(x)) }
pub open spec fn set_at(l: Seq<Ev>, j: int, m: Mutex<Bits>) -> bool { l[j] matches Ev::Bit { m: a, o, n } && a == m && n.0 }
pub open spec fn woken_after(l: Seq<Ev>, j: int, x: Waker) -> bool { exists|q: int| j < q < l.len() && #[trigger] l[q] == Ev::Wake(x) }
/// from `k` on: every noticer of `lst` is set, every task found waiting is woken, and none of them before all flags are set
pub open spec fn told(l: Seq<Ev>, k: int, lst: Seq<Noticer>) -> bool {
    &&& forall|i: int| 0 <= i < lst.len() ==> exists|j: int| k <= j < l.len() && set_at(l, j, *(#[trigger] lst[i]).lock)
    &&& forall|j: int| k <= j < l.len() ==> ((#[trigger] l[j]) matches Ev::Wake(_) || (l[j] matches Ev::Bit { m, o, n } && bit_ok(o, n)
        && (o.1 matches Some(x) ==> n.1 != Some(x) ==> woken_after(l, j, x))))
    &&& forall|i: int, j: int| #![trigger l[i], l[j]] k <= i < j < l.len() && l[i] is Wake ==> l[j] is Wake
}
/// nothing but this one step on a noticer
pub open spec fn one<T: Locked>(a: World, b: World, m: Mutex<T>, o: T, n: T) -> bool { b.log == a.log.push(T::ev(m, o, n)) }

impl Noticer {
//@fn file=crates/types/src/notifier.rs path="impl Noticer :: fn noticed" ret=r
//@sub? /fn noticed\(&self\)/ => fn noticed(&self, Tracked(vx_w): Tracked<&mut World>)
//@sub? /\.lock\(\)/ => .lock(Tracked(vx_w))
//@spec
    ensures exists|o: Bits| #[trigger] one(*old(vx_w), *final(vx_w), *self.lock, o, o) && r == o.0,
//@head
    let ghost w0 = *vx_w;
//@tail vx_r
    proof { let e = vx_w.log.last(); if let Ev::Bit { m, o, n } = e { assert(one(w0, *vx_w, *self.lock, o, o)); } }
//@end
//@fn file=crates/types/src/notifier.rs path="impl Noticer :: fn poll_int" ret=r
//@sub? /cx: &mut Context<'_>/ => cx: &mut Context, Tracked(vx_w): Tracked<&mut World>
//@sub? /\.lock\(\)/ => .lock(Tracked(vx_w))
//@spec
    ensures
        exists|o: Bits, n: Bits| #[trigger] one(*old(vx_w), *final(vx_w), *self.lock, o, n) && bit_ok(o, n) && n.0 == o.0
            && if o.0 { r == Poll::Ready(()) } else { r == Poll::<()>::Pending && n.1 == Some(old(cx).w) },
//@head
    let ghost w0 = *vx_w;
//@tail vx_r
    proof { let e = vx_w.log.last(); if let Ev::Bit { m, o, n } = e { assert(one(w0, *vx_w, *self.lock, o, n)); } }
//@end
//@fn file=crates/types/src/notifier.rs path="impl Future for Noticer :: fn poll" ret=r rename=poll_owned
//@sub? /self: Pin<&mut Self>, cx: &mut Context<'_>/ => &mut self, cx: &mut Context, Tracked(vx_w): Tracked<&mut World>
//@sub? /-> Poll<Self::Output>/ => -> Poll<()>
//@sub? /self\.get_mut\(\)/ => self
//@sub? /\.poll_int\(cx\)/ => .poll_int(cx, Tracked(vx_w))
//@spec
    ensures
        exists|o: Bits, n: Bits| #[trigger] one(*old(vx_w), *final(vx_w), *old(self).lock, o, n) && bit_ok(o, n) && n.0 == o.0
            && if o.0 { r == Poll::Ready(()) } else { r == Poll::<()>::Pending && n.1 == Some(old(cx).w) },
//@end
//@fn file=crates/types/src/notifier.rs path="impl Future for &Noticer :: fn poll" ret=r rename=poll_shared
//@sub? /self: Pin<&mut Self>, cx: &mut Context<'_>/ => &self, cx: &mut Context, Tracked(vx_w): Tracked<&mut World>
//@sub? /-> Poll<Self::Output>/ => -> Poll<()>
//@sub? /self\.get_mut\(\)/ => self
//@sub? /\.poll_int\(cx\)/ => .poll_int(cx, Tracked(vx_w))
//@spec
    ensures
        exists|o: Bits, n: Bits| #[trigger] one(*old(vx_w), *final(vx_w), *self.lock, o, n) && bit_ok(o, n) && n.0 == o.0
            && if o.0 { r == Poll::Ready(()) } else { r == Poll::<()>::Pending && n.1 == Some(old(cx).w) },
//@end
}
impl Notifier {
//@fn file=crates/types/src/notifier.rs path="impl Notifier :: fn new" ret=r
//@spec
    ensures made(*r.noticers)@.len() == 0,
//@end
//@fn file=crates/types/src/notifier.rs path="impl Notifier :: fn subscribe" ret=r
//@sub? /fn subscribe\(&self\)/ => fn subscribe(&self, Tracked(vx_w): Tracked<&mut World>)
//@sub? /\.lock\(\)/ => .lock(Tracked(vx_w))
//@spec
    // a fresh noticer, not set, is on the list
    ensures
        made(*r.lock) == (false, None::<Waker>),
        final(vx_w).log.len() == old(vx_w).log.len() + 1, final(vx_w).log.drop_last() == old(vx_w).log,
        final(vx_w).log.last() matches Ev::List { m, o, n } && m == *self.noticers && n == o.push(r),
//@tail vx_r
    proof { assert(vx_w.log.drop_last() =~= old(vx_w).log); }
//@end
//@fn file=crates/types/src/notifier.rs path="impl Notifier :: fn notify"
//@chain
//@sub? /fn notify\(&self\)/ => fn notify(&self, Tracked(vx_w): Tracked<&mut World>)
//@sub? /\.lock\(\)/ => .lock(Tracked(vx_w))
//@sub? /\.drain\(\.\.\)/ => .vx_drain()
//@sub? /Waker::wake\((\w+)\)/ => \1.wake(Tracked(vx_w))
//@sub? /\.wake\(\)/ => .wake(Tracked(vx_w))
//@sub? /\bdrop\(\w+\);/ =>
//@spec
    // everybody who had subscribed is set and woken, and the list is emptied in the same step it is read
    ensures
        final(vx_w).log.len() > old(vx_w).log.len(), final(vx_w).log.take(old(vx_w).log.len() as int) == old(vx_w).log,
        final(vx_w).log[old(vx_w).log.len() as int] matches Ev::List { m, o, n } && m == *self.noticers && n.len() == 0
            && told(final(vx_w).log, old(vx_w).log.len() as int + 1, o),
//@head
    let ghost w0 = vx_w.log;
    let ghost k = w0.len() as int;
//@beforeloop 0
    let ghost s0 = vx_w.log[k];
//@loop 0 iter=it
    invariant
        k == w0.len(), vx_w.log.len() == k + 1 + it.index(), vx_w.log.take(k) == w0, vx_w.log[k] == s0,
        vx_w.log[k] matches Ev::List { m, o, n } && m == *self.noticers && o == it.seq(),
        forall|q: int| 0 <= q < it.index() ==> caught(#[trigger] vx_w.log[k + 1 + q], *it.seq()[q].lock, wakers@),
//@loophead 0
    let ghost wk0 = wakers@; let ghost l0 = vx_w.log;
//@loopend 0
    proof {
        assert(vx_w.log.take(k) =~= w0);
        assert(forall|x: Waker| #![auto] wk0.contains(x) ==> wakers@.contains(x)) by {
            assert forall|x: Waker| #![auto] wk0.contains(x) implies wakers@.contains(x) by { let p = wk0.index_of(x); assert(wakers@[p] == x); }
        }
        let e = vx_w.log.last();
        assert(e matches Ev::Bit { m, o, n } && (o.1 matches Some(x) ==> wakers@.contains(x))) by {
            if let Ev::Bit { m, o, n } = e { if let Some(x) = o.1 { assert(wakers@.last() == x); assert(wakers@[wakers@.len() - 1] == x); } }
        }
        assert(forall|q: int| 0 <= q < l0.len() ==> vx_w.log[q] == l0[q]);
    }
//@afterloop 0
    let ghost l1 = vx_w.log; let ghost wk = wakers@;
//@loop 1 iter=iu
    invariant
        iu.seq() == wk, vx_w.log.len() == l1.len() + iu.index(), vx_w.log.take(l1.len() as int) == l1,
        forall|q: int| 0 <= q < iu.index() ==> #[trigger] vx_w.log[l1.len() + q] == Ev::Wake(wk[q]),
//@loopend 1
    proof { assert(vx_w.log.take(l1.len() as int) =~= l1); }
//@afterloop 1
    proof { lemma_told(w0, l1, vx_w.log, k, wk); }
//@end
}
proof fn lemma_told(w0: Seq<Ev>, l1: Seq<Ev>, l: Seq<Ev>, k: int, wk: Seq<Waker>)
    requires
        k == w0.len(), l1.len() >= k + 1, l.len() == l1.len() + wk.len(), l.take(l1.len() as int) == l1, l1.take(k) == w0,
        forall|q: int| 0 <= q < wk.len() ==> #[trigger] l[l1.len() + q] == Ev::Wake(wk[q]),
        l1[k] is List || l1[k] is Latch,
        ({ let lst = listed(l1[k]); l1.len() == k + 1 + lst.len() && forall|q: int| 0 <= q < lst.len() ==> caught(#[trigger] l1[k + 1 + q], *lst[q].lock, wk) }),
    ensures told(l, k + 1, listed(l1[k])), l[k] == l1[k], l.take(k) == w0,
{
    let lst = listed(l1[k]);
    assert(forall|q: int| 0 <= q < l1.len() ==> l[q] == l.take(l1.len() as int)[q]);
    assert(l.take(k) =~= l1.take(k));
    assert forall|i: int| 0 <= i < lst.len() implies exists|j: int| k + 1 <= j < l.len() && set_at(l, j, *(#[trigger] lst[i]).lock) by {
        let e = l1[k + 1 + i]; assert(l[k + 1 + i] == e); assert(set_at(l, k + 1 + i, *lst[i].lock));
    }
    assert forall|j: int| k + 1 <= j < l1.len() implies ((#[trigger] l[j]) matches Ev::Bit { m, o, n } && bit_ok(o, n) && (o.1 matches Some(x) ==> n.1 != Some(x) ==> woken_after(l, j, x))) by {
        let e = l1[k + 1 + (j - k - 1)]; assert(l[j] == e);
        if let Ev::Bit { m, o, n } = e { if let Some(x) = o.1 { let p = wk.index_of(x); assert(l[l1.len() + p] == Ev::Wake(wk[p])); assert(woken_after(l, j, x)); } }
    }
    assert forall|j: int| l1.len() <= j < l.len() implies (#[trigger] l[j]) is Wake by { assert(l[l1.len() + (j - l1.len())] is Wake); }
}
pub open spec fn listed(e: Ev) -> Seq<Noticer> { match e { Ev::List { m, o, n } => o, Ev::Latch { m, ob, o, nb, n } => o, _ => Seq::empty() } }
impl ShutdownNotifier {
//@fn file=crates/types/src/notifier.rs path="impl ShutdownNotifier :: fn new" ret=r
//@spec
    ensures !made(*r.inner).0, made(*r.inner).1@.len() == 0,
//@end
//@fn file=crates/types/src/notifier.rs path="impl ShutdownNotifier :: fn subscribe" ret=r
//@sub? /fn subscribe\(&self\)/ => fn subscribe(&self, Tracked(vx_w): Tracked<&mut World>)
//@sub? /\.lock\(\)/ => .lock(Tracked(vx_w))
//@spec
    // already notified: born set. otherwise: on the list. decided and done in one step
    ensures
        final(vx_w).log.len() == old(vx_w).log.len() + 1, final(vx_w).log.drop_last() == old(vx_w).log,
        final(vx_w).log.last() matches Ev::Latch { m, ob, o, nb, n } && m == *self.inner && nb == ob && made(*r.lock) == (ob, None::<Waker>)
            && (!ob ==> n == o.push(r)),
//@tail vx_r
    proof { assert(vx_w.log.drop_last() =~= old(vx_w).log); }
//@end
//@fn file=crates/types/src/notifier.rs path="impl ShutdownNotifier :: fn notify"
//@chain
//@sub? /fn notify\(&self\)/ => fn notify(&self, Tracked(vx_w): Tracked<&mut World>)
//@sub? /\.lock\(\)/ => .lock(Tracked(vx_w))
//@sub? /\.drain\(\.\.\)/ => .vx_drain()
//@sub? /Waker::wake\((\w+)\)/ => \1.wake(Tracked(vx_w))
//@sub? /\.wake\(\)/ => .wake(Tracked(vx_w))
//@sub? /\bdrop\(\w+\);/ =>
//@spec
    // the latch is set in the same step the list is taken: nobody can slip in between
    ensures
        final(vx_w).log.len() > old(vx_w).log.len(), final(vx_w).log.take(old(vx_w).log.len() as int) == old(vx_w).log,
        final(vx_w).log[old(vx_w).log.len() as int] matches Ev::Latch { m, ob, o, nb, n } && m == *self.inner && nb && n.len() == 0
            && told(final(vx_w).log, old(vx_w).log.len() as int + 1, o),
//@head
    let ghost w0 = vx_w.log;
    let ghost k = w0.len() as int;
//@beforeloop 0
    let ghost s0 = vx_w.log[k];
//@loop 0 iter=it
    invariant
        k == w0.len(), vx_w.log.len() == k + 1 + it.index(), vx_w.log.take(k) == w0, vx_w.log[k] == s0,
        vx_w.log[k] matches Ev::Latch { m, ob, o, nb, n } && m == *self.inner && o == it.seq(),
        forall|q: int| 0 <= q < it.index() ==> caught(#[trigger] vx_w.log[k + 1 + q], *it.seq()[q].lock, vx_col0@),
//@loophead 0
    let ghost wk0 = vx_col0@; let ghost l0 = vx_w.log;
//@loopend 0
    proof {
        assert(vx_w.log.take(k) =~= w0);
        assert forall|x: Waker| #![auto] wk0.contains(x) implies vx_col0@.contains(x) by { let p = wk0.index_of(x); assert(vx_col0@[p] == x); }
        let e = vx_w.log.last();
        assert(e matches Ev::Bit { m, o, n } && (o.1 matches Some(x) ==> vx_col0@.contains(x))) by {
            if let Ev::Bit { m, o, n } = e { if let Some(x) = o.1 { assert(vx_col0@.last() == x); assert(vx_col0@[vx_col0@.len() - 1] == x); } }
        }
        assert(forall|q: int| 0 <= q < l0.len() ==> vx_w.log[q] == l0[q]);
    }
//@beforeloop 1
    let ghost l1 = vx_w.log; let ghost wk = wakers@;
//@loop 1 iter=iu
    invariant
        iu.seq() == wk, vx_w.log.len() == l1.len() + iu.index(), vx_w.log.take(l1.len() as int) == l1,
        forall|q: int| 0 <= q < iu.index() ==> #[trigger] vx_w.log[l1.len() + q] == Ev::Wake(wk[q]),
//@loopend 1
    proof { assert(vx_w.log.take(l1.len() as int) =~= l1); }
//@afterloop 1
    proof { lemma_told(w0, l1, vx_w.log, k, wk); }
//@end
}
/// the history of one noticer, as the contracts above allow it: a task that went to sleep is found by whoever sets the flag (and so woken, by `told`)
pub open spec fn history(h: Seq<(Bits, Bits)>) -> bool {
    &&& forall|i: int| 0 <= i < h.len() ==> bit_ok((#[trigger] h[i]).0, h[i].1)
    &&& forall|i: int| #![trigger h[i]] 0 < i < h.len() ==> h[i].0 == h[i - 1].1
}
proof fn no_lost_wakeup(h: Seq<(Bits, Bits)>, i: int, j: int)
    requires history(h), 0 <= i < j < h.len(), !h[i].1.0, h[i].1.1 is Some, h[j].1.0,
    ensures exists|k: int| i < k <= j && !(#[trigger] h[k]).0.0 && h[k].1.0 && h[k].0.1 is Some,
    decreases j - i,
{
    assert(h[i + 1].0 == h[i].1);
    if h[i + 1].1.0 { assert(!h[i + 1].0.0); } else { if i + 1 < j { no_lost_wakeup(h, i + 1, j); } }
}
}
fn main() {}
