// C27 replay: notifiers, keyed waits and channel wrappers, with other operations slipped in at every lock boundary
#![allow(dead_code, unused)]
//@include lib/rs/native.rs
/// a mutex that calls a hook wherever another thread could run
pub mod sched {
    use std::cell::{Cell, RefCell};
    use std::ops::{Deref, DerefMut};
    thread_local! { pub static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) }; static BUSY: Cell<bool> = const { Cell::new(false) }; pub static WAKING: Cell<bool> = const { Cell::new(false) }; }
    pub fn point() {
        if std::thread::panicking() || BUSY.with(|b| b.get()) { return; }
        if let Some(mut h) = HOOK.with(|k| k.borrow_mut().take()) {
            BUSY.with(|b| b.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h()));
            BUSY.with(|b| b.set(false));
            HOOK.with(|k| { let mut k = k.borrow_mut(); if k.is_none() { *k = Some(h); } });
            if let Err(e) = r { std::panic::resume_unwind(e); }
        }
    }
    pub fn set(h: Option<Box<dyn FnMut()>>) { WAKING.with(|w| w.set(false)); HOOK.with(|k| *k.borrow_mut() = h); BUSY.with(|b| b.set(false)); }
    pub struct Blocked;
    #[derive(Default)] pub struct Mutex<T>(std::sync::Mutex<T>);
    impl<T: std::fmt::Debug> std::fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
    pub struct MutexGuard<'a, T>(Option<std::sync::MutexGuard<'a, T>>);
    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self { Mutex(std::sync::Mutex::new(t)) }
        pub fn lock(&self) -> MutexGuard<'_, T> {
            point();
            match self.0.try_lock() {
                Ok(g) => MutexGuard(Some(g)),
                Err(std::sync::TryLockError::Poisoned(g)) => MutexGuard(Some(g.into_inner())),
                // another thread would have to wait here: this schedule does not exist
                Err(std::sync::TryLockError::WouldBlock) if WAKING.with(|w| w.get()) => panic!("deadlock: a woken task's waker needs a lock its own thread holds"),
                Err(std::sync::TryLockError::WouldBlock) => std::panic::panic_any(Blocked),
            }
        }
        pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> { self.0.try_lock().ok().map(|g| MutexGuard(Some(g))) }
        pub fn into_inner(self) -> T { self.0.into_inner().unwrap() }
        pub fn get_mut(&mut self) -> &mut T { self.0.get_mut().unwrap() }
    }
    impl<T> MutexGuard<'_, T> { pub fn unlocked<F: FnOnce() -> U, U>(_: &mut Self, f: F) -> U { f() } }
    impl<T> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.0.as_ref().unwrap() } }
    impl<T> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.0.as_mut().unwrap() } }
    impl<T> Drop for MutexGuard<'_, T> { fn drop(&mut self) { self.0.take(); point(); } }
}
pub mod notifier {
//@module file=crates/types/src/notifier.rs
//@sub /parking_lot::/ => crate::sched::
//@end
}
/// the same with the real mutex, for threads
pub mod notifier_mt {
//@module file=crates/types/src/notifier.rs
//@end
}
pub mod notify_read {
//@module file=crates/tn-utils/src/notify_read.rs
//@sub /parking_lot::/ => crate::sched::
//@end
}
pub mod sync {
//@module file=crates/types/src/sync.rs
//@end
}
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
type Res = Result<(), (&'static str, String)>;
trait Src: Clone + 'static { const NAME: &'static str; const STICKY: bool; fn mk() -> Self; fn sub(&self) -> notifier::Noticer; fn ring(&self); }
impl Src for notifier::Notifier { const NAME: &'static str = "Notifier"; const STICKY: bool = false; fn mk() -> Self { Self::new() } fn sub(&self) -> notifier::Noticer { self.subscribe() } fn ring(&self) { self.notify() } }
impl Src for notifier::ShutdownNotifier { const NAME: &'static str = "ShutdownNotifier"; const STICKY: bool = true; fn mk() -> Self { Self::default() } fn sub(&self) -> notifier::Noticer { self.subscribe() } fn ring(&self) { self.notify() } }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Sub, Poll(usize), PollRef(usize), Ring, Drop(usize), Seen(usize) }
/// a waker that records when it was woken and which noticers were set by then
struct Bell { at: AtomicU64, dark: AtomicUsize, look: std::sync::Mutex<Option<Box<dyn Fn() -> usize + Send>>>, clock: Arc<AtomicU64> }
impl Wake for Bell { fn wake(self: Arc<Self>) { self.wake_by_ref() } fn wake_by_ref(self: &Arc<Self>) { self.at.store(self.clock.fetch_add(1, SeqCst) + 1, SeqCst); let was = sched::WAKING.with(|w| w.replace(true)); sched::point(); sched::WAKING.with(|w| w.set(was)); } }
struct Sub { n: Option<notifier::Noticer>, began: u64, ended: u64, pending: Option<(Arc<Bell>, u64)>, ready: bool }
struct W<S> { src: S, subs: Vec<Sub>, rings: Vec<(u64, u64)>, clock: Arc<AtomicU64>, log: Vec<String> }
const OPEN: u64 = u64::MAX;
impl<S: Src> W<S> {
    fn new() -> Rc<RefCell<Self>> { Rc::new(RefCell::new(W { src: S::mk(), subs: vec![], rings: vec![], clock: Arc::new(AtomicU64::new(1)), log: vec![] })) }
    fn tick(&self) -> u64 { self.clock.fetch_add(1, SeqCst) + 1 }
    /// one operation; the world is not borrowed while the code under test runs
    fn run(w: &Rc<RefCell<Self>>, op: Op) -> Res {
        match op {
            Op::Sub => {
                let (s, t0) = { let b = w.borrow(); (b.src.clone(), b.tick()) };
                let n = s.sub();
                let mut b = w.borrow_mut(); let t1 = b.tick();
                let after = b.rings.iter().any(|r| r.1 < t0);
                let early = b.rings.iter().any(|r| r.0 < t1 && r.1 > t0);
                b.subs.push(Sub { n: Some(n), began: t0, ended: t1, pending: None, ready: false });
            }
            Op::Ring => {
                let (s, k) = { let mut b = w.borrow_mut(); let t = b.tick(); b.rings.push((t, OPEN)); (b.src.clone(), b.rings.len() - 1) };
                s.ring();
                let mut b = w.borrow_mut(); let t = b.tick(); b.rings[k].1 = t;
            }
            Op::Poll(i) | Op::PollRef(i) => {
                let (mut n, bell) = { let mut b = w.borrow_mut(); if i >= b.subs.len() { return Ok(()); }
                    let Some(n) = b.subs[i].n.take() else { return Ok(()); };
                    (n, Arc::new(Bell { at: AtomicU64::new(0), dark: AtomicUsize::new(0), look: std::sync::Mutex::new(None), clock: b.clock.clone() })) };
                let t = w.borrow().tick();
                let wk = Waker::from(bell.clone());
                let mut cx = Context::from_waker(&wk);
                let r = if let Op::Poll(_) = op { Pin::new(&mut n).poll(&mut cx) } else { Pin::new(&mut &n).poll(&mut cx) };
                let mut b = w.borrow_mut();
                let s = &mut b.subs[i];
                s.n = Some(n);
                match r { Poll::Ready(()) => { s.ready = true; s.pending = None; } Poll::Pending => {
                    if s.ready { return Err(("unready", format!("noticer {i} is pending again after it resolved"))); }
                    s.pending = Some((bell, t)); } }
            }
            Op::Drop(i) => { let n = { let mut b = w.borrow_mut(); if i < b.subs.len() { b.subs[i].n.take() } else { None } }; drop(n); }
            Op::Seen(i) => {
                let n = { let mut b = w.borrow_mut(); if i < b.subs.len() { b.subs[i].n.take() } else { None } };
                if let Some(n) = n { let r = n.noticed(); let mut b = w.borrow_mut(); b.subs[i].n = Some(n); if !r && b.subs[i].ready { return Err(("unready", format!("noticer {i} resolved and is not noticed"))); } }
            }
        }
        Ok(())
    }
    /// nothing is running: who must, and who must not, have been told
    fn settle(w: &Rc<RefCell<Self>>) -> Res {
        let n = w.borrow().subs.len();
        for i in 0..n {
            let Some(x) = w.borrow_mut().subs[i].n.take() else { continue };
            let set = x.noticed();
            let mut b = w.borrow_mut();
            let s = &b.subs[i];
            let must = b.rings.iter().any(|r| r.0 > s.ended) || (S::STICKY && b.rings.iter().any(|r| r.0 != 0 && r.1 != OPEN));
            let may = b.rings.iter().any(|r| S::STICKY || r.1 > s.began);
            if must && !set { return Err(("lost", format!("{} noticer {i} subscribed before (or after a sticky) notify is not noticed", S::NAME))); }
            if !may && set { return Err(("spurious", format!("{} noticer {i} is noticed and nothing notified it", S::NAME))); }
            if s.ready && !may { return Err(("spurious", format!("{} noticer {i} resolved and nothing notified it", S::NAME))); }
            if let Some((bell, t)) = &s.pending {
                if set && bell.at.load(SeqCst) < *t { return Err(("lost-wakeup", format!("{} noticer {i} went to sleep, was noticed afterwards and its task was never woken", S::NAME))); }
            }
            b.subs[i].n = Some(x);
        }
        Ok(())
    }
    /// a task woken by a notify finds every noticer of that notify set
    fn woken_see_all(w: &Rc<RefCell<Self>>) -> Res {
        let b = w.borrow();
        let Some(r0) = b.rings.last().filter(|r| r.1 == OPEN).map(|r| r.0) else { return Ok(()) };
        let woken = b.subs.iter().any(|s| s.pending.as_ref().is_some_and(|(k, t)| k.at.load(SeqCst) > r0 && *t < r0));
        if !woken { return Ok(()); }
        for (i, s) in b.subs.iter().enumerate() {
            if s.ended < r0 { if let Some(n) = &s.n { if !n.noticed() { return Err(("woken-early", format!("{}: a task was woken by notify while noticer {i} was not yet set", S::NAME))); } } }
        }
        Ok(())
    }
    fn finish(w: Rc<RefCell<Self>>) -> Res {
        // after a last notify nothing keeps a waker alive
        Self::run(&w, Op::Ring)?;
        Self::settle(&w)?;
        let b = w.borrow();
        for (i, s) in b.subs.iter().enumerate() { if let Some((bell, _)) = &s.pending { if Arc::strong_count(bell) > 1 { return Err(("waker-kept", format!("{} still holds the waker of noticer {i} after it was woken", S::NAME))); } } }
        Ok(())
    }
}
/// `pre`, then `op` with `inj` run at its `at`-th lock boundary, then `post`; Ok(false): `op` has fewer boundaries
fn play<S: Src>(pre: &[Op], op: Op, inj: &[Op], at: usize, post: &[Op]) -> Result<bool, (&'static str, String)> {
    let out: Rc<RefCell<Res>> = Rc::new(RefCell::new(Ok(())));
    let hit = Rc::new(RefCell::new(false));
    let r = vx::guard_any(|| -> Res {
        let w = W::<S>::new();
        for o in pre { W::run(&w, *o)?; W::settle(&w)?; }
        let (w2, inj2, out2, hit2, mut left) = (w.clone(), inj.to_vec(), out.clone(), hit.clone(), at);
        sched::set(Some(Box::new(move || {
            let mut r = Ok(());
            if left == 0 { *hit2.borrow_mut() = true; for o in &inj2 { if r.is_ok() { r = W::run(&w2, *o); } } if inj2.is_empty() { r = W::woken_see_all(&w2); } }
            left = left.wrapping_sub(1);
            if r.is_err() && out2.borrow().is_ok() { *out2.borrow_mut() = r; }
        })));
        let r = W::run(&w, op);
        sched::set(None);
        r?;
        std::mem::replace(&mut *out.borrow_mut(), Ok(()))?;
        W::settle(&w)?;
        for o in post { W::run(&w, *o)?; W::settle(&w)?; }
        W::finish(w)
    });
    sched::set(None);
    match r {
        Ok(r) => r.map_err(|(k, e)| (k, format!("{e}; after {pre:?} then {op:?} with {inj:?} at lock boundary {at} then {post:?}")))?,
        Err(e) if e.is::<sched::Blocked>() => {}
        Err(e) => return Err(("panic", format!("panic {:?}; after {pre:?} then {op:?} with {inj:?} at lock boundary {at} then {post:?}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()))))),
    }
    let h = *hit.borrow();
    Ok(h)
}
fn notifiers<S: Src>(r: &mut vx::Rep, frac: f64) {
    let ops = [Op::Sub, Op::Poll(0), Op::Poll(1), Op::Ring, Op::Drop(0), Op::PollRef(0)];
    // every sequence of up to 6 operations
    fn all(ops: &[Op], n: usize, f: &mut dyn FnMut(&[Op])) { fn go(ops: &[Op], n: usize, v: &mut Vec<Op>, f: &mut dyn FnMut(&[Op])) { f(v); if n == 0 { return; } for o in ops { v.push(*o); go(ops, n - 1, v, f); v.pop(); } } go(ops, n, &mut vec![], f) }
    let mut bad: Option<(&'static str, String)> = None;
    let mut n = 0u64;
    all(&ops, 5, &mut |v| { if bad.is_none() { n += 1; if let Err(e) = play::<S>(v, Op::Seen(0), &[], usize::MAX, &[]) { bad = Some(e); } } });
    // every prefix of up to 3, one operation split at every boundary by up to 2 others
    let mut pres = vec![vec![]]; all(&ops[..4], 3, &mut |v| pres.push(v.to_vec()));
    pres.push(vec![Op::Sub, Op::Sub, Op::Poll(0), Op::Poll(1)]);
    pres.push(vec![Op::Sub, Op::Sub, Op::Sub, Op::Poll(2), Op::Poll(0), Op::Poll(1)]);
    let mut injs = vec![vec![]]; all(&[Op::Sub, Op::Poll(0), Op::Poll(1), Op::Poll(2), Op::Ring, Op::Seen(0)], 2, &mut |v| injs.push(v.to_vec()));
    for pre in &pres { for op in [Op::Ring, Op::Sub, Op::Poll(0), Op::Poll(1)] { for inj in &injs { for at in 0..40 {
        if bad.is_some() { break; }
        n += 1;
        match play::<S>(pre, op, inj, at, &[]) { Ok(true) => {} Ok(false) => break, Err(e) => bad = Some(e) }
    } } } }
    r.evals += n; r.nontrivial += n;
    r.sample(format!("{}: {n} histories, each operation split at every lock boundary", S::NAME));
    // seeded longer ones
    while bad.is_none() && r.time_left(frac) {
        let g = &mut r.rng;
        let k = 1 + g.us(4);
        let op = |g: &mut vx::Rng| match g.below(9) { 0..=1 => Op::Sub, 2..=4 => Op::Poll(g.us(k)), 5 => Op::PollRef(g.us(k)), 6..=7 => Op::Ring, _ => if g.chance(1, 2) { Op::Drop(g.us(k)) } else { Op::Seen(g.us(k)) } };
        let pre: Vec<Op> = (0..k).map(|_| Op::Sub).chain((0..g.us(8)).map(|_| Op::Poll(0))).collect::<Vec<_>>().into_iter().map(|o| if o == Op::Poll(0) { op(g) } else { o }).collect();
        let inj: Vec<Op> = (0..g.us(4)).map(|_| op(g)).collect(); let post: Vec<Op> = (0..g.us(5)).map(|_| op(g)).collect();
        let o = op(g); let at = g.us(24);
        if let Err(e) = play::<S>(&pre, o, &inj, at, &post) { bad = Some(e); }
        r.case(true);
    }
    if let Some((k, e)) = bad { r.fail(k, e); }
}
/// real threads: every subscriber sleeps until it is woken
fn threads(r: &mut vx::Rep, secs: f64) {
    struct Park(std::thread::Thread); impl Wake for Park { fn wake(self: Arc<Self>) { self.0.unpark() } }
    fn wait(mut n: notifier_mt::Noticer) -> bool {
        let wk = Waker::from(Arc::new(Park(std::thread::current()))); let mut cx = Context::from_waker(&wk);
        let t = std::time::Instant::now();
        loop { if Pin::new(&mut n).poll(&mut cx).is_ready() { return true; } std::thread::park_timeout(std::time::Duration::from_secs(30)); if t.elapsed().as_secs() >= 30 && !n.noticed() { return false; } if t.elapsed().as_secs() >= 30 { return false; } }
    }
    let t0 = std::time::Instant::now();
    let mut k = 0u64;
    while t0.elapsed().as_secs_f64() < secs && k < 4000 {
        k += 1;
        let (a, s) = (notifier_mt::Notifier::new(), notifier_mt::ShutdownNotifier::new());
        let hs: Vec<_> = (0..3).map(|i| { let n = if i == 0 { a.subscribe() } else { s.subscribe() }; std::thread::spawn(move || wait(n)) }).collect();
        let late = { let s = s.clone(); std::thread::spawn(move || wait(s.subscribe())) };
        let y = k % 7; for _ in 0..y { std::thread::yield_now(); }
        a.notify(); s.notify();
        let ok = hs.into_iter().map(|h| h.join().unwrap_or(false)).collect::<Vec<_>>();
        let l = late.join().unwrap_or(false);
        r.case(true);
        if ok.iter().any(|x| !x) { r.fail("lost-wakeup", format!("threads: a sleeping subscriber was never woken ({ok:?})")); return; }
        if !l { r.fail("lost", "threads: a subscriber racing with ShutdownNotifier::notify was never woken".into()); return; }
    }
}
// ---- keyed waits
mod keyed {
    use super::*;
    use notify_read::{NotifyRead, Registration};
    struct Cnt(AtomicUsize); impl Wake for Cnt { fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); } }
    struct Live { key: u64, reg: Option<Registration<'static, u64, u64>>, due: Option<u64>, asleep: Option<Arc<Cnt>> }
    #[derive(Clone, Copy, Debug)] enum K { One(u64), All(u64, u64, u64), Notify(u64, u64), Poll(usize), Drop(usize) }
    struct World { nr: &'static NotifyRead<u64, u64>, live: Vec<Live> }
    impl World {
        fn waiting(&self) -> usize { self.live.iter().filter(|l| l.reg.is_some() && l.due.is_none()).count() }
        fn step(w: &Rc<RefCell<World>>, o: K) -> Res {
            let nr = w.borrow().nr;
            match o {
                K::One(k) => { let reg = nr.register_one(&k); w.borrow_mut().live.push(Live { key: k, reg: Some(reg), due: None, asleep: None }); }
                K::All(a, b, c) => { let rs = nr.register_all(vec![a, b, c]); if rs.len() != 3 { return Err(("register-all", format!("register_all of 3 keys gave {} registrations", rs.len()))); }
                    for (k, reg) in [a, b, c].into_iter().zip(rs) { w.borrow_mut().live.push(Live { key: k, reg: Some(reg), due: None, asleep: None }); } }
                K::Notify(k, v) => {
                    let before: Vec<usize> = { let b = w.borrow(); b.live.iter().enumerate().filter(|(_, l)| l.key == k && l.reg.is_some() && l.due.is_none()).map(|(i, _)| i).collect() };
                    let left = nr.notify(&k, &v);
                    let mut b = w.borrow_mut();
                    let others = b.live.iter().enumerate().filter(|(i, l)| !before.contains(i) && l.reg.is_some() && l.due.is_none()).count();
                    if left != others { return Err(("read-remaining", format!("notify({k}, {v}) resolved {} waiters and returned {left}, {others} remain", before.len()))); }
                    for i in before {
                        let l = &mut b.live[i];
                        if l.due.is_none() { l.due = Some(v); }
                        if let Some(c) = &l.asleep { if l.reg.is_some() && c.0.load(SeqCst) == 0 { return Err(("read-lost", format!("a waiter for key {k} was asleep and notify({k}, {v}) did not wake it"))); } }
                    }
                }
                K::Poll(i) => {
                    let (mut reg, key, due) = { let mut b = w.borrow_mut(); if i >= b.live.len() { return Ok(()); } let l = &mut b.live[i]; let Some(x) = l.reg.take() else { return Ok(()) }; (x, l.key, l.due) };
                    let c = Arc::new(Cnt(AtomicUsize::new(0))); let wk = Waker::from(c.clone());
                    let p = Pin::new(&mut reg).poll(&mut Context::from_waker(&wk));
                    let mut b = w.borrow_mut();
                    match (p, due) {
                        (Poll::Ready(v), Some(d)) => { if v != d { return Err(("read-value", format!("the waiter for key {key} resolved to {v}, notified was {d}"))); } drop(b); drop(reg); }
                        (Poll::Ready(v), None) => { return Err(("read-spurious", format!("the waiter for key {key} resolved to {v} without a notify of its key"))); }
                        (Poll::Pending, Some(d)) => { return Err(("read-lost", format!("the waiter for key {key} is pending after notify with {d}"))); }
                        (Poll::Pending, None) => { b.live[i].asleep = Some(c); b.live[i].reg = Some(reg); }
                    }
                }
                K::Drop(i) => { let x = { let mut b = w.borrow_mut(); if i < b.live.len() { b.live[i].reg.take() } else { None } }; drop(x); }
            }
            Ok(())
        }
        fn counts(w: &Rc<RefCell<World>>) -> Res {
            let b = w.borrow();
            if b.nr.num_pending() != b.waiting() { return Err(("read-count", format!("num_pending is {} with {} waiters", b.nr.num_pending(), b.waiting()))); }
            Ok(())
        }
    }
    fn sweep(nr: &'static NotifyRead<u64, u64>, tag: &str) -> Res {
        // nothing is left behind for keys nobody waits for: a later notify changes no count
        for k in 0..6 { let a = nr.num_pending(); nr.notify(&k, &0); if nr.num_pending() != a { return Err(("read-leak", format!("{tag}: key {k} still has registrations after all its waiters are gone"))); } }
        Ok(())
    }
    pub fn run(r: &mut vx::Rep, frac: f64) {
        while r.time_left(frac) {
            let g = &mut r.rng;
            let keys = 1 + g.below(4); let n = 3 + g.us(14);
            let op = |g: &mut vx::Rng| match g.below(10) { 0..=2 => K::One(g.below(keys)), 3 => K::All(g.below(keys), g.below(keys), g.below(keys)), 4..=5 => K::Notify(g.below(keys), g.next() % 1000), 6..=7 => K::Poll(g.us(6)), _ => K::Drop(g.us(6)) };
            let ops: Vec<K> = (0..n).map(|_| op(g)).collect();
            // one of them is split by another at a lock boundary
            let split = g.us(n + 2); let at = g.us(4); let inj = op(g);
            let nr: &'static NotifyRead<u64, u64> = Box::leak(Box::new(NotifyRead::new()));
            let w = Rc::new(RefCell::new(World { nr, live: vec![] }));
            let early: Rc<RefCell<Res>> = Rc::new(RefCell::new(Ok(())));
            let w0 = w.clone();
            let res = vx::guard_any(|| -> Res {
                for (i, o) in ops.iter().enumerate() {
                    // splitting only reads: polls, drops and registrations of other waiters commute with what is running
                    if i == split && !matches!(inj, K::Notify(..)) && !matches!(o, K::Poll(_)) {
                        let (w2, e2, mut left) = (w.clone(), early.clone(), at);
                        sched::set(Some(Box::new(move || { if left == 0 { let _ = match inj { K::One(_) | K::All(..) => World::step(&w2, inj), K::Drop(_) => World::step(&w2, inj), _ => Ok(()) }; } left = left.wrapping_sub(1); })));
                        let r = match o { K::Notify(..) => Ok(()), _ => World::step(&w, *o) };
                        sched::set(None);
                        r?;
                    } else { World::step(&w, *o)?; }
                    World::counts(&w)?;
                }
                Ok(())
            });
            sched::set(None);
            match res {
                Ok(Ok(())) => {}
                Ok(Err((k, e))) => { r.fail(k, format!("{e}; after {ops:?}, operation {split} split by {inj:?} at lock boundary {at}")); }
                Err(e) if e.is::<sched::Blocked>() => { continue; }
                Err(e) => { r.fail("read-panic", format!("panic {:?} in {ops:?}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())))); return; }
            }
            let n = w0.borrow().live.len();
            for i in 0..n { if let Err((k, e)) = World::step(&w0, K::Drop(i)) { r.fail(k, e); } }
            if let Err((k, e)) = World::counts(&w0).and_then(|_| sweep(nr, "end")) { r.fail(k, format!("{e}; after {ops:?} and dropping every waiter, operation {split} split by {inj:?} at {at}")); }
            r.case(true);
        }
    }
}
// ---- channel wrappers
mod chans {
    use super::*;
    use super::sync::{TnReceiver, TnSender, TryRecvError, TrySendError, SendError};
    use tokio::sync::{broadcast, mpsc};
    use std::collections::VecDeque;
    struct Cnt(AtomicUsize); impl Wake for Cnt { fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); } }
    fn once<F: Future>(f: F) -> Poll<F::Output> { let wk = Waker::from(Arc::new(Cnt(AtomicUsize::new(0)))); let mut f = Box::pin(f); f.as_mut().poll(&mut Context::from_waker(&wk)) }
    fn bounded(g: &mut vx::Rng) -> Res {
        let cap = 1 + g.us(4); let (tx, mut rx) = mpsc::channel::<u64>(cap);
        let mut tx = Some(tx); let mut q: VecDeque<u64> = VecDeque::new(); let mut rxo = Some(rx);
        for _ in 0..20 {
            let v = g.next();
            match g.below(8) {
                0..=1 => if let Some(t) = &tx {
                    let e = TnSender::try_send(t, v);
                    let want = if rxo.is_none() { Err(TrySendError::Closed(v)) } else if q.len() == cap { Err(TrySendError::Full(v)) } else { q.push_back(v); Ok(()) };
                    if e != want { return Err(("mpsc-try-send", format!("try_send with {} of {cap} queued, receiver {}: {e:?}, expected {want:?}", q.len(), rxo.is_some()))); }
                },
                2..=3 => if let Some(t) = &tx {
                    let p = once(TnSender::send(t, v));
                    let want = if rxo.is_none() { Poll::Ready(Err(SendError(v))) } else if q.len() == cap { Poll::Pending } else { q.push_back(v); Poll::Ready(Ok(())) };
                    if p != want { return Err(("mpsc-send", format!("send with {} of {cap} queued, receiver {}: {p:?}, expected {want:?}", q.len(), rxo.is_some()))); }
                },
                4 => if let Some(r) = &mut rxo {
                    let e = TnReceiver::try_recv(r); let want = q.pop_front().ok_or(if tx.is_some() { TryRecvError::Empty } else { TryRecvError::Disconnected });
                    if e != want { return Err(("mpsc-try-recv", format!("try_recv {e:?}, expected {want:?}"))); }
                },
                5..=6 => if let Some(r) = &mut rxo {
                    let p = if g.chance(1, 2) { once(TnReceiver::recv(r)) } else { let wk = Waker::from(Arc::new(Cnt(AtomicUsize::new(0)))); TnReceiver::poll_recv(r, &mut Context::from_waker(&wk)) };
                    let want = match q.pop_front() { Some(x) => Poll::Ready(Some(x)), None => if tx.is_some() { Poll::Pending } else { Poll::Ready(None) } };
                    if p != want { return Err(("mpsc-recv", format!("recv {p:?}, expected {want:?}"))); }
                },
                _ => { if g.chance(1, 6) { tx = None; } if g.chance(1, 8) { rxo = None; } }
            }
        }
        Ok(())
    }
    fn fanout(g: &mut vx::Rng) -> Res {
        let cap = 1usize << g.us(4); let (tx, rx0) = broadcast::channel::<u64>(cap);
        let mut tx = Some(tx); let mut rxs: Vec<(broadcast::Receiver<u64>, usize)> = vec![(rx0, 0)]; let mut all: Vec<u64> = vec![];
        if g.chance(1, 5) { rxs.clear(); }
        for _ in 0..(10 + g.us(40)) {
            let v = g.next();
            match g.below(6) {
                0..=2 => if let Some(t) = &tx {
                    if !rxs.is_empty() { all.push(v); }
                    let ok = if g.chance(1, 2) { TnSender::try_send(t, v) == Ok(()) } else { once(TnSender::send(t, v)) == Poll::Ready(Ok(())) };
                    if !ok { return Err(("broadcast-send", format!("send with {} receivers failed", rxs.len()))); }
                },
                3..=4 if !rxs.is_empty() => {
                    let i = g.us(rxs.len()); let open = tx.is_some(); let (r, at) = &mut rxs[i];
                    let lag = all.len() - *at > cap;
                    let oldest = if lag { all.len() - cap } else { *at };
                    if g.chance(1, 2) {
                        let e = TnReceiver::try_recv(r);
                        let want = if lag { *at = oldest; Err(TryRecvError::Lagged) } else if *at < all.len() { *at += 1; Ok(all[*at - 1]) } else if open { Err(TryRecvError::Empty) } else { Err(TryRecvError::Disconnected) };
                        if e != want { return Err(("broadcast-try-recv", format!("try_recv of a receiver {} behind (capacity {cap}): {e:?}, expected {want:?}", all.len() - *at))); }
                    } else {
                        let p = once(TnReceiver::recv(r));
                        let want = if oldest < all.len() { *at = oldest + 1; Poll::Ready(Some(all[oldest])) } else if open { Poll::Pending } else { Poll::Ready(None) };
                        if p != want { return Err(("broadcast-recv", format!("recv of a receiver (capacity {cap}, lagging {lag}): {p:?}, expected {want:?}"))); }
                    }
                }
                _ => { if g.chance(1, 20) { tx = None; } if g.chance(1, 8) { if let Some(t) = &tx { if !rxs.is_empty() { rxs.push((t.subscribe(), all.len())); } } } }
            }
        }
        Ok(())
    }
    pub fn run(r: &mut vx::Rep, frac: f64) {
        let mut n = 0;
        while n < 300 || r.time_left(frac) {
            n += 1;
            let s = r.rng.next();
            for f in [bounded as fn(&mut vx::Rng) -> Res, fanout] {
                let mut g = vx::Rng::new(s);
                match vx::guard(|| f(&mut g)) { Ok(Ok(())) => {} Ok(Err((k, e))) => { r.fail(k, format!("{e} (history seed {s})")); return; } Err(e) => { r.fail("channel-panic", format!("{e} (history seed {s})")); return; } }
                r.case(true);
            }
            if n > 1_000_000 { break; }
        }
    }
}
fn main() {
    let mut r = vx::Rep::new();
    notifiers::<notifier::Notifier>(&mut r, 0.3);
    notifiers::<notifier::ShutdownNotifier>(&mut r, 0.55);
    keyed::run(&mut r, 0.75);
    chans::run(&mut r, 0.85);
    threads(&mut r, 2.0);
    r.finish()
}
