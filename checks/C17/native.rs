#![allow(dead_code, unused)]
//@include lib/rs/native.rs
mod cache {
//@module file=crates/network-libp2p/src/peers/cache.rs
//@end
    pub struct VClock(pub std::rc::Rc<std::cell::Cell<Instant>>);
    impl Clock for VClock { fn now(&self) -> Instant { self.0.get() } }
    pub fn make<K: Eq + std::hash::Hash + Clone>(d: Duration, cap: usize, c: std::rc::Rc<std::cell::Cell<Instant>>) -> BannedPeerCache<K, VClock> {
        // the constructor's clamping is checked separately; this builds on `new`'s own fields
        let b = BannedPeerCache::<K, SystemClock>::new(d, cap);
        BannedPeerCache { map: b.map, list: b.list, duration: b.duration, max_len: b.max_len, clock: VClock(c) }
    }
    pub struct Dut(BannedPeerCache<u8, VClock>);
    impl Dut {
        pub fn new(d: Duration, cap: usize, c: std::rc::Rc<std::cell::Cell<Instant>>) -> Self { Dut(make(d, cap, c)) }
        pub fn insert(&mut self, k: u8) -> (bool, Option<u8>) { self.0.insert(k) }
        pub fn remove(&mut self, k: u8) -> bool { self.0.remove(&k) }
        pub fn heartbeat(&mut self) -> Vec<u8> { self.0.heartbeat() }
        pub fn contains(&self, k: u8) -> bool { self.0.contains(&k) }
        pub fn len(&self) -> usize { self.0.len() }
    }
}
use std::time::{Duration, Instant};
use std::{cell::Cell, rc::Rc};
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Ins(u8), Rem(u8), Beat, Adv(u64) }
fn run(r: &mut vx::Rep, d: u64, cap: usize, keys: u8, ops: &[Op]) {
    let t0 = Instant::now();
    let clk = Rc::new(Cell::new(t0));
    let mut dut = cache::Dut::new(Duration::from_millis(d), cap, clk.clone());
    let cap_eff = cap.max(1);
    let mut m: Vec<(u8, u64)> = vec![];
    let mut now = 0u64;
    r.case(ops.len() > 1);
    for (i, op) in ops.iter().enumerate() {
        let what = || format!("duration {d} ms, cap {cap}, operations {:?}", &ops[..=i]);
        let res = vx::guard(|| match *op {
            Op::Ins(k) => { let (n, e) = dut.insert(k); (n, e.into_iter().collect::<Vec<_>>()) }
            Op::Rem(k) => (dut.remove(k), vec![]),
            Op::Beat => (false, dut.heartbeat()),
            Op::Adv(ms) => { clk.set(clk.get() + Duration::from_millis(ms)); (false, vec![]) }
        });
        let want = match *op {
            Op::Ins(k) => {
                if let Some(p) = m.iter().position(|x| x.0 == k) { m.remove(p); m.push((k, now)); (false, vec![]) }
                else { m.push((k, now)); if m.len() > cap_eff { (true, vec![m.remove(0).0]) } else { (true, vec![]) } }
            }
            Op::Rem(k) => match m.iter().position(|x| x.0 == k) { Some(p) => { m.remove(p); (true, vec![]) } None => (false, vec![]) },
            Op::Beat => { let mut out = vec![]; while !m.is_empty() && m[0].1 + d <= now { out.push(m.remove(0).0); } (false, out) }
            Op::Adv(ms) => { now += ms; (false, vec![]) }
        };
        match res {
            Err(p) => { r.fail("panic", format!("{p} for {}", what())); return; }
            Ok(got) => if got != want { r.fail("result", format!("last operation returned {got:?}, expected {want:?} for {}", what())); return; }
        }
        for k in 0..=keys {
            if dut.contains(k) != m.iter().any(|x| x.0 == k) { r.fail("contains", format!("contains({k}) = {} for {}", dut.contains(k), what())); return; }
        }
        if dut.len() != m.len() || dut.len() > cap_eff { r.fail("len", format!("len = {}, expected {} for {}", dut.len(), m.len(), what())); return; }
    }
}
fn main() {
    let mut r = vx::Rep::new();
    // exhaustive: every sequence of length 6 over 3 keys, caps 0..3
    let alpha = [Op::Ins(0), Op::Ins(1), Op::Ins(2), Op::Rem(0), Op::Rem(1), Op::Beat, Op::Adv(5), Op::Adv(10)];
    for cap in 0..3usize {
        let mut idx = [0usize; 6];
        'o: loop {
            let ops: Vec<Op> = idx.iter().map(|&i| alpha[i]).collect();
            run(&mut r, 10, cap, 3, &ops);
            for p in 0..6 { idx[p] += 1; if idx[p] < alpha.len() { continue 'o; } idx[p] = 0; }
            break;
        }
        if !r.time_left(0.7) { break; }
    }
    r.sample("all sequences of 6 operations over {insert a,b,c; remove a,b; heartbeat; +5 ms; +10 ms} with duration 10 ms".into());
    let mut n = 0;
    while r.time_left(1.0) && n < 40_000 {
        n += 1;
        let keys = 1 + r.rng.us(40) as u8;
        let d = match r.rng.below(5) { 0 => 0, 1 => 1, _ => r.rng.below(50) };
        let cap = r.rng.us(20);
        let len = 1 + r.rng.us(200);
        let hb = 1 + r.rng.below(10);
        let ops: Vec<Op> = (0..len).map(|_| match r.rng.below(10 + hb) {
            0..=4 => Op::Ins(r.rng.us(keys as usize) as u8), 5..=6 => Op::Rem(r.rng.us(keys as usize) as u8),
            7..=9 => Op::Adv(if r.rng.chance(1, 3) { d } else { r.rng.below(d + 2) }), _ => Op::Beat }).collect();
        run(&mut r, d, cap, keys, &ops);
    }
    r.finish()
}
