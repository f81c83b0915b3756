// shared by every native driver: seeded PRNG, counters, FAIL/SAMPLE protocol
mod vx {
    use std::collections::BTreeMap;
    use std::time::{Duration, Instant};
    pub struct Rng(pub u64);
    impl Rng {
        pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
        pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
        pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
        pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
        /// u64 with an interesting magnitude: boundaries, powers of two, small, random
        pub fn edgy(&mut self) -> u64 {
            match self.below(6) {
                0 => self.below(16),
                1 => u64::MAX - self.below(16),
                2 => { let k = self.below(64); (1u64 << k).wrapping_add(self.below(5)).wrapping_sub(2) }
                3 => self.below(1_000_000),
                4 => { let k = self.below(64); self.next() >> k }
                _ => self.next(),
            }
        }
        pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
        pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j); } }
    }
    pub struct Rep { pub evals: u64, pub nontrivial: u64, samples: Vec<String>, fails: BTreeMap<String, String>, start: Instant, budget: Duration, pub rng: Rng, pub thorough: bool }
    impl Rep {
        pub fn new() -> Self {
            let a: Vec<String> = std::env::args().collect();
            let seed = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
            let b: u64 = std::env::var("VX_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
            if std::env::var("VX_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
            Rep { evals: 0, nontrivial: 0, samples: vec![], fails: BTreeMap::new(), start: Instant::now(), budget: Duration::from_secs(b), rng: Rng::new(seed), thorough: a.get(2).map(|s| s == "thorough").unwrap_or(false) }
        }
        pub fn time_left(&self, frac: f64) -> bool { self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * frac && self.fails.len() < 8 }
        pub fn case(&mut self, nontrivial: bool) { self.evals += 1; if nontrivial { self.nontrivial += 1; } }
        pub fn sample(&mut self, s: String) { if self.samples.len() < 6 { self.samples.push(s); } }
        pub fn fail(&mut self, key: &str, what: String) { self.fails.entry(key.to_string()).or_insert(what); }
        pub fn check(&mut self, ok: bool, key: &str, what: impl FnOnce() -> String) { if !ok { let w = what(); self.fail(key, w); } }
        pub fn last(&self, s: &str) { println!("LAST {}", s.replace('\n', " ")); }
        pub fn finish(self) -> ! {
            println!("EVALS {}\nNONTRIVIAL {}", self.evals, self.nontrivial);
            for s in &self.samples { println!("SAMPLE {}", s.replace('\n', " ")); }
            for (k, w) in &self.fails { println!("FAIL {} | {}", k, w.replace('\n', " ")); }
            std::process::exit(if self.fails.is_empty() { 0 } else { 1 })
        }
    }
    /// run the code under test, keeping the payload of a panic
    #[allow(dead_code)] pub fn guard_any<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) }
    /// run the code under test; a panic is an outcome, not the end of the driver
    pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
            if let Some(s) = e.downcast_ref::<String>() { format!("panic: {s}") } else if let Some(s) = e.downcast_ref::<&str>() { format!("panic: {s}") } else { "panic".to_string() }
        })
    }
}
