#![allow(dead_code, unused)]
//@include lib/rs/native.rs
use std::collections::BTreeMap;
macro_rules! debug { ($($t:tt)*) => {} }
//@item file=crates/tn-reth/src/evm/utils.rs path="const MIN_GAS_LIMIT_THRESHOLD"
//@end
//@item file=crates/tn-reth/src/evm/utils.rs path="const PRECISION"
//@end
//@item file=crates/tn-reth/src/evm/utils.rs path="const THRESHOLD"
//@end
//@item file=crates/tn-reth/src/evm/utils.rs path="const THRESHOLD_SQUARED"
//@end
//@fn file=crates/tn-reth/src/evm/utils.rs path="fn calculate_gas_penalty"
//@end

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Address(u64);
pub const SYSTEM_ADDRESS: Address = Address(0xff);
#[derive(Debug)]
pub struct EvmErr;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct U256(u128, u128);
impl U256 {
    pub const ZERO: U256 = U256(0, 0);
    pub fn from<T: Into<u128>>(v: T) -> U256 { U256(0, v.into()) }
}
#[derive(Clone, Copy, Debug)]
pub struct Gas { limit: u64, remaining: u64, refunded: i64 }
impl Gas {
    pub fn limit(&self) -> u64 { self.limit }
    pub fn remaining(&self) -> u64 { self.remaining }
    pub fn refunded(&self) -> i64 { self.refunded }
    pub fn spent(&self) -> u64 { self.limit - self.remaining }
    pub fn used(&self) -> u64 { self.spent().saturating_sub(self.refunded as u64) }
    pub fn spent_sub_refunded(&self) -> u64 { self.spent().saturating_sub(self.refunded as u64) }
}
pub struct FrameResult { g: Gas }
impl FrameResult { pub fn gas(&self) -> &Gas { &self.g } pub fn gas_mut(&mut self) -> &mut Gas { &mut self.g } }
#[derive(Clone, Debug)]
pub struct Tx { caller: Address, gas_limit: u64, max_fee: u128, tip: Option<u128> }
impl Tx {
    pub fn caller(&self) -> Address { self.caller }
    pub fn gas_limit(&self) -> u64 { self.gas_limit }
    pub fn gas_price(&self) -> u128 { self.max_fee }
    pub fn max_fee_per_gas(&self) -> u128 { self.max_fee }
    pub fn effective_gas_price(&self, basefee: u128) -> u128 {
        match self.tip { Some(t) => self.max_fee.min(basefee.saturating_add(t)), None => self.max_fee }
    }
}
#[derive(Clone, Debug)]
pub struct Block { basefee: u64, beneficiary: Address }
impl Block { pub fn basefee(&self) -> u64 { self.basefee } pub fn beneficiary(&self) -> Address { self.beneficiary } }
#[derive(Default)]
pub struct Journal { bal: BTreeMap<Address, (u128, u128)> }
pub struct Acct<'a>(&'a mut (u128, u128));
impl<'a> Acct<'a> {
    pub fn incr_balance(&mut self, v: U256) -> bool {
        let (lo, c) = self.0 .1.overflowing_add(v.1);
        self.0 .1 = lo; self.0 .0 += v.0 + c as u128; true
    }
    pub fn decr_balance(&mut self, v: U256) -> bool { panic!("balance decreased") }
}
impl Journal {
    pub fn load_account_mut(&mut self, a: Address) -> Result<Acct<'_>, EvmErr> { Ok(Acct(self.bal.entry(a).or_default())) }
    pub fn balance_incr(&mut self, a: Address, v: U256) -> Result<(), EvmErr> { self.load_account_mut(a)?.incr_balance(v); Ok(()) }
}
pub struct Ctx { tx: Tx, block: Block, j: Journal }
impl Ctx {
    pub fn tx(&self) -> &Tx { &self.tx }
    pub fn block(&self) -> &Block { &self.block }
    pub fn journal_mut(&mut self) -> &mut Journal { &mut self.j }
}
pub struct Evm { c: Ctx }
impl Evm { pub fn ctx(&mut self) -> &mut Ctx { &mut self.c } }
pub struct TNEvmHandler { basefee_address: Address }
impl TNEvmHandler {
//@fn file=crates/tn-reth/src/evm/handler.rs path="impl Handler for TNEvmHandler :: fn reimburse_caller"
//@sub /Self::Evm/ => Evm
//@sub /Self::Error/ => EvmErr
//@end
//@fn file=crates/tn-reth/src/evm/handler.rs path="impl Handler for TNEvmHandler :: fn reward_beneficiary"
//@sub /Self::Evm/ => Evm
//@sub /Self::Error/ => EvmErr
//@end
}

// ------------------------------------------------------------------ oracle
fn spec_penalty(limit: u64, used: u64) -> u64 {
    if limit <= 210_000 { return 0; }
    let ratio = 1_000_000_000u128 * used as u128 / limit as u128;
    if ratio >= 100_000_000 { return 0; }
    let d = 100_000_000 - ratio;
    ((d * d) * (limit - used) as u128 / 10_000_000_000_000_000) as u64
}
fn mulsat(a: u128, b: u128) -> u128 { a.checked_mul(b).unwrap_or(u128::MAX) }
fn add256(m: &mut BTreeMap<Address, (u128, u128)>, a: Address, v: u128) {
    let e = m.entry(a).or_default();
    let (lo, c) = e.1.overflowing_add(v); e.1 = lo; e.0 += c as u128;
}
fn pen_case(r: &mut vx::Rep, l: u64, u: u64) {
    let want = spec_penalty(l, u);
    r.case(want > 0);
    match vx::guard(|| calculate_gas_penalty(l, u)) {
        Ok(got) => r.check(got == want, "penalty", || format!("calculate_gas_penalty(gas_limit={l}, gas_used={u}) = {got}, specification {want}")),
        Err(p) => r.fail("penalty", format!("calculate_gas_penalty(gas_limit={l}, gas_used={u}): {p}")),
    }
}
fn settle_case(r: &mut vx::Rep, tx: Tx, blk: Block, g: Gas, gov: Address) {
    let mut evm = Evm { c: Ctx { tx: tx.clone(), block: blk.clone(), j: Journal::default() } };
    let mut fr = FrameResult { g };
    let h = TNEvmHandler { basefee_address: gov };
    let out = vx::guard(|| { h.reimburse_caller(&mut evm, &mut fr).is_ok() && h.reward_beneficiary(&mut evm, &mut fr).is_ok() });
    let mut want = BTreeMap::new();
    if tx.caller != SYSTEM_ADDRESS {
        let price = tx.effective_gas_price(blk.basefee as u128);
        let p = spec_penalty(tx.gas_limit, g.spent());
        let unused = tx.gas_limit - g.spent_sub_refunded();
        add256(&mut want, tx.caller, mulsat(price, unused.saturating_sub(p) as u128));
        add256(&mut want, gov, mulsat(price, p as u128));
        add256(&mut want, blk.beneficiary, mulsat(price.saturating_sub(blk.basefee as u128), g.spent_sub_refunded() as u128));
        add256(&mut want, gov, mulsat(blk.basefee as u128, g.spent_sub_refunded() as u128));
    }
    want.retain(|_, v| *v != (0, 0));
    let mut got = evm.c.j.bal.clone();
    let touched = !got.is_empty();
    got.retain(|_, v| *v != (0, 0));
    r.case(!want.is_empty());
    let d = || format!("tx {tx:?} block {blk:?} gas {g:?} basefee account {gov:?}");
    match out {
        Err(p) => r.fail("settlement", format!("{p} for {}", d())),
        Ok(false) => r.fail("settlement", format!("error returned for {}", d())),
        Ok(true) => {
            r.check(got == want, "settlement", || format!("credited balances {got:?}, specification {want:?} for {}", d()));
            r.check(tx.caller != SYSTEM_ADDRESS || !touched, "system-call-touch", || format!("system call touched accounts for {}", d()));
        }
    }
}
fn main() {
    let mut r = vx::Rep::new();
    // thresholds and their neighbourhood, exhaustively
    for l in [0u64, 1, 20_999, 21_000, 209_998, 209_999, 210_000, 210_001, 210_002, 210_009, 210_010, 210_011, 1_000_000, 30_000_000, 60_000_000, 340_282_366, 340_282_367, 1 << 32, (1 << 34) + 3, 1 << 53, 1 << 60, u64::MAX - 1, u64::MAX] {
        let mut us = vec![0u64, 1, 2, 21_000, l / 10, l / 100, l / 20, l, l.saturating_add(1), u64::MAX, l / 2];
        for b in us.clone() { for k in 0..4u64 { us.push(b.saturating_add(k)); us.push(b.saturating_sub(k)); } }
        for u in us { pen_case(&mut r, l, u); }
    }
    for l in 209_990..210_200u64 { for u in (0..30_000u64).step_by(17) { pen_case(&mut r, l, u); } }
    let mut n = 0u64;
    while r.time_left(0.5) && n < 3_000_000 {
        n += 1;
        let l = match r.rng.below(4) { 0 => r.rng.edgy(), 1 => r.rng.range(200_000, 60_000_000), 2 => 210_000 + r.rng.below(2_000_000), _ => r.rng.next() >> r.rng.below(40) };
        let u = match r.rng.below(6) { 0 => r.rng.edgy(), 1 => r.rng.below(l / 10 + 1), 2 => (l / 10).wrapping_add(r.rng.below(5)).wrapping_sub(2), 3 => r.rng.below(l.max(1)), 4 => r.rng.below(l / 1000 + 1), _ => 21_000.min(l) };
        pen_case(&mut r, l, u);
    }
    r.sample(format!("calculate_gas_penalty(1_000_000, 21_000) = {}", calculate_gas_penalty(1_000_000, 21_000)));
    let mut n = 0u64;
    while r.time_left(1.0) && n < 1_500_000 {
        n += 1;
        let l = match r.rng.below(4) { 0 => r.rng.edgy(), 1 => r.rng.range(21_000, 60_000_000), 2 => 210_000 + r.rng.below(2_000_000), _ => r.rng.range(200_000, 30_000_000) };
        let spent = match r.rng.below(4) { 0 => l, 1 => r.rng.below(l / 10 + 1), 2 => r.rng.below(l.max(1)), _ => 21_000.min(l) };
        let refunded = match r.rng.below(3) { 0 => 0, 1 => (spent / 5).min(1 << 62), _ => r.rng.below(spent / 5 + 1).min(1 << 62) } as i64;
        let basefee = match r.rng.below(4) { 0 => 7, 1 => 0, 2 => r.rng.below(1_000_000_000), _ => r.rng.edgy() };
        let price: u128 = match r.rng.below(5) { 0 => basefee as u128, 1 => basefee as u128 + r.rng.below(1_000_000) as u128, 2 => u128::MAX - r.rng.below(3) as u128, 3 => r.rng.edgy() as u128, _ => (basefee as u128) * 2 };
        let a = [SYSTEM_ADDRESS, Address(1), Address(2), Address(3)];
        let caller = if r.rng.chance(1, 20) { a[0] } else { a[1 + r.rng.us(3)] };
        let tip = match r.rng.below(3) { 0 => None, 1 => Some(r.rng.below(100) as u128), _ => Some(r.rng.edgy() as u128) };
        let tx = Tx { caller, gas_limit: l, max_fee: price, tip };
        let blk = Block { basefee, beneficiary: a[1 + r.rng.us(3)] };
        let gov = a[1 + r.rng.us(3)];
        settle_case(&mut r, tx, blk, Gas { limit: l, remaining: l - spent, refunded }, gov);
    }
    r.finish()
}
