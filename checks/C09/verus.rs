// C09: gas over-reservation penalty and settlement of the gas payment
#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::power::*;
verus! {

//@include lib/verus/result.rs
// ------------------------------------------------------------------ specification (docs/gas-penalty.md)
pub open spec fn ratio(limit: nat, used: nat) -> nat { (1_000_000_000 * used) / limit }
pub open spec fn spec_penalty(limit: nat, used: nat) -> nat {
    if limit <= 210_000 { 0 }
    else if ratio(limit, used) >= 100_000_000 { 0 }
    else {
        let d = (100_000_000 - ratio(limit, used)) as nat;
        ((d * d) * (limit - used) as nat) / 10_000_000_000_000_000
    }
}

// ------------------------------------------------------------------ lemmas
/// below 10 % usage the gas used is less than the limit; the penalty never exceeds the unused gas
proof fn lemma_penalty(limit: nat, used: nat)
    requires limit > 210_000,
    ensures
        ratio(limit, used) < 100_000_000 ==> used < limit,
        ratio(limit, used) < 100_000_000 ==> ({
            let d = (100_000_000 - ratio(limit, used)) as nat;
            &&& d * d <= 10_000_000_000_000_000
            &&& (d * d) * (limit - used) <= 10_000_000_000_000_000 * (limit - used)
            &&& ((d * d) * (limit - used) as nat) / 10_000_000_000_000_000 <= limit - used
        }),
{
    if ratio(limit, used) < 100_000_000 {
        if used >= limit {
            assert(1_000_000_000 * used >= 1_000_000_000 * limit) by (nonlinear_arith) requires used >= limit;
            lemma_div_is_ordered((1_000_000_000 * limit) as int, (1_000_000_000 * used) as int, limit as int);
            lemma_div_multiples_vanish(1_000_000_000, limit as int);
            assert(false);
        }
        let d = (100_000_000 - ratio(limit, used)) as nat;
        assert(d * d <= 100_000_000 * 100_000_000) by (nonlinear_arith) requires d <= 100_000_000;
        lemma_mul_inequality((d * d) as int, 10_000_000_000_000_000, (limit - used) as int);
        let u = (limit - used) as int;
        lemma_div_is_ordered((d * d) * u, 10_000_000_000_000_000 * u, 10_000_000_000_000_000);
        lemma_div_multiples_vanish(u, 10_000_000_000_000_000);
    }
}

/// headline facts of the property, from the specification the code is proved equal to
proof fn lemma_headline(limit: nat, used: nat)
    ensures
        limit <= 210_000 ==> spec_penalty(limit, used) == 0,
        limit > 210_000 && 10 * used >= limit ==> spec_penalty(limit, used) == 0,
        used <= limit ==> spec_penalty(limit, used) <= limit - used,
        used > limit ==> spec_penalty(limit, used) == 0,
{
    if limit > 210_000 {
        lemma_penalty(limit, used);
        if 10 * used >= limit {
            assert(1_000_000_000 * used >= 100_000_000 * limit) by (nonlinear_arith) requires 10 * used >= limit;
            lemma_div_is_ordered((100_000_000 * limit) as int, (1_000_000_000 * used) as int, limit as int);
            lemma_div_multiples_vanish(100_000_000, limit as int);
        }
    }
}

pub assume_specification [u128::pow] (b: u128, e: u32) -> (r: u128)
    requires pow(b as int, e as nat) <= u128::MAX,
    ensures r == pow(b as int, e as nat);

//@item file=crates/tn-reth/src/evm/utils.rs path="const MIN_GAS_LIMIT_THRESHOLD"
//@end
//@item file=crates/tn-reth/src/evm/utils.rs path="const PRECISION"
//@sub? /10_u128 \. pow\( (9) \)/ => 1_000_000_000
//@end
//@item file=crates/tn-reth/src/evm/utils.rs path="const THRESHOLD"
//@sub? /10_u128 \. pow\( (8) \)/ => 100_000_000
//@end
//@item file=crates/tn-reth/src/evm/utils.rs path="const THRESHOLD_SQUARED"
//@sub? /10_u128 \. pow\( (16) \)/ => 10_000_000_000_000_000
//@end

//@fn file=crates/tn-reth/src/evm/utils.rs path="fn calculate_gas_penalty" ret=r
//@spec
    ensures r as nat == spec_penalty(gas_limit as nat, gas_used as nat),
//@head
    proof {
        reveal_with_fuel(pow, 3);
        if gas_limit > 210_000 {
            lemma_penalty(gas_limit as nat, gas_used as nat);
            assert(forall|d: int| #[trigger] pow(d, 2) == d * d) by { reveal_with_fuel(pow, 3); }
            let d = (100_000_000 - ratio(gas_limit as nat, gas_used as nat)) as int;
        }
    }
//@end

// ------------------------------------------------------------------ settlement: shims for the revm types (contracts assumed)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Address { pub id: u64 }
pub const SYSTEM_ADDRESS: Address = Address { id: 0 };
pub struct EvmErr;
#[derive(Clone, Copy)]
pub struct U256 { pub v: u128 }
impl U256 {
    pub fn from(v: u128) -> (r: U256) ensures r.v == v { U256 { v } }
}
pub struct Gas { pub limit: u64, pub remaining: u64, pub refunded: u64 }
impl Gas {
    pub open spec fn wf(self) -> bool { self.remaining <= self.limit }
    pub open spec fn sp_spent(self) -> nat { (self.limit - self.remaining) as nat }
    pub open spec fn sp_used(self) -> nat { if self.sp_spent() >= self.refunded { (self.sp_spent() - self.refunded) as nat } else { 0 } }
    pub fn limit(&self) -> (r: u64) ensures r == self.limit { self.limit }
    pub fn remaining(&self) -> (r: u64) ensures r == self.remaining { self.remaining }
    pub fn spent(&self) -> (r: u64) requires self.wf(), ensures r == self.sp_spent() { self.limit - self.remaining }
    pub fn spent_sub_refunded(&self) -> (r: u64) requires self.wf(), ensures r == self.sp_used() {
        let s = self.limit - self.remaining;
        if s >= self.refunded { s - self.refunded } else { 0 }
    }
}
pub struct FrameResult { pub g: Gas }
impl FrameResult {
    pub fn gas(&self) -> (r: &Gas) ensures *r == self.g { &self.g }
}
pub struct Tx { pub caller: Address, pub gas_limit: u64, pub max_fee: u128 }
impl Tx {
    pub uninterp spec fn sp_price(self, basefee: u128) -> u128;
    pub fn caller(&self) -> (r: Address) ensures r == self.caller { self.caller }
    pub fn gas_limit(&self) -> (r: u64) ensures r == self.gas_limit { self.gas_limit }
    #[verifier::external_body]
    pub fn effective_gas_price(&self, basefee: u128) -> (r: u128) ensures r == self.sp_price(basefee) { unimplemented!() }
}
pub struct Block { pub basefee: u64, pub beneficiary: Address }
impl Block {
    pub fn basefee(&self) -> (r: u64) ensures r == self.basefee { self.basefee }
    pub fn beneficiary(&self) -> (r: Address) ensures r == self.beneficiary { self.beneficiary }
}
pub struct Ctx { pub tx: Tx, pub block: Block, pub bal: Ghost<Map<Address, nat>> }
pub open spec fn add_to(m: Map<Address, nat>, a: Address, v: nat) -> Map<Address, nat> {
    m.insert(a, m[a] + v)
}
impl Ctx {
    pub fn tx(&self) -> (r: &Tx) ensures *r == self.tx { &self.tx }
    pub fn block(&self) -> (r: &Block) ensures *r == self.block { &self.block }
    /// stands for `context.journal_mut().load_account_mut(a)?.incr_balance(v)`
    #[verifier::external_body]
    pub fn credit(&mut self, a: Address, v: U256) -> (r: Result<(), EvmErr>)
        ensures
            final(self).tx == old(self).tx, final(self).block == old(self).block,
            r is Ok ==> final(self).bal@ == add_to(old(self).bal@, a, v.v as nat),
    { unimplemented!() }
}
pub struct Evm { pub c: Ctx }
impl Evm {
    #[verifier::external_body]
    pub fn ctx(&mut self) -> (r: &mut Ctx)
        ensures *r == old(self).c, *final(r) == final(self).c,
    { &mut self.c }
}
pub struct TNEvmHandler { pub basefee_address: Address }

pub open spec fn sat(a: nat, b: nat) -> nat { if a * b <= u128::MAX { a * b } else { u128::MAX as nat } }
pub open spec fn bal_is(new: Map<Address, nat>, old_: Map<Address, nat>, c1: Address, v1: nat, c2: Address, v2: nat) -> bool {
    forall|a: Address| #[trigger] new[a] == old_[a] + (if a == c1 { v1 } else { 0 }) + (if a == c2 { v2 } else { 0 })
}
/// gas returned to the caller: everything not used after refunds, minus the penalty on the pre-refund gas
pub open spec fn refund_gas(limit: nat, g: Gas) -> nat {
    let unused = if limit >= g.sp_used() { (limit - g.sp_used()) as nat } else { 0 };
    let p = spec_penalty(limit, g.sp_spent());
    if unused >= p { (unused - p) as nat } else { 0 }
}

impl TNEvmHandler {
//@fn file=crates/tn-reth/src/evm/handler.rs path="impl Handler for TNEvmHandler :: fn reimburse_caller" ret=r
//@sub /Self::Evm/ => Evm
//@sub /Self::Error/ => EvmErr
//@sub? /context \. journal_mut\(\) \. load_account_mut\((caller|self\.basefee_address|beneficiary)\)\? \. incr_balance\(/ => context.credit(\1,
//@sub? /(context\.credit\([^;]*\));/ => \1?;
//@spec
    requires old(exec_result).g.wf(), old(exec_result).g.limit == old(evm).c.tx.gas_limit,
    ensures
        final(evm).c.tx == old(evm).c.tx, final(evm).c.block == old(evm).c.block,
        old(evm).c.tx.caller == SYSTEM_ADDRESS ==> r is Ok && final(evm).c.bal == old(evm).c.bal,
        old(evm).c.tx.caller != SYSTEM_ADDRESS && r is Ok ==> ({
            let tx = old(evm).c.tx;
            let g = old(exec_result).g;
            let price = tx.sp_price(old(evm).c.block.basefee as u128) as nat;
            bal_is(final(evm).c.bal@, old(evm).c.bal@,
                tx.caller, sat(price, refund_gas(tx.gas_limit as nat, g)),
                self.basefee_address, sat(price, spec_penalty(tx.gas_limit as nat, g.sp_spent())))
        }),
//@head
    proof { assert(forall|x: nat, y: nat| y == 0 ==> #[trigger] sat(x, y) == 0) by (nonlinear_arith); }
//@end
//@fn file=crates/tn-reth/src/evm/handler.rs path="impl Handler for TNEvmHandler :: fn reward_beneficiary" ret=r
//@sub /Self::Evm/ => Evm
//@sub /Self::Error/ => EvmErr
//@sub? /context \. journal_mut\(\) \. load_account_mut\((caller|self\.basefee_address|beneficiary)\)\? \. incr_balance\(/ => context.credit(\1,
//@sub? /(context\.credit\([^;]*\));/ => \1?;
//@spec
    requires old(exec_result).g.wf(), old(exec_result).g.limit == old(evm).c.tx.gas_limit,
    ensures
        final(evm).c.tx == old(evm).c.tx, final(evm).c.block == old(evm).c.block,
        old(evm).c.tx.caller == SYSTEM_ADDRESS ==> r is Ok && final(evm).c.bal == old(evm).c.bal,
        old(evm).c.tx.caller != SYSTEM_ADDRESS && r is Ok ==> ({
            let tx = old(evm).c.tx;
            let blk = old(evm).c.block;
            let g = old(exec_result).g;
            let price = tx.sp_price(blk.basefee as u128) as nat;
            let tip = if price >= blk.basefee { (price - blk.basefee) as nat } else { 0 };
            bal_is(final(evm).c.bal@, old(evm).c.bal@,
                blk.beneficiary, sat(tip, g.sp_used()),
                self.basefee_address, sat(blk.basefee as nat, g.sp_used()))
        }),
//@end
}

/// conservation: everything prepaid for the gas limit is handed out again, nothing more and nothing less
proof fn lemma_conservation(limit: nat, g: Gas, price: nat, basefee: nat)
    requires g.wf(), g.limit == limit, basefee <= price, limit * price <= u128::MAX,
    ensures
        sat(price, refund_gas(limit, g)) + sat(price, spec_penalty(limit, g.sp_spent()))
            + sat((price - basefee) as nat, g.sp_used()) + sat(basefee, g.sp_used()) == limit * price,
        spec_penalty(limit, g.sp_spent()) <= limit - g.sp_used(),
{
    lemma_headline(limit, g.sp_spent());
    let p = spec_penalty(limit, g.sp_spent());
    let u = g.sp_used();
    let rf = refund_gas(limit, g);
    assert(rf + p + u == limit);
    assert(price * rf <= price * limit) by (nonlinear_arith) requires rf <= limit;
    assert(price * p <= price * limit) by (nonlinear_arith) requires p <= limit;
    assert((price - basefee) * u <= price * limit) by (nonlinear_arith) requires u <= limit, 0 <= price - basefee <= price, u >= 0, limit >= 0;
    assert(basefee * u <= price * limit) by (nonlinear_arith) requires u <= limit, basefee <= price;
    assert(price * limit == limit * price) by (nonlinear_arith);
    assert(price * rf + price * p + (price - basefee) * u + basefee * u == limit * price) by (nonlinear_arith) requires rf + p + u == limit;
}
} // verus!
fn main() {}
