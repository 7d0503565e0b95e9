//@py rate_consts
//@fn elusiv/src/bytes.rs in "macro:elusiv/src/bytes.rs:div_ceiling:div_ceiling_u64" div_ceiling_u64
//@ret r
//@spec
    requires divident + divisor <= u64::MAX
    ensures divisor != 0, r == ceil_div(divident as int, divisor as int)
//@top
    proof {
        if divisor != 0 { lemma_ceil(divident as int, divisor as int); }
    }
//@end
pub open spec fn ceil_div(a: int, b: int) -> int { if a % b == 0 { a / b } else { a / b + 1 } }
proof fn lemma_ceil(a: int, b: int) requires a >= 0, b > 0 ensures (a + b - 1) / b == ceil_div(a, b)
{
    lemma_fundamental_div_mod(a, b);
    let q = a / b; let m = a % b;
    assert(0 <= m < b) by { lemma_mod_bound(a, b); }
    assert(b * q == q * b) by(nonlinear_arith);
    assert((q + 1) * b == q * b + b) by(nonlinear_arith);
    if m == 0 { lemma_fundamental_div_mod_converse(a + b - 1, b, q, b - 1); }
    else { lemma_fundamental_div_mod_converse(a + b - 1, b, q + 1, m - 1); }
}
//@fn elusiv/src/bytes.rs in "macro:elusiv/src/bytes.rs:safe_num_downcast:u64_as_u32_safe" u64_as_u32_safe
//@ret r
//@spec
    ensures r == u
//@end
//@fn elusiv/src/bytes.rs u64_as_usize_safe
//@ret r
//@spec
    ensures r == u
//@end

//@note commitment_hash_computation_instructions: the generated schedules are uninterpreted, with between 1 and 65535 instructions for each supported rate (proved of the tables in unit tables)
pub uninterp spec fn ix_count(rate: int) -> int;
#[verifier::external_body]
pub struct Schedule { x: u8 }
impl Schedule { pub uninterp spec fn n(&self) -> int; #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.n() { unimplemented!() } }
#[verifier::external_body]
pub fn commitment_hash_computation_instructions(batching_rate: u32) -> (r: Schedule) ensures batching_rate <= MAX_COMMITMENT_BATCHING_RATE, r.n() == ix_count(batching_rate as int), 0 < r.n() < 65536 { unimplemented!() }
//@include pow.inc.rs
//@fn elusiv/src/commitment/mod.rs commitments_per_batch
//@rw two_pow!\( => two_pow_fn(
//@ret r
//@spec
    ensures r == pow2(batching_rate as nat)
//@end
pub fn any_above<const N: usize>(a: &[u64; N], l: u64) -> (r: bool) ensures r == (exists|i: int| 0 <= i < N && a[i] > l) {
    let mut i = 0;
    while i < N invariant 0 <= i <= N, forall|j: int| 0 <= j < i ==> a[j] <= l decreases N - i { if a[i] > l { return true; } i = i + 1; }
    false
}
//@item elusiv/src/state/fee.rs "struct BasisPointFee"
//@item elusiv/src/state/fee.rs "struct ProgramFee"
impl BasisPointFee {
//@fn elusiv/src/state/fee.rs in "impl BasisPointFee" calc
//@props F01
//@ret r
//@spec
    requires self.0 <= 10_000
    ensures r == self.0 * amount / 10_000
//@top
    proof {
        assert(self.0 * amount <= 10_000 * amount) by(nonlinear_arith) requires self.0 <= 10_000;
        assert(0 <= self.0 * amount) by(nonlinear_arith);
        assert(self.0 as int * amount as int == (self.0 as u128 * amount as u128) as int) by(nonlinear_arith) requires self.0 * amount <= 10_000 * amount;
        assert(0 <= self.0 * amount / 10_000 <= amount) by(nonlinear_arith) requires 0 <= self.0 * amount <= 10_000 * amount;
    }
//@end
}
// the specification, over the integers
pub open spec fn comp(f: ProgramFee) -> int { f.lamports_per_tx.0 + f.warden_hash_tx_reward.0 }
pub open spec fn base_fee(f: ProgramFee) -> int { BASE_TX * comp(f) + f.lamports_per_tx.0 }
pub open spec fn commitment_fee(f: ProgramFee, rate: int) -> int { ceil_div(ix_count(rate) * comp(f), pow2(rate as nat) as int) }
pub open spec fn proof_fee(f: ProgramFee, n: int) -> int { (n + f.proof_base_tx_count) * f.lamports_per_tx.0 + f.warden_proof_reward.0 }
pub open spec fn bounded(f: ProgramFee) -> bool {
    f.base_commitment_network_fee.0 <= 10_000 && f.proof_network_fee.0 <= 10_000
    && f.lamports_per_tx.0 <= u32::MAX && f.warden_hash_tx_reward.0 <= u32::MAX && f.warden_proof_reward.0 <= u32::MAX && f.proof_base_tx_count == MILLER_TX + FINAL_TX + 2
}
pub open spec fn subsidy_ok(f: ProgramFee, rate: int) -> bool {
    f.base_commitment_subvention.0 <= commitment_fee(f, rate)
    && f.proof_subvention.0 <= f.proof_base_tx_count * f.lamports_per_tx.0 + commitment_fee(f, rate)
    && f.proof_base_tx_count == MILLER_TX + FINAL_TX + 2
}
pub open spec fn accepted(f: ProgramFee) -> bool {
    bounded(f) && forall|rate: int| 0 <= rate <= MAX_COMMITMENT_BATCHING_RATE ==> subsidy_ok(f, rate)
}
proof fn lemma_fee_bounds(f: ProgramFee, rate: int)
    requires bounded(f), 0 < ix_count(rate) < 65536, 0 <= rate <= 4
    ensures 0 <= ix_count(rate) * comp(f) <= 0x2_0000_0000_0000, 0 < pow2(rate as nat) <= 16, 0 <= commitment_fee(f, rate) <= 0x2_0000_0000_0000 + 1
{
    lemma2_to64();
    let x = ix_count(rate) * comp(f); let d = pow2(rate as nat) as int;
    assert(0 <= x <= 0x2_0000_0000_0000) by(nonlinear_arith) requires x == ix_count(rate) * comp(f), 0 < ix_count(rate) < 65536, 0 <= comp(f) <= 2 * 0xffff_ffff;
    assert(0 < d <= 16) by { if rate == 0 {} else if rate == 1 {} else if rate == 2 {} else if rate == 3 {} else {} }
    assert(0 <= x / d <= x) by(nonlinear_arith) requires x >= 0, d >= 1;
}
//@note an operation prepares fewer than 2^16 public input steps (the schedule of a registered circuit)
impl ProgramFee {
//@fn elusiv/src/state/fee.rs in "impl ProgramFee" proof_base_tx_count
//@props F02
//@ret r
//@spec
    ensures r == MILLER_TX + FINAL_TX + 2
//@end
//@fn elusiv/src/state/fee.rs in "impl ProgramFee" is_valid
//@props F02
//@desugar 1
//@rw (\[[^\[\]]*\])\s*\.iter\(\)\s*\.any\(\|(\w+)\| \*\2 > u32::MAX as u64\) => any_above(&\1, u32::MAX as u64)
//@ret r
//@spec
    ensures r ==> accepted(*self), !r ==> !accepted(*self)
//@loop 1
    invariant
        bounded(*self), min_batching_rate_end == MAX_COMMITMENT_BATCHING_RATE, min_batching_rate_next <= MAX_COMMITMENT_BATCHING_RATE + 1,
        forall|rate: int| 0 <= rate < min_batching_rate_next ==> subsidy_ok(*self, rate),
    decreases MAX_COMMITMENT_BATCHING_RATE + 1 - min_batching_rate_next
//@looptop 1
    proof {
        assert(0 <= self.proof_base_tx_count * self.lamports_per_tx.0 <= 0xffff * 0xffff_ffff) by(nonlinear_arith)
            requires self.proof_base_tx_count <= 0xffff, self.lamports_per_tx.0 <= 0xffff_ffff;
    }
    let ghost rate = min_batching_rate as int;
    assert(accepted(*self) ==> subsidy_ok(*self, rate));
//@end
//@fn elusiv/src/state/fee.rs in "impl ProgramFee" new
//@props F02
//@ret r
//@spec
    ensures r is Some ==> accepted(r->Some_0)
//@end
//@fn elusiv/src/state/fee.rs in "impl ProgramFee" hash_tx_compensation
//@props F01
//@ret r
//@spec
    requires bounded(*self)
    ensures r.0 == comp(*self)
//@end
//@fn elusiv/src/state/fee.rs in "impl ProgramFee" base_commitment_hash_computation_fee
//@props F01
//@ret r
//@spec
    requires bounded(*self)
    ensures r.0 == base_fee(*self)
//@end
//@fn elusiv/src/state/fee.rs in "impl ProgramFee" commitment_hash_computation_fee
//@props F01
//@ret r
//@spec
    requires bounded(*self)
    ensures r.0 == commitment_fee(*self, min_batching_rate as int), 0 <= r.0 <= 0x2_0000_0000_0000 + 1, min_batching_rate <= MAX_COMMITMENT_BATCHING_RATE
//@after let commitments_per_batch = [^;]*;
    proof { lemma_fee_bounds(*self, min_batching_rate as int); }
//@end
//@fn elusiv/src/state/fee.rs in "impl ProgramFee" proof_verification_computation_fee
//@props F01
//@ret r
//@spec
    requires accepted(*self), input_preparation_tx_count < 0x1_0000
    ensures r.0 == proof_fee(*self, input_preparation_tx_count as int)
//@top
    proof {
        assert(subsidy_ok(*self, 0));
        let n = input_preparation_tx_count + self.proof_base_tx_count;
        assert(0 <= n * self.lamports_per_tx.0 <= 0x2_0000 * 0xffff_ffff) by(nonlinear_arith) requires 0 <= n <= 0x2_0000, 0 <= self.lamports_per_tx.0 <= 0xffff_ffff;
    }
//@end
//@fn elusiv/src/state/fee.rs in "impl ProgramFee" proof_verification_fee
//@props F01
//@ret r
//@spec
    requires accepted(*self), input_preparation_tx_count < 0x1_0000
    ensures r is Ok ==> r->Ok_0.wf() && ({
        let id = token_id as int;
        let a = convert(price, proof_fee(*self, input_preparation_tx_count as int), id);
        let b = convert(price, commitment_fee(*self, min_batching_rate as int), id);
        let s = convert(price, self.proof_subvention.0 as int, id);
        &&& token_id == price.token_id
        &&& a is Some && b is Some && s is Some
        &&& r->Ok_0 == tok(id, a->Some_0.am_s() + b->Some_0.am_s() + self.proof_network_fee.0 * amount / 10_000 - s->Some_0.am_s())
        &&& 0 <= a->Some_0.am_s() + b->Some_0.am_s() + self.proof_network_fee.0 * amount / 10_000 - s->Some_0.am_s() <= u64::MAX
    })
//@end
}
