//@const elusiv/src/proof/verifier.rs PREPARE_PUBLIC_INPUTS_ROUNDS
//@const elusiv/src/proof/verifier.rs ADD_MIXED_COST
//@const elusiv/src/proof/verifier.rs ADD_COST
//@const elusiv/src/proof/verifier.rs MAX_CUS
/// cost of round b of an input (the last round adds the input's share unless it is zero)
pub open spec fn cost(x: U256, b: int) -> int { if b == 32 { if x == zero32_s() { 0 } else { ADD_COST as int } } else if x[b] == 0 { 0 } else { ADD_MIXED_COST as int } }
pub open spec fn rcost(v: Seq<U256>, r: int) -> int { cost(v[r / 33], r % 33) }
/// cost of the rounds a..b
pub open spec fn csum(v: Seq<U256>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { csum(v, a, b - 1) + rcost(v, b - 1) } }
/// first round of step k
pub open spec fn start(s: Seq<u32>, k: int) -> int decreases k { if k <= 0 { 0 } else { start(s, k - 1) + s[k - 1] } }
pub open spec fn step_cost(v: Seq<U256>, s: Seq<u32>, k: int) -> int { csum(v, start(s, k), start(s, k + 1)) }
/// the steps cover every round of every input exactly once and none exceeds the budget
pub open spec fn schedule_of(v: Seq<U256>, s: Seq<u32>) -> bool { start(s, s.len() as int) == 33 * v.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] step_cost(v, s, k) <= MAX_CUS }
pub proof fn lemma_start_push(s: Seq<u32>, x: u32, k: int) requires 0 <= k <= s.len() ensures start(s.push(x), k) == start(s, k) decreases k { if k > 0 { lemma_start_push(s, x, k - 1); } }
pub proof fn lemma_csum(v: Seq<U256>, a: int, m: int, b: int) requires a <= m <= b ensures csum(v, a, b) == csum(v, a, m) + csum(v, m, b) decreases b - m { if m < b { lemma_csum(v, a, m, b - 1); } }
pub proof fn lemma_round(i: int, b: int) requires 0 <= i, 0 <= b < 33 ensures (33 * i + b) / 33 == i, (33 * i + b) % 33 == b
{ lemma_fundamental_div_mod_converse(33 * i + b, 33, i, b); }
/// a new step
pub proof fn lemma_push(v: Seq<U256>, s: Seq<u32>, x: u32, t: int)
    requires start(s, s.len() as int) + x == t, csum(v, start(s, s.len() as int), t) <= MAX_CUS, forall|k: int| 0 <= k < s.len() ==> #[trigger] step_cost(v, s, k) <= MAX_CUS
    ensures start(s.push(x), s.len() as int + 1) == t, forall|k: int| 0 <= k < s.len() + 1 ==> #[trigger] step_cost(v, s.push(x), k) <= MAX_CUS
{
    let p = s.push(x);
    assert forall|k: int| 0 <= k < s.len() + 1 implies #[trigger] step_cost(v, p, k) <= MAX_CUS by {
        lemma_start_push(s, x, k);
        if k < s.len() { lemma_start_push(s, x, k + 1); assert(step_cost(v, s, k) <= MAX_CUS); } else { assert(start(p, k + 1) == start(p, k) + x); }
    }
    lemma_start_push(s, x, s.len() as int);
}
//@fn elusiv/src/proof/verifier.rs prepare_public_inputs_rounds
//@props V13
//@ret r
//@spec
    requires public_inputs_count <= 0x1_0000
    ensures r == 33 * public_inputs_count
//@end
//@fn elusiv/src/proof/verifier.rs prepare_public_inputs_instructions
//@props V13
//@rw \[0; 32\] => zero32()
//@desugar 1
//@desugar 2
//@ret r
//@spec
    requires public_inputs_count <= MAX_PUBLIC_INPUTS_COUNT
    ensures public_inputs@.len() == public_inputs_count, schedule_of(public_inputs@, r@), r@.len() <= 8, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] <= 462
//@beforeloop 1
    let ghost v = public_inputs@;
    let ghost mut t: int = 0;
//@loop 1
    invariant it1@ == v, v == public_inputs@, it1_i_next <= v.len(), v.len() == public_inputs_count, public_inputs_count <= 14, t == 33 * it1_i_next, total_rounds == t, rounds <= t,
        start(instructions@, instructions@.len() as int) + rounds == t, compute_units == csum(v, start(instructions@, instructions@.len() as int), t), compute_units <= MAX_CUS, forall|k: int| 0 <= k < instructions@.len() ==> #[trigger] instructions@[k] <= 462,
        forall|k: int| 0 <= k < instructions@.len() ==> #[trigger] step_cost(v, instructions@, k) <= MAX_CUS,
        1301 * (instructions@.len() as int) + (compute_units as int) <= csum(v, 0, t), csum(v, 0, t) <= 734 * it1_i_next
    decreases v.len() - it1_i_next
//@loop 2
    invariant it1@ == v, v == public_inputs@, it1_i_next <= v.len(), v.len() == public_inputs_count, public_inputs_count <= 14, it1_i_next == it1_i + 1, public_input == v[it1_i as int], b_next <= b_end, b_end == 33, t == 33 * it1_i + b_next, total_rounds == t, rounds <= t,
        start(instructions@, instructions@.len() as int) + rounds == t, compute_units == csum(v, start(instructions@, instructions@.len() as int), t), compute_units <= MAX_CUS, forall|k: int| 0 <= k < instructions@.len() ==> #[trigger] instructions@[k] <= 462,
        forall|k: int| 0 <= k < instructions@.len() ==> #[trigger] step_cost(v, instructions@, k) <= MAX_CUS,
        1301 * (instructions@.len() as int) + (compute_units as int) <= csum(v, 0, t), csum(v, 0, t) <= 734 * it1_i + (if b_next <= 32 { 22 * b_next } else { 734 })
    decreases b_end - b_next
//@looptop 2
    proof { lemma_round(it1_i as int, b as int); assert(rcost(v, t) == cost(v[it1_i as int], b as int)); reveal_with_fuel(csum, 2); }
    let ghost s0 = instructions@;
//@before instructions\.push\(rounds\);\s*rounds = 1
    proof { lemma_push(v, s0, rounds, t); assert(csum(v, t, t + 1) == rcost(v, t)); }
//@before total_rounds \+= 1
    proof { t = t + 1; }
//@before if rounds > 0
    let ghost s1 = instructions@;
    proof { if rounds > 0 { lemma_push(v, s1, rounds, t); } }
//@end
