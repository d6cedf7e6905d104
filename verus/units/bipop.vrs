//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/sort.rs
//@include prelude/state.rs
//@include prelude/eigen.rs
//@include prelude/history.rs
//@include prelude/history_get.rs
//@include prelude/time.rs
//@include prelude/params.rs
//@include prelude/constraints.rs
//@include prelude/options.rs
//@include prelude/weights.rs
//@include prelude/update.rs
//@include prelude/generation.rs
//@include prelude/termination.rs
//@include prelude/plot.rs
//@include prelude/cmaes.rs
//@include prelude/defaults.rs
//@include prelude/unwrap.rs
//@include prelude/restart.rs
//@include prelude/exact.rs
pub broadcast axiom fn ex_neg(a: F) requires !nan(a) ensures key(#[trigger] fneg(a)) == -key(a), !nan(fneg(a));
/// the bounds of a power
pub broadcast axiom fn ex_powf(a: F, b: F) requires !nan(a), !nan(b), key(a) >= 0real, 0real <= key(b) <= 1real ensures !nan(#[trigger] fpowf(a, b)), key(fpowf(a, b)) >= 0real, key(a) >= 1real ==> 1real <= key(fpowf(a, b)) <= key(a), key(a) <= 1real ==> key(fpowf(a, b)) <= 1real;
pub broadcast axiom fn ex_pow10(b: F) requires !nan(b), -2real <= key(b) <= 0real ensures !nan(#[trigger] fpowf(flit(10real), b)), 1real / 100real <= key(fpowf(flit(10real), b)) <= 1real;
/// `floor() as usize`
pub broadcast axiom fn ex_floor(a: F) requires !nan(a), 0real <= key(a) < 18446744073709551616real ensures f_to_int(#[trigger] ffloor(a)) as real <= key(a) < f_to_int(ffloor(a)) as real + 1real;
pub broadcast proof fn lemma_part(a: F, b: F) requires !nan(a), !nan(b), key(a) >= 0real ensures #![trigger fmul(a, b)] 1real / 100real <= key(b) <= 1real ==> key(a) / 100real <= key(fmul(a, b)) <= key(a), key(b) >= 0real ==> key(fmul(a, b)) >= 0real
{
    broadcast use exact;
    let (x, y) = (key(a), key(b));
    if 1real / 100real <= y <= 1real { assert(x * y <= x) by (nonlinear_arith) requires y <= 1real, x >= 0real; assert(x / 100real <= x * y) by (nonlinear_arith) requires y >= 1real / 100real, x >= 0real; }
    if y >= 0real { assert(x * y >= 0real) by (nonlinear_arith) requires y >= 0real, x >= 0real; }
}
proof fn lemma_times(n: int, m: int, y: real)
    requires n >= 0, m >= 0, n * m <= usize::MAX, n <= usize::MAX, 1real <= y, y <= 1real || 2real * y <= m as real,
    ensures n as real <= n as real * y, y * n as real == n as real * y, n as real * y < 18446744073709551616real, n as real * y <= n as real || 2real * (n as real * y) <= (n * m) as real,
{
    let x = n as real;
    assert(y * x == x * y) by (nonlinear_arith);
    assert(x <= x * y) by (nonlinear_arith) requires y >= 1real, x >= 0real;
    if y <= 1real { assert(x * y <= x) by (nonlinear_arith) requires y <= 1real, x >= 0real; }
    else {
        let z = m as real;
        assert(2real * (x * y) <= x * z) by (nonlinear_arith) requires 2real * y <= z, x >= 0real;
        assert((n * m) as real == x * z) by (nonlinear_arith) requires x == n as real, z == m as real;
    }
}
impl BIPOP {
//@fn src/restart/bipop.rs "impl BIPOP" get_initial_step_size_lr
//@ops
//@start| broadcast use exact, ex_neg, ex_pow10, lemma_part;
//@| ensures self.lr_step_size(search_range_size, r), /*C15*/
//@|   r == self.lr_step_drawn(search_range_size, old(rng).state()), final(rng).state() == unit_left(old(rng).state()), /*C00*/
//@end
//@fn src/restart/bipop.rs "impl BIPOP" get_population_size_lr
//@ops
//@start| broadcast use exact, ex_powf, ex_floor;
//@start| proof { assert forall|u: F| !nan(u) && 0real <= key(u) < 1real implies 0real <= key(#[trigger] fpowi(u, 2)) <= 1real by { let x = key(u); assert(0real <= x * x <= 1real) by (nonlinear_arith) requires 0real <= x < 1real; } }
//@start| proof { let (n, m) = (default_population_size as int, self.last_ipop_multiplier as int);
//@start|     assert forall|b: F| !nan(b) && 1real <= key(b) && (key(b) <= 1real || 2real * key(b) <= m as real) implies n as real <= key(#[trigger] fmul(fint(n), b)) && key(fmul(fint(n), b)) < 18446744073709551616real && (key(fmul(fint(n), b)) <= n as real || 2real * key(fmul(fint(n), b)) <= (n * m) as real) by { lemma_times(n, m, key(b)); };
//@start|     assert forall|b: F| !nan(b) && 1real <= key(b) && (key(b) <= 1real || 2real * key(b) <= m as real) implies n as real <= key(#[trigger] fmul(b, fint(n))) && key(fmul(b, fint(n))) < 18446744073709551616real && (key(fmul(b, fint(n))) <= n as real || 2real * key(fmul(b, fint(n))) <= (n * m) as real) by { lemma_times(n, m, key(b)); }; }
//@| requires default_population_size * self.last_ipop_multiplier <= usize::MAX,
//@| ensures self.lr_population(default_population_size as int, r as int), /*C15*/
//@|   r == self.lr_population_drawn(default_population_size as int, old(rng).state()), final(rng).state() == unit_left(old(rng).state()), /*C00*/
//@end
}
} // verus!
fn main() {}
