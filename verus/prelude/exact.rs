// Exact arithmetic: machine arithmetic treated as mathematical, for the numeric ranges only. Satisfied
// by F = the reals and one NaN.
pub broadcast axiom fn ex_lit(r: real) ensures key(#[trigger] flit(r)) == r, !nan(flit(r));
pub broadcast axiom fn ex_int(i: int) ensures key(#[trigger] fint(i)) == i as real, !nan(fint(i));
pub broadcast axiom fn ex_add(a: F, b: F) requires !nan(a), !nan(b) ensures key(#[trigger] fadd(a, b)) == key(a) + key(b), !nan(fadd(a, b));
pub broadcast axiom fn ex_sub(a: F, b: F) requires !nan(a), !nan(b) ensures key(#[trigger] fsub(a, b)) == key(a) - key(b), !nan(fsub(a, b));
pub broadcast axiom fn ex_mul(a: F, b: F) requires !nan(a), !nan(b) ensures key(#[trigger] fmul(a, b)) == key(a) * key(b), !nan(fmul(a, b));
pub broadcast axiom fn ex_div(a: F, b: F) requires !nan(a), !nan(b), key(b) != 0real ensures key(#[trigger] fdiv(a, b)) == key(a) / key(b), !nan(fdiv(a, b));
pub broadcast axiom fn ex_abs(a: F) requires !nan(a) ensures key(#[trigger] fabs(a)) == (if key(a) < 0real { -key(a) } else { key(a) }), !nan(fabs(a));
pub broadcast axiom fn ex_sqrt(a: F) requires !nan(a), key(a) >= 0real ensures key(#[trigger] fsqrt(a)) >= 0real, key(fsqrt(a)) * key(fsqrt(a)) == key(a), !nan(fsqrt(a));
pub broadcast axiom fn ex_powi2(a: F) requires !nan(a) ensures key(#[trigger] fpowi(a, 2)) == key(a) * key(a), !nan(fpowi(a, 2));
/// the logarithm is strictly increasing on positive numbers
pub broadcast axiom fn ex_ln(a: F) requires !nan(a), key(a) > 0real ensures !nan(#[trigger] fln(a));
pub axiom fn ex_ln_mono(a: F, b: F) requires !nan(a), !nan(b), 0real < key(a) < key(b) ensures key(fln(a)) < key(fln(b));
pub axiom fn ex_ln_key(a: F, b: F) requires !nan(a), !nan(b), 0real < key(a), key(a) == key(b) ensures key(fln(a)) == key(fln(b));
pub broadcast axiom fn ex_sum_start() ensures key(#[trigger] fsum_start()) == 0real, !nan(fsum_start());
pub broadcast group exact { ex_lit, ex_int, ex_add, ex_sub, ex_mul, ex_div, ex_abs, ex_sqrt, ex_powi2, ex_ln, ex_sum_start }
pub open spec fn num(w: Seq<F>) -> bool { forall|i: int| 0 <= i < w.len() ==> !nan(#[trigger] w[i]) }
pub open spec fn rsum(w: Seq<F>) -> real decreases w.len() { if w.len() == 0 { 0real } else { rsum(w.drop_last()) + key(w.last()) } }
pub proof fn lemma_fsum(w: Seq<F>)
    requires num(w),
    ensures !nan(fsum(w)), key(fsum(w)) == rsum(w),
    decreases w.len()
{
    broadcast use exact;
    if w.len() > 0 { assert(num(w.drop_last())) by { assert forall|i: int| 0 <= i < w.len() - 1 implies !nan(#[trigger] w.drop_last()[i]) by { assert(!nan(w[i])); } } lemma_fsum(w.drop_last()); }
}
pub proof fn lemma_rsum_ext(v: Seq<F>, w: Seq<F>, a: real)
    requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> key(#[trigger] v[i]) == a * key(w[i]),
    ensures rsum(v) == a * rsum(w),
    decreases v.len()
{
    if v.len() > 0 {
        let (v1, w1) = (v.drop_last(), w.drop_last());
        assert forall|i: int| 0 <= i < v1.len() implies key(#[trigger] v1[i]) == a * key(w1[i]) by { assert(v1[i] == v[i]); }
        lemma_rsum_ext(v1, w1, a);
        let (x, y) = (rsum(w1), key(w.last()));
        assert(key(v[v.len() - 1]) == a * key(w[v.len() - 1]));
        assert(a * x + a * y == a * (x + y)) by(nonlinear_arith);
    } else {
        assert(a * 0real == 0real) by(nonlinear_arith);
    }
}
/// signs of sums
pub proof fn lemma_rsum_sign(w: Seq<F>)
    ensures (forall|i: int| 0 <= i < w.len() ==> key(#[trigger] w[i]) > 0real) ==> rsum(w) >= 0real && (w.len() > 0 ==> rsum(w) > 0real),
        (forall|i: int| 0 <= i < w.len() ==> key(#[trigger] w[i]) < 0real) ==> rsum(w) <= 0real && (w.len() > 0 ==> rsum(w) < 0real),
    decreases w.len()
{
    if w.len() > 0 {
        lemma_rsum_sign(w.drop_last());
        assert(w.last() == w[w.len() - 1]);
        assert forall|i: int| 0 <= i < w.len() - 1 implies #[trigger] w.drop_last()[i] == w[i] by {}
    }
}
pub proof fn lemma_cauchy(w: Seq<F>)
    requires num(w), forall|i: int| 0 <= i < w.len() ==> key(#[trigger] w[i]) > 0real,
    ensures
        rsum(w) * rsum(w) <= w.len() as real * rsum(squares(w)),
        rsum(w) * rsum(w) >= rsum(squares(w)), w.len() >= 2 ==> rsum(w) * rsum(w) > rsum(squares(w)),
        num(squares(w)), rsum(squares(w)) >= 0real, w.len() > 0 ==> rsum(squares(w)) > 0real,
    decreases w.len()
{
    broadcast use exact;
    assert forall|i: int| 0 <= i < w.len() implies !nan(#[trigger] squares(w)[i]) by { assert(!nan(w[i])); }
    if w.len() > 0 {
        let v = w.drop_last();
        assert(num(v)) by { assert forall|i: int| 0 <= i < v.len() implies !nan(#[trigger] v[i]) by { assert(!nan(w[i])); } }
        assert forall|i: int| 0 <= i < v.len() implies key(#[trigger] v[i]) > 0real by { assert(key(w[i]) > 0real); }
        lemma_cauchy(v);
        assert(squares(w).drop_last() =~= squares(v));
        lemma_rsum_sign(v);
        let (s, q, x, k) = (rsum(v), rsum(squares(v)), key(w.last()), v.len() as real);
        assert(w.last() == w[w.len() - 1]);
        assert(squares(w).last() == fpowi(w.last(), 2));
        assert(x > 0real);
        assert(rsum(w) == s + x && rsum(squares(w)) == q + x * x);
        assert(w.len() as real == k + 1real);
        assert(x * x > 0real) by(nonlinear_arith) requires x > 0real;
        assert(s * x >= 0real) by(nonlinear_arith) requires x > 0real, s >= 0real;
        assert((s + x) * (s + x) == s * s + 2real * (s * x) + x * x) by(nonlinear_arith);
        if v.len() >= 1 { assert(s * x > 0real) by(nonlinear_arith) requires x > 0real, s > 0real; }
        if v.len() == 0 {
            assert(s == 0real && q == 0real && k == 0real);
            assert((s + x) * (s + x) <= (k + 1real) * (q + x * x)) by(nonlinear_arith) requires s == 0real, q == 0real, k == 0real;
        } else {
            assert((s - k * x) * (s - k * x) >= 0real) by(nonlinear_arith);
            assert(2real * s * x * k <= s * s + k * k * x * x) by(nonlinear_arith) requires (s - k * x) * (s - k * x) >= 0real;
            assert(2real * s * x * k <= k * (q + k * x * x)) by(nonlinear_arith) requires 2real * s * x * k <= s * s + k * k * x * x, s * s <= k * q;
            assert(2real * s * x <= q + k * x * x) by(nonlinear_arith) requires 2real * s * x * k <= k * (q + k * x * x), k > 0real;
            assert((s + x) * (s + x) <= (k + 1real) * (q + x * x)) by(nonlinear_arith) requires 2real * s * x <= q + k * x * x, s * s <= k * q;
        }
    }
}
/// a filter that keeps exactly the first `m` elements, or exactly those from `m` on
pub proof fn lemma_filter_prefix(w: Seq<F>, p: spec_fn(F) -> bool, m: int)
    requires 0 <= m <= w.len(), forall|i: int| 0 <= i < w.len() ==> p(#[trigger] w[i]) == (i < m),
    ensures w.filter(p) =~= w.take(m),
    decreases w.len()
{
    reveal(Seq::filter);
    if w.len() > 0 {
        let v = w.drop_last();
        let k = if m <= v.len() { m } else { v.len() as int };
        assert forall|i: int| 0 <= i < v.len() implies p(#[trigger] v[i]) == (i < k) by { assert(p(w[i]) == (i < m)); }
        lemma_filter_prefix(v, p, k);
        assert(p(w[w.len() - 1]) == (w.len() - 1 < m));
        assert(v.take(k) =~= w.take(k));
        if m == w.len() { assert(w.take(m) =~= v.push(w.last())); assert(v.take(k) =~= v); }
    }
}
pub proof fn lemma_div(x: real, y: real)
    requires y > 0real,
    ensures (x / y) * y == x, x > 0real ==> x / y > 0real, x >= 0real ==> x / y >= 0real, x < y ==> x / y < 1real, x <= y ==> x / y <= 1real, x >= y ==> x / y >= 1real, x > y ==> x / y > 1real,
        x <= 0real ==> x / y <= 0real, x < 0real ==> x / y < 0real,
{
    let q = x / y;
    assert(q * y == x) by(nonlinear_arith) requires q == x / y, y > 0real;
    if x > 0real { assert(q > 0real) by(nonlinear_arith) requires q * y == x, x > 0real, y > 0real; }
    if x >= 0real { assert(q >= 0real) by(nonlinear_arith) requires q * y == x, x >= 0real, y > 0real; }
    if x < y { assert(q < 1real) by(nonlinear_arith) requires q * y == x, x < y, y > 0real; }
    if x <= y { assert(q <= 1real) by(nonlinear_arith) requires q * y == x, x <= y, y > 0real; }
    if x >= y { assert(q >= 1real) by(nonlinear_arith) requires q * y == x, x >= y, y > 0real; }
    if x > y { assert(q > 1real) by(nonlinear_arith) requires q * y == x, x > y, y > 0real; }
    if x <= 0real { assert(q <= 0real) by(nonlinear_arith) requires q * y == x, x <= 0real, y > 0real; }
    if x < 0real { assert(q < 0real) by(nonlinear_arith) requires q * y == x, x < 0real, y > 0real; }
}
pub proof fn lemma_filter_suffix(w: Seq<F>, p: spec_fn(F) -> bool, m: int)
    requires 0 <= m <= w.len(), forall|i: int| 0 <= i < w.len() ==> p(#[trigger] w[i]) == (i >= m),
    ensures w.filter(p) =~= w.skip(m),
    decreases w.len()
{
    reveal(Seq::filter);
    if w.len() > 0 {
        let v = w.drop_last();
        let k = if m <= v.len() { m } else { v.len() as int };
        assert forall|i: int| 0 <= i < v.len() implies p(#[trigger] v[i]) == (i >= k) by { assert(p(w[i]) == (i >= m)); }
        lemma_filter_suffix(v, p, k);
        assert(p(w[w.len() - 1]) == (w.len() - 1 >= m));
        if m < w.len() { assert(w.skip(m) =~= v.skip(k).push(w.last())); } else { assert(v.skip(k) =~= w.skip(m)); }
    }
}
pub proof fn lemma_rsum_first(w: Seq<F>)
    requires w.len() > 0,
    ensures rsum(w) == key(w[0]) + rsum(w.skip(1)),
    decreases w.len()
{
    if w.len() > 1 {
        let v = w.drop_last();
        lemma_rsum_first(v);
        assert(w.skip(1).drop_last() =~= v.skip(1));
        assert(w.skip(1).last() == w.last());
        assert(v[0] == w[0]);
        assert(rsum(w) == rsum(v) + key(w.last()));
        assert(rsum(w.skip(1)) == rsum(v.skip(1)) + key(w.last()));
    } else {
        assert(rsum(w.skip(1)) == 0real && rsum(w.drop_last()) == 0real);
        assert(w.last() == w[0]);
    }
}
pub proof fn lemma_squares(w: Seq<F>)
    requires num(w),
    ensures num(squares(w)), rsum(squares(w)) >= 0real, w.len() > 0 && key(w.last()) != 0real ==> rsum(squares(w)) > 0real,
    decreases w.len()
{
    broadcast use exact;
    assert forall|i: int| 0 <= i < w.len() implies !nan(#[trigger] squares(w)[i]) by { assert(!nan(w[i])); }
    if w.len() > 0 {
        let v = w.drop_last();
        assert(num(v)) by { assert forall|i: int| 0 <= i < v.len() implies !nan(#[trigger] v[i]) by { assert(!nan(w[i])); } }
        lemma_squares(v);
        assert(squares(w).drop_last() =~= squares(v));
        assert(!nan(w[w.len() - 1]));
        let x = key(w.last());
        assert(squares(w).last() == fpowi(w.last(), 2));
        assert(x * x >= 0real) by(nonlinear_arith);
        if x != 0real { assert(x * x > 0real) by(nonlinear_arith) requires x != 0real; }
    }
}
pub proof fn lemma_eff_mass(w: Seq<F>)
    requires num(w), w.len() > 0, key(w.last()) != 0real,
    ensures !nan(eff_mass(w)), key(eff_mass(w)) >= 0real,
{
    broadcast use exact;
    lemma_squares(w); lemma_fsum(w); lemma_fsum(squares(w));
    let s = rsum(w);
    assert(s * s >= 0real) by(nonlinear_arith);
    lemma_div(s * s, rsum(squares(w)));
}
