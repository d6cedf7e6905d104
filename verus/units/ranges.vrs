//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/mode.rs
//@include prelude/time.rs
//@include prelude/params.rs
//@include prelude/constraints.rs
//@include prelude/options.rs
//@include prelude/weights.rs
//@include prelude/exact.rs
// Consequences of `Parameters::defined` (proved of the code in unit params)
pub open spec fn pos(x: F) -> bool { !nan(x) && key(x) > 0real }
pub proof fn lemma_raw(lambda: int, i: int)
    requires lambda >= 2, 1 <= i <= lambda,
    ensures !nan(raw_weight(lambda, i)), 2 * i < lambda + 1 ==> key(raw_weight(lambda, i)) > 0real, 2 * i == lambda + 1 ==> key(raw_weight(lambda, i)) == 0real,
        2 * i > lambda + 1 ==> key(raw_weight(lambda, i)) < 0real,
{
    broadcast use exact;
    let m = fdiv(fadd(fint(lambda), flit(1real)), flit(2real));
    assert(!nan(m) && key(m) == (lambda as real + 1real) / 2real);
    let x = key(m);
    assert(x * 2real == lambda as real + 1real) by(nonlinear_arith) requires x == (lambda as real + 1real) / 2real;
    assert(i as real >= 1real);
    if 2 * i < lambda + 1 { ex_ln_mono(fint(i), m); }
    if 2 * i > lambda + 1 { ex_ln_mono(m, fint(i)); }
    if 2 * i == lambda + 1 { ex_ln_key(m, fint(i)); }
}
pub proof fn lemma_raw_decreasing(lambda: int, i: int, j: int)
    requires lambda >= 2, 1 <= i < j <= lambda,
    ensures key(raw_weight(lambda, i)) > key(raw_weight(lambda, j)),
{
    broadcast use exact;
    lemma_raw(lambda, i); lemma_raw(lambda, j);
    let m = fdiv(fadd(fint(lambda), flit(1real)), flit(2real));
    ex_ln_mono(fint(i), fint(j));
    assert((lambda as real + 1real) / 2real > 0real) by(nonlinear_arith) requires lambda >= 2;
}
/// the initial weights: the first mu positive, the others not, never increasing
pub proof fn lemma_raw_weights(lambda: int, s: Weights)
    requires lambda >= 2,
    ensures ({ let w = raw_weights(lambda, s); let mu = lambda / 2;
        &&& num(w) && w.len() == (if s is Negative { lambda } else { mu }) && 1 <= mu < lambda
        &&& forall|k: int| 0 <= k < w.len() ==> is_pos()(#[trigger] w[k]) == (k < mu)
        &&& forall|k: int| 0 <= k < w.len() ==> (k < mu ==> key(#[trigger] w[k]) > 0real) && (k >= mu ==> key(w[k]) <= 0real)
        &&& forall|k: int| mu <= k < w.len() && 2 * (k + 1) != lambda + 1 ==> key(#[trigger] w[k]) < 0real
        &&& forall|i: int, j: int| 0 <= i < j < w.len() ==> key(#[trigger] w[i]) >= key(#[trigger] w[j])
    }),
{
    broadcast use exact;
    let w = raw_weights(lambda, s);
    assert forall|k: int| 0 <= k < w.len() implies !nan(#[trigger] w[k]) && is_pos()(w[k]) == (k < lambda / 2) && (k < lambda / 2 ==> key(w[k]) > 0real) && (k >= lambda / 2 ==> key(w[k]) <= 0real) && (k >= lambda / 2 && 2 * (k + 1) != lambda + 1 ==> key(w[k]) < 0real) by { lemma_raw(lambda, k + 1); }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies key(#[trigger] w[i]) >= key(#[trigger] w[j]) by { if !(s is Uniform) { lemma_raw_decreasing(lambda, i + 1, j + 1); } }
}
/// 1 <= mu_eff <= mu (equal to mu for equal weights is not needed)
pub proof fn lemma_mu_eff(lambda: int, s: Weights)
    requires lambda >= 2,
    ensures ({ let mu = lambda / 2; let m = eff_mass(raw_weights(lambda, s).take(mu)); !nan(m) && 1real <= key(m) <= mu as real && (mu >= 2 ==> key(m) > 1real) }),
{
    broadcast use exact;
    lemma_raw_weights(lambda, s);
    let w = raw_weights(lambda, s);
    let mu = lambda / 2;
    let t = w.take(mu);
    assert forall|i: int| 0 <= i < t.len() implies !nan(#[trigger] t[i]) && key(t[i]) > 0real by { assert(t[i] == w[i]); }
    lemma_cauchy(t); lemma_fsum(t); lemma_fsum(squares(t)); lemma_rsum_sign(t);
    let (a, q) = (rsum(t) * rsum(t), rsum(squares(t)));
    lemma_div(a, q);
    let x = a / q;
    assert(x <= mu as real) by(nonlinear_arith) requires x * q == a, a <= mu as real * q, q > 0real;
    assert(key(eff_mass(t)) == a / q);
}
/// ranges of the learning rates and of the damping
pub proof fn lemma_rates(dim: int, m: F)
    requires dim >= 1, !nan(m), key(m) >= 1real,
    ensures ({ let cc = cc_of(dim, m); let c1 = c1_of(dim, m); let cmu = cmu_of(dim, m, c1); let cs = cs_of(dim, m); let d = damp_of(dim, m, cs);
        &&& pos(cc) && key(cc) < 1real
        &&& pos(c1) && key(c1) < 1real
        &&& !nan(cmu) && key(cmu) >= 0real && key(c1) + key(cmu) <= 1real && (key(m) > 1real ==> key(cmu) > 0real)
        &&& pos(cs) && key(cs) < 1real
        &&& !nan(d) && key(d) >= 1real + key(cs)
    }),
{
    broadcast use exact;
    let n = dim as real; let x = key(m);
    assert(n >= 1real);
    // cc
    lemma_div(x, n); let y = x / n;
    let t = fmul(flit(2real), m);
    lemma_div(2real * x, n); let z = (2real * x) / n;
    assert(z == 2real * y) by(nonlinear_arith) requires z * n == 2real * x, y * n == x, n >= 1real;
    lemma_div(4real + y, n + 4real + z);
    assert(key(cc_of(dim, m)) == (4real + y) / (n + 4real + z));
    // c1
    let b = n + 13real / 10real;
    assert(13real / 10real > 1real);
    assert(b * b > 4real) by(nonlinear_arith) requires b > 2real;
    lemma_div(2real, b * b + x);
    let c1 = c1_of(dim, m);
    assert(key(c1) == 2real / (b * b + x));
    // cmu
    lemma_div(1real, x); let r = 1real / x;
    assert(x - 2real + r >= 0real) by(nonlinear_arith) requires r * x == 1real, x >= 1real;
    if x > 1real { assert(x - 2real + r > 0real) by(nonlinear_arith) requires r * x == 1real, x > 1real; }
    let e = n + 2real;
    assert(e * e > 0real) by(nonlinear_arith) requires e > 0real;
    let h = (2real * x) / 2real;
    assert(h == x) by(nonlinear_arith) requires h == (2real * x) / 2real;
    lemma_div(2real * (x - 2real + r), e * e + h);
    let cmu = cmu_of(dim, m, c1);
    // cs
    lemma_div(x + 2real, n + x + 5real);
    assert(key(cs_of(dim, m)) == (x + 2real) / (n + x + 5real));
    // damping
    lemma_div(x - 1real, n + 1real);
}
/// a sequence with the signs and order of the initial weights
pub open spec fn shape(w: Seq<F>, mu: int) -> bool {
    &&& num(w) && 1 <= mu <= w.len()
    &&& forall|k: int| 0 <= k < mu ==> key(#[trigger] w[k]) > 0real
    &&& forall|k: int| mu <= k < w.len() ==> key(#[trigger] w[k]) <= 0real
    &&& forall|i: int, j: int| 0 <= i < j < w.len() ==> key(#[trigger] w[i]) >= key(#[trigger] w[j])
}
pub proof fn lemma_normalize_pos(w: Seq<F>, mu: int)
    requires shape(w, mu),
    ensures ({ let p = normalized_pos(w);
        shape(p, mu) && rsum(p.take(mu)) == 1real && (forall|k: int| mu <= k < w.len() ==> #[trigger] p[k] == w[k])
        && (forall|i: int, j: int| 0 <= i < mu && 0 <= j < mu && w[i] == w[j] ==> #[trigger] p[i] == #[trigger] p[j]) }),
{
    broadcast use exact;
    let t = w.take(mu);
    assert forall|i: int| 0 <= i < t.len() implies !nan(#[trigger] t[i]) && key(t[i]) > 0real by { assert(t[i] == w[i]); }
    assert forall|k: int| 0 <= k < w.len() implies is_pos()(#[trigger] w[k]) == (k < mu) by { assert(!nan(w[k])); }
    lemma_filter_prefix(w, is_pos(), mu);
    lemma_fsum(t); lemma_rsum_sign(t);
    let sp = rsum(t); let p = normalized_pos(w);
    lemma_div(1real, sp); let r = 1real / sp;
    assert forall|k: int| 0 <= k < w.len() implies !nan(#[trigger] p[k]) && (k < mu ==> key(p[k]) == r * key(w[k]) && key(p[k]) > 0real) && (k >= mu ==> p[k] == w[k]) by {
        assert(!nan(w[k]));
        let x = key(w[k]);
        if k < mu { lemma_div(x, sp); let q = x / sp; assert(q == r * x) by(nonlinear_arith) requires q * sp == x, r * sp == 1real, sp > 0real; }
    }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies key(#[trigger] p[i]) >= key(#[trigger] p[j]) by {
        let (x, y) = (key(w[i]), key(w[j]));
        assert(r * x >= r * y) by(nonlinear_arith) requires x >= y, r > 0real;
    }
    let u = p.take(mu);
    assert forall|i: int| 0 <= i < u.len() implies key(#[trigger] u[i]) == r * key(t[i]) by { assert(u[i] == p[i]); }
    lemma_rsum_ext(u, t, r);
}
/// m2: the index of the first negative weight
pub proof fn lemma_normalize_neg(p: Seq<F>, mu: int, m2: int, b: F)
    requires shape(p, mu), mu <= m2 <= mu + 1, m2 < p.len(), !nan(b), key(b) >= 0real,
        forall|k: int| m2 <= k < p.len() ==> key(#[trigger] p[k]) < 0real, m2 > mu ==> key(p[mu]) == 0real,
    ensures ({ let f = normalized_neg(p, b); shape(f, mu) && (forall|k: int| 0 <= k < mu ==> #[trigger] f[k] == p[k]) && rsum(f.skip(mu)) == -key(b) }),
{
    broadcast use exact;
    let f = normalized_neg(p, b);
    assert forall|k: int| 0 <= k < p.len() implies is_neg()(#[trigger] p[k]) == (k >= m2) by { assert(!nan(p[k])); }
    lemma_filter_suffix(p, is_neg(), m2);
    let y = p.skip(m2);
    assert forall|i: int| 0 <= i < y.len() implies !nan(#[trigger] y[i]) && key(y[i]) < 0real by { assert(y[i] == p[m2 + i]); }
    lemma_fsum(y); lemma_rsum_sign(y);
    let z = p.skip(mu);
    if m2 > mu { lemma_rsum_first(z); assert(z.skip(1) =~= y); assert(z[0] == p[mu]); } else { assert(z =~= y); }
    let g = -rsum(y); let kb = key(b);
    lemma_div(kb, g); let c = kb / g;
    assert forall|k: int| 0 <= k < mu implies #[trigger] f[k] == p[k] by { assert(!is_neg()(p[k])); }
    assert forall|k: int| mu <= k < f.len() implies !nan(#[trigger] f[k]) && key(f[k]) == c * key(p[k]) && key(f[k]) <= 0real by {
        assert(!nan(p[k]));
        let v = key(p[k]);
        if is_neg()(p[k]) {
            let d = v * kb;
            lemma_div(d, g); let e = d / g;
            assert(e == c * v) by(nonlinear_arith) requires d == v * kb, c * g == kb, e * g == d, g > 0real;
            assert(key(f[k]) == e);
        } else { assert(v == 0real); assert(c * v == 0real) by(nonlinear_arith) requires v == 0real; assert(f[k] == p[k]); }
        assert(c * v <= 0real) by(nonlinear_arith) requires c >= 0real, v <= 0real;
    }
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies key(#[trigger] f[i]) >= key(#[trigger] f[j]) by {
        let (x1, y1) = (key(p[i]), key(p[j]));
        if mu <= i { assert(c * x1 >= c * y1) by(nonlinear_arith) requires x1 >= y1, c >= 0real; }
        else if j < mu { assert(f[i] == p[i] && f[j] == p[j]); }
        else { assert(f[i] == p[i]); assert(key(f[j]) <= 0real); }
    }
    assert forall|k: int| 0 <= k < f.len() implies !nan(#[trigger] f[k]) by { assert(!nan(p[k])); if k < mu { assert(f[k] == p[k]); } }
    let fs = f.skip(mu);
    assert forall|i: int| 0 <= i < fs.len() implies key(#[trigger] fs[i]) == c * key(z[i]) by { assert(fs[i] == f[mu + i]); }
    lemma_rsum_ext(fs, z, c);
    assert(c * rsum(z) == -kb) by(nonlinear_arith) requires c * g == kb, g == -rsum(z);
    assert forall|k: int| 0 <= k < mu implies key(#[trigger] f[k]) > 0real by { assert(f[k] == p[k]); }
}
/// the documented bounds of the total negative weight
pub proof fn lemma_neg_mass(m: F, mm: F, dim: int, c1: F, cmu: F)
    requires dim >= 1, pos(c1), pos(cmu), key(c1) + key(cmu) <= 1real, !nan(m), key(m) >= 1real, !nan(mm), key(mm) >= 0real,
    ensures ({ let b = neg_mass(m, mm, dim, c1, cmu);
        !nan(b) && key(b) >= 0real && key(b) <= 1real + key(c1) / key(cmu) && key(b) <= (1real - key(c1) - key(cmu)) / (dim as real * key(cmu))
        && key(b) <= 1real + 2real * key(mm) / (key(m) + 2real) }),
{
    broadcast use exact;
    let (km1, kmm, n, kc, km) = (key(m), key(mm), dim as real, key(c1), key(cmu));
    lemma_div(kc, km);
    lemma_div(2real * kmm, km1 + 2real);
    assert(n * km > 0real) by(nonlinear_arith) requires n >= 1real, km > 0real;
    lemma_div(1real - kc - km, n * km);
}
/// the weights in use
pub proof fn lemma_final_weights(lambda: int, s: Weights, dim: int, c1: F, cmu: F)
    requires lambda >= 2, dim >= 1, pos(c1), !nan(cmu), key(cmu) >= 0real, key(c1) + key(cmu) <= 1real,
    ensures ({ let raw = raw_weights(lambda, s); let mu = lambda / 2; let w = final_weights(raw, mu, dim, c1, cmu);
        &&& w.len() == raw.len()
        &&& forall|k: int| 0 <= k < mu ==> pos(#[trigger] w[k])
        &&& forall|i: int, j: int| 0 <= i < j < mu ==> key(#[trigger] w[i]) >= key(#[trigger] w[j])
        &&& s is Uniform ==> forall|i: int, j: int| 0 <= i < j < mu ==> #[trigger] w[i] == #[trigger] w[j]
        &&& rsum(w.take(mu)) == 1real
        // population sizes 2 and 3 divide by cmu == 0
        &&& key(cmu) > 0real ==> ({
            &&& forall|k: int| mu <= k < w.len() ==> !nan(#[trigger] w[k]) && key(w[k]) <= 0real
            &&& forall|i: int, j: int| mu <= i < j < w.len() ==> key(#[trigger] w[i]) >= key(#[trigger] w[j])
            &&& s is Negative ==> ({ let b = neg_mass(eff_mass(raw.take(mu)), eff_mass(raw.skip(mu)), dim, c1, cmu);
                rsum(w.skip(mu)) == -key(b) && key(b) >= 0real && key(b) <= 1real + key(c1) / key(cmu) && key(b) <= (1real - key(c1) - key(cmu)) / (dim as real * key(cmu))
                && key(b) <= 1real + 2real * key(eff_mass(raw.skip(mu))) / (key(eff_mass(raw.take(mu))) + 2real) })
        })
    }),
{
    broadcast use exact;
    lemma_raw_weights(lambda, s); lemma_mu_eff(lambda, s);
    let w = raw_weights(lambda, s); let mu = lambda / 2;
    assert(shape(w, mu));
    lemma_normalize_pos(w, mu);
    let p = normalized_pos(w);
    let f = final_weights(w, mu, dim, c1, cmu);
    if w.len() > mu {
        let b = neg_mass(eff_mass(w.take(mu)), eff_mass(w.skip(mu)), dim, c1, cmu);
        assert(f == normalized_neg(p, b));
        assert forall|k: int| 0 <= k < mu implies #[trigger] f[k] == p[k] && pos(f[k]) by { assert(key(p[k]) > 0real); assert(!nan(p[k])); }
        assert(f.take(mu) =~= p.take(mu));
        if key(cmu) > 0real {
            let x = w.skip(mu);
            assert forall|i: int| 0 <= i < x.len() implies !nan(#[trigger] x[i]) by { assert(x[i] == w[mu + i]); }
            assert(x.last() == w[lambda - 1]);
            assert(key(w[lambda - 1]) < 0real);
            lemma_eff_mass(x);
            lemma_neg_mass(eff_mass(w.take(mu)), eff_mass(x), dim, c1, cmu);
            let m2 = if 2 * mu == lambda { mu } else { mu + 1 };
            if m2 > mu { lemma_raw(lambda, mu + 1); }
            assert forall|k: int| m2 <= k < p.len() implies key(#[trigger] p[k]) < 0real by { assert(p[k] == w[k]); assert(2 * (k + 1) != lambda + 1); }
            lemma_normalize_neg(p, mu, m2, b);
        }
    } else {
        assert(f == p);
        assert(f.take(mu) =~= f);
        if s is Uniform { assert forall|i: int, j: int| 0 <= i < j < mu implies #[trigger] f[i] == #[trigger] f[j] by { assert(w[i] == w[j]); } }
    }
}
/// C11 for every dimension and population size: what `Parameters::new` establishes (unit params: `defined`) implies the ranges
pub proof fn theorem_parameters(p: Parameters)
    requires p.defined(), p.dim >= 1, p.lambda >= 2,
    ensures ({ let w = p.weights.weights@; let mu = p.mu as int; let s = p.weights.setting; let (m, cc, c1, cmu, cs) = (key(p.mu_eff), key(p.cc), key(p.c1), key(p.cmu), key(p.cs));
        &&& mu == p.lambda / 2 && w.len() == (if s is Negative { p.lambda as int } else { mu }) /*C11*/
        &&& !nan(p.mu_eff) && 1real <= m <= mu as real /*C11*/
        &&& pos(p.cc) && cc < 1real && pos(p.c1) && c1 < 1real && !nan(p.cmu) && cmu >= 0real && c1 + cmu <= 1real && pos(p.cs) && cs < 1real /*C11*/
        &&& !nan(p.damp_s) && key(p.damp_s) >= 1real + cs /*C11*/
        &&& (forall|k: int| 0 <= k < mu ==> pos(#[trigger] w[k])) && rsum(w.take(mu)) == 1real /*C11*/
        &&& forall|i: int, j: int| 0 <= i < j < mu ==> key(#[trigger] w[i]) >= key(#[trigger] w[j]) /*C11*/
        &&& s is Uniform ==> forall|i: int, j: int| 0 <= i < j < mu ==> #[trigger] w[i] == #[trigger] w[j] /*C11*/
        &&& p.lambda >= 4 ==> (forall|k: int| mu <= k < w.len() ==> !nan(#[trigger] w[k]) && key(w[k]) <= 0real) /*C11*/
        &&& p.lambda >= 4 ==> (forall|i: int, j: int| mu <= i < j < w.len() ==> key(#[trigger] w[i]) >= key(#[trigger] w[j])) /*C11*/
        &&& p.lambda >= 4 && s is Negative ==> ({ let b = -rsum(w.skip(mu)); let mm = key(eff_mass(raw_weights(p.lambda as int, s).skip(mu)));
                0real <= b <= 1real + c1 / cmu && b <= (1real - c1 - cmu) / (p.dim as real * cmu) && b <= 1real + 2real * mm / (m + 2real) }) /*C11*/
    }),
{
    let s = p.weights.setting; let raw = raw_weights(p.lambda as int, s);
    lemma_raw_weights(p.lambda as int, s);
    lemma_mu_eff(p.lambda as int, s);
    lemma_rates(p.dim as int, p.mu_eff);
    lemma_final_weights(p.lambda as int, s, p.dim as int, p.c1, p.cmu);
}
} // verus!
fn main() {}
