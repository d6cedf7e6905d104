//! Run-level contracts of the listed properties, checked on generated scenarios
use crate::refcma;
use crate::scen::*;
use crate::util::*;
use cmaes::TerminationReason as TR;
use cmaes::*;
use std::time::Duration;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

fn median_of_sorted(v: &[f64]) -> f64 {
    let n = v.len();
    if n % 2 == 0 {
        let m = (v[n / 2 - 1] + v[n / 2]) / 2.0;
        // opposite infinities: the better of the two
        if m.is_nan() { v[n / 2 - 1] } else { m }
    } else {
        v[n / 2]
    }
}
fn same_ind(a: &Option<(Vec<f64>, f64)>, b: Option<&Individual>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some((p, v)), Some(i)) => vec_eq(p, i.point.as_slice()) && bits_eq(*v, i.value),
        _ => false,
    }
}
fn same_opt(a: &Option<(Vec<f64>, f64)>, b: &Option<(Vec<f64>, f64)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some((p, v)), Some((q, w))) => vec_eq(p, q) && bits_eq(*v, *w),
        _ => false,
    }
}

pub fn c01(r: &mut Rng, st: &mut Stats) -> Res {
    let mut s = Scn::gen(r);
    if r.one_in(4) {
        s.obj = Obj::NanAt(r.int(0, 100));
    }
    st.desc = format!("{:?}", s);
    let m = s.mode;
    let t = trace(&s)?;
    ensure!(t.initial.cur.is_none() && t.initial.over.is_none(), "a best individual exists before the first generation");
    let mut overall: Option<f64> = None;
    let mut all: Vec<(Vec<f64>, f64)> = vec![];
    for (k, g) in t.gens.iter().enumerate() {
        if g.invalid() {
            ensure!(same_opt(&g.before.cur, &g.after.cur) && same_opt(&g.before.over, &g.after.over), "gen {}: invalid generation changed a best individual", k);
            continue;
        }
        st.nontrivial += 1;
        let best = g.sorted(m)[0];
        let (p, v) = g.after.cur.clone().ok_or(format!("gen {}: no current best", k))?;
        ensure!(v == best, "gen {}: current best value {} but the generation's best is {}", k, v, best);
        ensure!(g.evals.iter().any(|e| vec_eq(&e.0, &p) && e.1 == v), "gen {}: current best {:?} = {} was not evaluated in it", k, p, v);
        all.extend(g.evals.iter().cloned());
        let (q, w) = g.after.over.clone().ok_or(format!("gen {}: no overall best", k))?;
        ensure!(all.iter().any(|e| vec_eq(&e.0, &q) && e.1 == w), "gen {}: overall best {:?} = {} was never evaluated with this value", k, q, w);
        ensure!(!all.iter().any(|e| better(m, e.1, w)), "gen {}: an evaluated individual is better than the overall best {}", k, w);
        if let Some(o) = overall {
            ensure!(!better(m, o, w), "gen {}: overall best got worse: {} -> {}", k, o, w);
            if o == w {
                ensure!(same_opt(&g.before.over, &g.after.over), "gen {}: overall best replaced by one of equal value", k);
            }
        }
        overall = Some(w);
    }
    Ok(())
}

pub fn c02(r: &mut Rng, st: &mut Stats) -> Res {
    #[cfg(not(feature = "h_lib"))]
    {
        let _ = (r, st);
        return Ok(());
    }
    #[cfg(feature = "h_lib")]
    {
        #[cfg(all(feature = "h_history", feature = "h_sampling"))]
        if r.one_in(12) {
            return c02_long(r, st);
        }
        let mut s = Scn::gen(r);
        if r.one_in(5) {
            s.obj = Obj::NanAt(r.int(0, 100));
        }
        st.desc = format!("{:?}", s);
        let t = trace(&s)?;
        let (mut bests, mut meds): (Vec<f64>, Vec<f64>) = (vec![], vec![]);
        for (k, g) in t.gens.iter().enumerate() {
            if !g.invalid() {
                st.nontrivial += 1;
                let v = g.sorted(s.mode);
                bests.insert(0, v[0]);
                meds.insert(0, median_of_sorted(&v));
            }
            hist_is(&g.after.hist, &bests, &meds, s.mode).map_err(|e| format!("gen {}: {}", k, e))?;
        }
        Ok(())
    }
}
#[cfg(feature = "h_lib")]
fn hist_is(h: &(Vec<f64>, Vec<f64>, Option<f64>, Option<f64>), bests: &[f64], meds: &[f64], m: Mode) -> Res {
    let cap = 20000;
    let n = bests.len().min(cap);
    ensure!(vec_eq(&h.0, &bests[..n]), "best history {:?} should be {:?}", head(&h.0), head(&bests[..n]));
    let nan_ok = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, 1e-12));
    ensure!(nan_ok(&h.1, &meds[..n]), "median history {:?} should be {:?}", head(&h.1), head(&meds[..n]));
    match (h.2, meds.last()) {
        (None, None) => {}
        (Some(a), Some(b)) => ensure!(close(a, *b, 1e-12), "first median {} should be {}", a, b),
        (a, b) => return Err(format!("first median {:?} should be {:?}", a, b)),
    }
    if meds.iter().all(|x| !x.is_nan()) {
        let mut best: Option<f64> = None;
        for x in meds {
            best = Some(match best {
                Some(b) if !better(m, *x, b) => b,
                _ => *x,
            });
        }
        match (h.3, best) {
            (None, None) => {}
            (Some(a), Some(b)) => ensure!(close(a, b, 1e-12), "best median {} should be {}", a, b),
            (a, b) => return Err(format!("best median {:?} should be {:?}", a, b)),
        }
    }
    Ok(())
}
#[cfg(feature = "h_lib")]
fn head(v: &[f64]) -> String {
    format!("len {} {:?}", v.len(), &v[..v.len().min(6)])
}
#[cfg(all(feature = "h_lib", feature = "h_history", feature = "h_sampling"))]
fn c02_long(r: &mut Rng, st: &mut Stats) -> Res {
    use cmaes::verif_api::*;
    let mode = if r.bool() { Mode::Minimize } else { Mode::Maximize };
    let total = 20000 + r.int(0, 300);
    let lambda = r.int(1, 5);
    st.desc = format!("{} generations of {} individuals, {:?}", total, lambda, mode);
    let mut h = History::new();
    let (mut bests, mut meds) = (vec![], vec![]);
    for _ in 0..total {
        let mut v: Vec<f64> = (0..lambda).map(|_| r.range(-5.0, 5.0)).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if mode == Mode::Maximize {
            v.reverse();
        }
        let g: Vec<_> = v.iter().map(|x| EvaluatedPoint::verif_new(DVector::from(vec![*x]), *x)).collect();
        h.update(mode, &g);
        bests.push(v[0]);
        meds.push(median_of_sorted(&v));
    }
    bests.reverse();
    meds.reverse();
    st.nontrivial += 1;
    let hh = (
        h.best_function_values().iter().cloned().collect(),
        h.median_function_values().iter().cloned().collect(),
        h.first_median_function_value(),
        h.best_median_function_value(),
    );
    hist_is(&hh, &bests, &meds, mode)
}

pub fn c03(r: &mut Rng, st: &mut Stats) -> Res {
    let mut s = Scn::gen(r);
    let nan = r.one_in(4);
    if nan {
        s.obj = if r.bool() { Obj::NanAt(r.int(0, 60)) } else { Obj::NanRegion(0.05) };
    }
    if r.one_in(3) {
        s.con = Con::Hash(r.range(0.2, 0.9));
        s.max_resamples = Some(Some(r.int(0, 6)));
    }
    st.desc = format!("{:?}", s);
    let t = trace(&s)?;
    let mut calls = 0;
    for (k, g) in t.gens.iter().enumerate() {
        calls += g.evals.len();
        ensure!(g.after.evals == calls, "gen {}: function_evals() is {} after {} objective calls", k, g.after.evals, calls);
        if g.invalid() {
            ensure!(g.evals.len() <= s.lambda, "gen {}: {} objective calls for a population of {}", k, g.evals.len(), s.lambda);
        } else {
            ensure!(g.evals.len() == s.lambda, "gen {}: {} objective calls for a population of {}", k, g.evals.len(), s.lambda);
            st.nontrivial += 1;
        }
    }
    // first generation points are mean + sigma * N(0, I): bounded statistical check of the scale
    if matches!(s.con, Con::None) && !nan && s.lambda * s.dim() >= 40 && s.gens > 0 {
        let g = &t.gens[0];
        let z: Vec<f64> = g.evals.iter().flat_map(|e| e.0.iter().zip(&s.mean).map(|(x, m)| (x - m) / s.sigma0).collect::<Vec<_>>()).collect();
        let n = z.len() as f64;
        let mu = z.iter().sum::<f64>() / n;
        let var = z.iter().map(|x| (x - mu) * (x - mu)).sum::<f64>() / n;
        ensure!(mu.abs() < 7.0 / n.sqrt(), "first generation: standardized mean {} of {} coordinates", mu, n);
        ensure!(var > 0.12 && var < 4.0, "first generation: standardized variance {} of {} coordinates", var, n);
    }
    #[cfg(feature = "h_lib")]
    c03_hooked(&s, st)?;
    Ok(())
}
#[cfg(feature = "h_lib")]
fn c03_hooked(s: &Scn, st: &mut Stats) -> Res {
    let rec = Rec::new(s.obj.clone(), s.lambda);
    let log = rec.log.clone();
    let mut c = s.options(&Default::default()).build(rec).map_err(|e| format!("{:?}", e))?;
    for k in 0..s.gens.min(12) {
        log.lock().unwrap().clear();
        let mean = c.mean().clone();
        let sigma = c.sigma();
        let (inds, data) = if s.par_eval { c.verif_next_parallel() } else { c.verif_next() };
        let inds = match inds {
            Some(x) => x,
            None => break,
        };
        let ev = log.lock().unwrap().clone();
        ensure!(inds.len() == s.lambda, "gen {}: {} individuals for a population of {}", k, inds.len(), s.lambda);
        let mut used = vec![false; ev.len()];
        for (i, (p, y, v)) in inds.iter().enumerate() {
            let j = (0..ev.len()).find(|j| !used[*j] && vec_eq(&ev[*j].0, p.as_slice()) && bits_eq(ev[*j].1, *v));
            match j {
                Some(j) => used[j] = true,
                None => return Err(format!("gen {}: individual {} ({:?}, {}) is not an evaluated point with its returned value", k, i, p.as_slice(), v)),
            }
            for d in 0..s.dim() {
                let x = mean[d] + sigma * y[d];
                ensure!(close(x, p[d], 1e-12), "gen {}: point {} is not mean + sigma * step: {} vs {}", k, i, p[d], x);
            }
            if i > 0 {
                ensure!(!better(s.mode, *v, inds[i - 1].2), "gen {}: individuals are not ordered best first: {} before {}", k, inds[i - 1].2, v);
            }
        }
        st.hit("generations with inspected individuals");
        if let Some(d) = data {
            if d.reasons.contains(&TR::PosDefCov) || !s.past_end {
                break;
            }
        }
        if !c.sigma().is_finite() || c.sigma() < 1e-290 || c.mean().iter().any(|x| !x.is_finite()) {
            break;
        }
    }
    Ok(())
}

pub fn c04(r: &mut Rng, st: &mut Stats) -> Res {
    if r.one_in(4) {
        // Bounds::meets_constraints
        let n = r.int(1, 5);
        let lo: Vec<f64> = (0..n).map(|_| r.pick(&[-1.0, 0.0, 0.5, f64::NEG_INFINITY, -2.0])).collect();
        let hi: Vec<f64> = lo.iter().map(|l| if l.is_finite() { l + r.pick(&[0.0, 1.0, 2.5, -0.5, f64::INFINITY]) } else { 1.0 }).collect();
        let b = Bounds { lower: lo.clone(), upper: hi.clone() };
        st.desc = format!("{:?}", b);
        for _ in 0..50 {
            let x: Vec<f64> = (0..n).map(|i| {
                let (l, u) = (lo[i], hi[i]);
                r.pick(&[l, u, (l + u) / 2.0, l - 1e-9, u + 1e-9, 0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, r.clone().range(-3.0, 3.0)])
            }).collect();
            let want = (0..n).all(|i| lo[i] <= x[i] && x[i] <= hi[i]);
            let got = b.meets_constraints(&DVector::from(x.clone()));
            ensure!(want == got, "{:?} on {:?}: {} should be {}", b, x, got, want);
            let got = b.clone_box().meets_constraints(&DVector::from(x.clone()));
            ensure!(want == got, "clone of {:?} on {:?}: {} should be {}", b, x, got, want);
            st.nontrivial += 1;
        }
        return Ok(());
    }
    let mut s = Scn::gen(r);
    s.obj = Obj::smooth(r);
    let n = s.dim();
    s.con = match r.int(0, 2) {
        0 => Con::Bounds(s.mean.iter().map(|m| m - s.sigma0 * r.range(0.1, 1.5)).collect(), s.mean.iter().map(|m| m + s.sigma0 * r.range(0.1, 1.5)).collect()),
        1 => Con::Half(s.mean[0] + s.sigma0 * r.range(-0.8, 0.8)),
        _ => Con::Hash(r.range(0.15, 0.95)),
    };
    if let (Con::Bounds(..), true) = (&s.con, n > 3) {
        s.con = Con::Half(s.mean[0]);
    }
    s.max_resamples = r.pick(&[None, Some(None), Some(Some(0)), Some(Some(1)), Some(Some(2)), Some(Some(3)), Some(Some(7))]);
    s.gens = r.int(1, 6);
    let limit = s.max_resamples.unwrap_or(Some(10));
    st.desc = format!("{:?}", s);
    let t = trace(&s)?;
    for (k, g) in t.gens.iter().enumerate() {
        let viol: Vec<_> = g.evals.iter().filter(|e| !s.con.ok(&e.0)).collect();
        st.nontrivial += 1;
        if limit.is_none() {
            ensure!(viol.is_empty(), "gen {}: evaluated {:?} violates the constraints without a resample limit", k, viol[0].0);
        }
        if !s.con_recorded() {
            continue;
        }
        // rounds of sampling reconstructed from the sequence of constraint checks
        let mut remain = s.lambda;
        let mut pos = 0;
        let mut rounds = 0;
        let mut accepted: Vec<Vec<f64>> = vec![];
        while remain > 0 && limit.map_or(true, |l| rounds < l) {
            ensure!(pos + remain <= g.cons.len(), "gen {}: round {} checked {} points where {} were missing", k, rounds, g.cons.len() - pos, remain);
            let round = &g.cons[pos..pos + remain];
            pos += remain;
            for (p, ok) in round {
                if *ok {
                    accepted.push(p.clone());
                }
            }
            remain = s.lambda - accepted.len();
            rounds += 1;
        }
        ensure!(pos == g.cons.len(), "gen {}: {} constraint checks beyond the {} rounds allowed", k, g.cons.len() - pos, rounds);
        // every accepted point is evaluated, the others were drawn after the last round
        let mut used = vec![false; g.evals.len()];
        for p in &accepted {
            match (0..used.len()).find(|j| !used[*j] && vec_eq(p, &g.evals[*j].0)) {
                Some(j) => used[j] = true,
                None => return Err(format!("gen {}: accepted point {:?} was not evaluated", k, p)),
            }
        }
        let rest: Vec<_> = (0..used.len()).filter(|j| !used[*j]).collect();
        ensure!(rest.len() == remain, "gen {}: {} evaluated points were not accepted by a round, {} were missing", k, rest.len(), remain);
        for j in rest {
            ensure!(!g.cons.iter().any(|c| vec_eq(&c.0, &g.evals[j].0)), "gen {}: a rejected point was evaluated: {:?}", k, g.evals[j].0);
            st.hit("unconstrained replacements");
        }
    }
    Ok(())
}

pub fn c05(r: &mut Rng, st: &mut Stats) -> Res {
    let mut s = Scn::gen(r);
    s.obj = r.pick(&[Obj::NanAt(r.clone().int(0, 150)), Obj::NanAt(r.clone().int(0, 20)), Obj::NanRegion(0.03), Obj::NanRegion(0.3), Obj::InfRegion, Obj::NegInfRegion, Obj::AllInf, Obj::Sphere, Obj::Const(f64::INFINITY), Obj::Const(0.0)]);
    if r.one_in(3) {
        s.max_function_evals = Some(s.lambda * r.int(1, 10));
        s.max_generations = Some(r.int(1, 10));
        s.fun_target = Some(1e300);
    }
    if r.one_in(4) {
        s.plot_gap = Some(0);
    }
    st.desc = format!("{:?}", s);
    let t = trace(&s)?;
    for (k, g) in t.gens.iter().enumerate() {
        if g.invalid() {
            st.nontrivial += 1;
            let d = g.data.as_ref().ok_or(format!("gen {}: a NaN value did not terminate the step", k))?;
            ensure!(d.reasons == vec![TR::InvalidFunctionValue], "gen {}: reasons {:?} after a NaN value", k, d.reasons);
            let (b, a) = (&g.before, &g.after);
            ensure!(vec_eq(&b.mean, &a.mean) && bits_eq(a.sigma, b.sigma) && a.generation == b.generation, "gen {}: NaN generation changed the state", k);
            ensure!(b.cov.iter().zip(&a.cov).all(|(x, y)| vec_eq(x, y)) && vec_eq(&b.eig, &a.eig), "gen {}: NaN generation changed the covariance", k);
            ensure!(same_opt(&b.cur, &a.cur) && same_opt(&b.over, &a.over), "gen {}: NaN generation changed a best individual", k);
            ensure!(same_ind(&b.cur, d.current_best.as_ref()) && same_ind(&b.over, d.overall_best.as_ref()) && vec_eq(&b.mean, d.final_mean.as_slice()), "gen {}: termination data is not that of the last completed generation", k);
            #[cfg(feature = "h_lib")]
            ensure!(vec_eq(&b.hist.0, &a.hist.0) && b.hist.1.len() == a.hist.1.len() && format!("{:?}", b.hist.3) == format!("{:?}", a.hist.3) && vec_eq(&b.path_c, &a.path_c), "gen {}: NaN generation changed a history", k);
        } else {
            ensure!(!g.has(TR::InvalidFunctionValue), "gen {}: InvalidFunctionValue without a NaN value", k);
            if g.evals.iter().any(|e| e.1.is_infinite()) {
                st.nontrivial += 1;
            }
        }
        for p in [&g.after.cur, &g.after.over] {
            if let Some((_, v)) = p {
                ensure!(!v.is_nan(), "gen {}: a best individual has a NaN value", k);
            }
        }
    }
    Ok(())
}

pub fn c06(r: &mut Rng, st: &mut Stats) -> Res {
    if r.one_in(10) {
        return c06_time(r, st);
    }
    let mut s = Scn::gen(r);
    let kind = r.int(0, 3);
    if kind != 1 {
        s.max_function_evals = Some(r.pick(&[0, 1, s.lambda, s.lambda * 2, s.lambda * 3, s.lambda * 3 + 1, s.lambda * 5 - 1, 100]));
    }
    if kind != 2 {
        s.max_generations = Some(r.pick(&[0, 1, 2, 3, 5, 8, 30]));
    }
    if kind >= 1 {
        // a target equal to a value that is likely to be met exactly, or anything
        s.fun_target = Some(r.pick(&[0.0, -2.5, 0.25, 0.5, 1.0, 2.0, 10.0, -4.0, f64::INFINITY, f64::NEG_INFINITY]));
    }
    s.past_end = true;
    s.gens = 12;
    st.desc = format!("{:?}", s);
    let t = trace(&s)?;
    let mut calls = 0;
    for (k, g) in t.gens.iter().enumerate() {
        calls += g.evals.len();
        if g.invalid() || g.has(TR::PosDefCov) {
            continue;
        }
        st.nontrivial += 1;
        let want = s.max_function_evals.map_or(false, |m| calls >= m);
        ensure!(g.has(TR::MaxFunctionEvals) == want, "gen {}: MaxFunctionEvals reported={} with {} evaluations, limit {:?}", k, g.has(TR::MaxFunctionEvals), calls, s.max_function_evals);
        let want = s.max_generations.map_or(false, |m| k + 1 >= m);
        ensure!(g.has(TR::MaxGenerations) == want, "gen {}: MaxGenerations reported={} after {} generations, limit {:?}", k, g.has(TR::MaxGenerations), k + 1, s.max_generations);
        ensure!(!g.has(TR::MaxTime), "gen {}: MaxTime reported without a limit", k);
        match s.fun_target {
            None => ensure!(!g.has(TR::FunTarget), "gen {}: FunTarget reported without a target", k),
            Some(t) => {
                let some = g.values().iter().any(|v| better(s.mode, *v, t));
                let all_worse = g.values().iter().all(|v| better(s.mode, t, *v));
                if some {
                    ensure!(g.has(TR::FunTarget), "gen {}: FunTarget not reported for {:?}, target {}", k, g.sorted(s.mode), t);
                }
                if all_worse {
                    ensure!(!g.has(TR::FunTarget), "gen {}: FunTarget reported for {:?}, target {}", k, g.sorted(s.mode), t);
                }
            }
        }
    }
    // a run stops in the first generation that reaches a limit
    if !s.obj.by_call() {
        if let Some(first) = t.gens.iter().position(|g| g.data.is_some()) {
            let rec = Rec::new(s.obj.clone(), s.lambda);
            let mut c = s.options(&Default::default()).build(rec).map_err(|e| format!("{:?}", e))?;
            let _ = if s.par_eval { c.run_parallel() } else { c.run() };
            if !s.par_update {
                let want: usize = t.gens[..=first].iter().map(|g| g.evals.len()).sum();
                ensure!(c.function_evals() == want, "run() made {} evaluations, the first terminating step is after {}", c.function_evals(), want);
            }
        }
    }
    Ok(())
}
fn c06_time(r: &mut Rng, st: &mut Stats) -> Res {
    let limit = r.pick(&[0u64, 5, 15, 3_600_000]);
    st.desc = format!("max_time {} ms, objective sleeping", limit);
    let mut c = CMAESOptions::new(vec![1.0, 2.0], 1.0)
        .seed(r.u64())
        .max_time(Duration::from_millis(limit))
        .build(|x: &DVector<f64>| {
            std::thread::sleep(Duration::from_millis(1));
            x.magnitude()
        })
        .map_err(|e| format!("{:?}", e))?;
    for k in 0..6 {
        let t0 = c.time_created().elapsed();
        let d = c.next();
        let t1 = c.time_created().elapsed();
        let has = d.map_or(false, |d| d.reasons.contains(&TR::MaxTime));
        let lim = Duration::from_millis(limit);
        // the six objective calls of the step take at least 6 ms
        if t0 + Duration::from_millis(6) >= lim {
            ensure!(has, "gen {}: MaxTime not reported although {:?} had passed before it, limit {:?}", k, t0, lim);
        }
        if t1 < lim {
            ensure!(!has, "gen {}: MaxTime reported although only {:?} had passed after it, limit {:?}", k, t1, lim);
        }
        st.nontrivial += 1;
    }
    Ok(())
}

fn range_of(v: &[f64]) -> f64 {
    let mn = v.iter().cloned().fold(v[0], |a, b| if b < a { b } else { a });
    let mx = v.iter().cloned().fold(v[0], |a, b| if b > a { b } else { a });
    mx - mn
}

pub fn c07(r: &mut Rng, st: &mut Stats) -> Res {
    let mut s = Scn::gen(r);
    s.obj = r.pick(&[Obj::Const(1.5), Obj::Floor(0.5), Obj::Noise, Obj::Drift, Obj::Steps, Obj::Tiny, Obj::Sphere, Obj::NegSphere, Obj::Steps, Obj::Floor(0.01)]);
    s.tol_fun = r.pick(&[None, Some(0.0), Some(0.125), Some(0.5), Some(1.0), Some(5.0), Some(1e-13)]);
    s.tol_fun_hist = r.pick(&[None, Some(0.0), Some(0.125), Some(0.25), Some(1.0), Some(2.0), Some(1e-13)]);
    s.tol_fun_rel = r.pick(&[None, Some(0.5), Some(1e-3), Some(2.0), Some(50.0)]);
    s.past_end = true;
    s.lambda = r.pick(&[2, 3, 4, 5, 6, 7, 9, 12, 20, 31, 60]);
    s.gens = 30 * s.dim() / s.lambda + r.int(8, 40);
    st.desc = format!("{:?}", s);
    let t = trace(&s)?;
    let window = 10 + (30.0 * s.dim() as f64 / s.lambda as f64).ceil() as usize;
    let mut bests: Vec<f64> = vec![];
    let mut meds: Vec<f64> = vec![];
    for (k, g) in t.gens.iter().enumerate() {
        if g.has(TR::PosDefCov) {
            break;
        }
        let v = g.sorted(s.mode);
        bests.insert(0, v[0]);
        meds.push(median_of_sorted(&v));
        let (mut hist, mut fun, mut rel) = (false, false, false);
        if bests.len() >= window {
            st.nontrivial += 1;
            let rh = range_of(&bests[..window]);
            let rc = range_of(&v);
            hist = rh < s.tol_fun_hist.unwrap_or(1e-12);
            let tf = s.tol_fun.unwrap_or(1e-12);
            fun = rh < tf && rc < tf;
            let best_med = meds.iter().cloned().fold(meds[0], |a, b| if better(s.mode, b, a) { b } else { a });
            let tr = s.tol_fun_rel.unwrap_or(0.0) * (meds[0] - best_med).abs();
            rel = rh < tr && rc < tr;
            if hist { st.hit("TolFunHist met") }
            if fun { st.hit("TolFun met") }
            if rel { st.hit("TolFunRel met") }
        }
        for (reason, want) in [(TR::TolFunHist, hist), (TR::TolFun, fun), (TR::TolFunRel, rel)] {
            ensure!(g.has(reason) == want, "after {} generations (window {}): {:?} reported={}, its condition is {} (bests {:?}, generation {:?})", k + 1, window, reason, g.has(reason), want, &bests[..bests.len().min(window)], v);
        }
    }
    Ok(())
}

fn median(mut v: Vec<f64>) -> f64 {
    if v.is_empty() {
        return f64::NAN;
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = v.len();
    if n % 2 == 0 { (v[n / 2 - 1] + v[n / 2]) / 2.0 } else { v[n / 2] }
}
/// bests and medians newest first
fn stagnated(gens: usize, tol: usize, bests: &[f64], meds: &[f64], m: Mode) -> bool {
    let w = (gens / 5).min(20000);
    if w < tol || bests.len() < w || meds.len() < w {
        return false;
    }
    let sub = (w as f64 * 0.3) as usize;
    let worse = |v: &[f64]| {
        let newest = v[..sub].to_vec();
        let oldest = v[w - sub..w].to_vec();
        better(m, median(oldest), median(newest))
    };
    worse(bests) && worse(meds)
}
pub fn c08(r: &mut Rng, st: &mut Stats) -> Res {
    #[cfg(all(feature = "h_lib", feature = "h_history", feature = "h_state", feature = "h_termination", feature = "h_sampling"))]
    if r.one_in(2) {
        return c08_synth(r, st);
    }
    let mut s = Scn::gen(r);
    s.obj = r.pick(&[Obj::Noise, Obj::Drift, Obj::Steps, Obj::Const(1.0), Obj::Noise, Obj::Sphere]);
    s.mean.truncate(2);
    s.lambda = r.pick(&[2, 3, 4, 6]);
    s.tol_stagnation = Some(r.pick(&[0, 1, 4, 7, 10, 13, 20]));
    s.past_end = true;
    s.gens = r.int(60, 260);
    st.desc = format!("{:?}", s);
    let t = trace(&s)?;
    let (mut bests, mut meds) = (vec![], vec![]);
    for (k, g) in t.gens.iter().enumerate() {
        if g.has(TR::PosDefCov) {
            break;
        }
        let v = g.sorted(s.mode);
        bests.insert(0, v[0]);
        meds.insert(0, median_of_sorted(&v));
        let want = stagnated(k + 1, s.tol_stagnation.unwrap(), &bests, &meds, s.mode);
        if want { st.hit("stagnated") }
        st.nontrivial += 1;
        ensure!(g.has(TR::TolStagnation) == want, "after {} generations: TolStagnation reported={}, its condition is {}", k + 1, g.has(TR::TolStagnation), want);
    }
    Ok(())
}
#[cfg(all(feature = "h_lib", feature = "h_history", feature = "h_state", feature = "h_termination", feature = "h_sampling"))]
fn c08_synth(r: &mut Rng, st: &mut Stats) -> Res {
    use cmaes::verif_api::*;
    let mode = if r.bool() { Mode::Minimize } else { Mode::Maximize };
    let big = r.one_in(6);
    let len = if big { 20000 - r.pick(&[0, 0, 1]) } else { r.int(0, 200) };
    let generation = if big { r.pick(&[99_994, 99_999, 100_000, 100_004, 150_000, 1_000_000]) } else { r.int(0, 1100) };
    let tol = if big { r.pick(&[10, 19_998, 19_999, 20_000, 20_001, 30_000]) } else { r.pick(&[0, 1, 3, 4, 10, 20, 50, 100, 200, 219]) };
    let shape = r.int(0, 4);
    let gen_vals = |r: &mut Rng, shape: usize| -> Vec<f64> {
        (0..len).map(|i| match shape {
            0 => r.range(0.0, 1.0),
            1 => i as f64,
            2 => -(i as f64),
            3 => 1.0,
            _ => (i / 7) as f64 * if r.bool() { 1.0 } else { -1.0 },
        }).collect()
    };
    let bests = gen_vals(r, shape);
    let sh2 = if r.bool() { shape } else { r.int(0, 4) };
    let meds = gen_vals(r, sh2);
    st.desc = format!("{:?} generation {} tol_stagnation {} history length {} shapes {} {}", mode, generation, tol, len, shape, sh2);
    let c = CMAESOptions::new(vec![1.0, 2.0], 1.0).mode(mode).seed(1).tol_stagnation(tol).build(|_: &DVector<f64>| 0.0).map_err(|e| format!("{:?}", e))?;
    let h = History::verif_synth(bests.clone(), meds.clone(), None, None);
    let state = State::verif_synth(DVector::from(vec![1.0, 2.0]), nalgebra::DMatrix::identity(2, 2), 1.0, DVector::from(vec![1.0, 1.0]), generation).ok_or("state")?;
    let inds = vec![EvaluatedPoint::verif_new(DVector::from(vec![1.0, 2.0]), 1.0), EvaluatedPoint::verif_new(DVector::from(vec![2.0, 2.0]), 2.0)];
    let res = cmaes::termination::verif_check(10, std::time::Instant::now(), c.parameters(), &state, &h, &inds);
    let want = stagnated(generation, tol, &bests, &meds, mode);
    if want { st.hit("stagnated") }
    st.nontrivial += 1;
    ensure!(res.contains(&TR::TolStagnation) == want, "TolStagnation reported={}, its condition is {}", !want, want);
    Ok(())
}

pub fn c09(r: &mut Rng, st: &mut Stats) -> Res {
    #[cfg(all(feature = "h_lib", feature = "h_history", feature = "h_state", feature = "h_termination", feature = "h_sampling"))]
    if r.one_in(2) {
        return c09_synth(r, st);
    }
    let mut s = Scn::gen(r);
    s.obj = r.pick(&[Obj::Sphere, Obj::Ellipsoid, Obj::Linear, Obj::Noise, Obj::Const(1.0), Obj::Rosen]);
    s.tol_x = r.pick(&[None, Some(0.5), Some(0.1), Some(2.0), Some(0.01)]);
    s.tol_x_up = r.pick(&[None, Some(1.5), Some(3.0), Some(1.0)]);
    s.tol_condition_cov = r.pick(&[None, Some(1.5), Some(4.0), Some(30.0)]);
    s.past_end = true;
    st.desc = format!("{:?}", s);
    let t = trace(&s)?;
    for (k, g) in t.gens.iter().enumerate() {
        if g.has(TR::PosDefCov) {
            break;
        }
        let a = &g.after;
        let n = s.dim();
        st.nontrivial += 1;
        // TolXUp / TolConditionCov from the public accessors, with a band around the limits
        let axis = a.eig.iter().cloned().fold(0.0, f64::max).sqrt();
        let up = a.sigma * axis / s.sigma0;
        let lim = s.tol_x_up.unwrap_or(1e8);
        if !rel_close(up, lim, 1e-9) {
            ensure!(g.has(TR::TolXUp) == (up > lim), "gen {}: TolXUp reported={} at {} (limit {})", k, g.has(TR::TolXUp), up, lim);
        }
        let cond = a.ratio * a.ratio;
        let lim = s.tol_condition_cov.unwrap_or(1e14);
        if !rel_close(cond, lim, 1e-9) {
            let want = !cond.is_normal() || cond > lim;
            ensure!(g.has(TR::TolConditionCov) == want, "gen {}: TolConditionCov reported={} at {} (limit {})", k, g.has(TR::TolConditionCov), cond, lim);
        }
        let mx = a.eig.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let mn = a.eig.iter().cloned().fold(f64::INFINITY, f64::min);
        ensure!(rel_close(cond, mx / mn, 1e-6), "gen {}: squared axis ratio {} of eigenvalues {:?}", k, cond, a.eig);
        let tol_x = s.tol_x.unwrap_or(1e-12 * s.sigma0);
        let coords: Vec<f64> = (0..n).map(|i| (a.sigma * a.cov[i][i].sqrt()).abs()).collect();
        let far = coords.iter().any(|c| *c >= tol_x * (1.0 + 1e-9));
        if far {
            ensure!(!g.has(TR::TolX), "gen {}: TolX reported with coordinate std devs {:?}, tol_x {}", k, coords, tol_x);
        }
        #[cfg(feature = "h_lib")]
        {
            let paths: Vec<f64> = a.path_c.iter().map(|p| (a.sigma * p).abs()).collect();
            if coords.iter().chain(&paths).all(|c| !rel_close(*c, tol_x, 1e-9)) {
                let want = coords.iter().chain(&paths).all(|c| *c < tol_x);
                if want { st.hit("TolX met") }
                ensure!(g.has(TR::TolX) == want, "gen {}: TolX reported={} with coordinate std devs {:?} and paths {:?}, tol_x {}", k, g.has(TR::TolX), coords, paths, tol_x);
            }
            let i = (k + 1) % n;
            if g.after.generation == k + 1 {
                let want = (0..n).all(|d| a.mean[d] + 0.1 * a.sigma * a.basis.1[i][i] * a.basis.0[d][i] == a.mean[d]);
                let near = (0..n).any(|d| a.mean[d] != 0.0 && (0.1 * a.sigma * a.basis.1[i][i] * a.basis.0[d][i]).abs() < a.mean[d].abs() * 1e-14);
                if !near || want {
                    ensure!(g.has(TR::NoEffectAxis) == want, "gen {}: NoEffectAxis reported={}", k, g.has(TR::NoEffectAxis));
                }
            }
        }
    }
    Ok(())
}
#[cfg(all(feature = "h_lib", feature = "h_history", feature = "h_state", feature = "h_termination", feature = "h_sampling"))]
fn c09_synth(r: &mut Rng, st: &mut Stats) -> Res {
    use cmaes::verif_api::*;
    let n = r.int(1, 4);
    let vals: Vec<f64> = (0..n).map(|_| 10f64.powf(r.range(-3.0, 3.0))).collect();
    let rot = if r.bool() { random_rotation(r, n) } else { identity(n) };
    let cm = from_eigen(&vals, &rot);
    let cov = nalgebra::DMatrix::from_fn(n, n, |i, j| cm[i.min(j)][i.max(j)]);
    let scale = r.pick(&[1.0, 1.0, 1e5, 1e9]);
    let mean: Vec<f64> = (0..n).map(|_| r.pick(&[0.0, 1.0, -3.0, 7.0]) * scale).collect();
    let sigma = 10f64.powf(r.range(-14.0, 2.0));
    let generation = r.int(0, 9);
    let tol_x = 10f64.powf(r.range(-12.0, 2.0));
    let tol_x_up = 10f64.powf(r.range(-3.0, 5.0));
    let tol_cov = 10f64.powf(r.range(0.0, 7.0));
    let sigma0 = r.pick(&[1.0, 0.1, 10.0]);
    let path: Vec<f64> = (0..n).map(|_| r.range(-1.0, 1.0) * 10f64.powf(r.range(-3.0, 3.0)) * r.pick(&[0.0, 1.0, 1.0])).collect();
    st.desc = format!("n {} eigenvalues {:?} rotated {} mean {:?} sigma {} sigma0 {} path_c {:?} generation {} tol_x {} tol_x_up {} tol_condition_cov {}", n, vals, rot != identity(n), mean, sigma, sigma0, path, generation, tol_x, tol_x_up, tol_cov);
    let c = CMAESOptions::new(mean.clone(), sigma0).seed(1).tol_x(tol_x).tol_x_up(tol_x_up).tol_condition_cov(tol_cov).build(|_: &DVector<f64>| 0.0).map_err(|e| format!("{:?}", e))?;
    let state = match State::verif_synth(DVector::from(mean.clone()), cov.clone(), sigma, DVector::from(path.clone()), generation) {
        Some(x) => x,
        None => return Ok(()),
    };
    let h = History::verif_synth(vec![], vec![], None, None);
    let inds = vec![EvaluatedPoint::verif_new(DVector::from(mean.clone()), 1.0), EvaluatedPoint::verif_new(DVector::from(mean.clone()), 2.0)];
    let res = cmaes::termination::verif_check(10, std::time::Instant::now(), c.parameters(), &state, &h, &inds);
    let has = |t: TR| res.contains(&t);
    st.nontrivial += 1;
    let all: Vec<f64> = (0..n).map(|i| (sigma * cov[(i, i)].sqrt()).abs()).chain(path.iter().map(|p| (sigma * p).abs())).collect();
    if all.iter().all(|x| !rel_close(*x, tol_x, 1e-9)) {
        let want = all.iter().all(|x| *x < tol_x);
        if want { st.hit("TolX met") }
        ensure!(has(TR::TolX) == want, "TolX reported={}, coordinate and path values {:?}", has(TR::TolX), all);
    }
    let mx = vals.iter().cloned().fold(0.0, f64::max);
    let mn = vals.iter().cloned().fold(f64::INFINITY, f64::min);
    let up = sigma * mx.sqrt() / sigma0;
    if !rel_close(up, tol_x_up, 1e-6) {
        if up > tol_x_up { st.hit("TolXUp met") }
        ensure!(has(TR::TolXUp) == (up > tol_x_up), "TolXUp reported={} at {}", has(TR::TolXUp), up);
    }
    if !rel_close(mx / mn, tol_cov, 1e-6) {
        if mx / mn > tol_cov { st.hit("TolConditionCov met") }
        ensure!(has(TR::TolConditionCov) == (mx / mn > tol_cov), "TolConditionCov reported={} at {}", has(TR::TolConditionCov), mx / mn);
    }
    let i = generation % n;
    let d = state.cov_sqrt_eigenvalues()[(i, i)];
    let steps: Vec<f64> = (0..n).map(|k| 0.1 * sigma * d * state.cov_eigenvectors()[(k, i)]).collect();
    let want = (0..n).all(|k| mean[k] == mean[k] + steps[k]);
    // robust to rounding order: only decided when no coordinate is within a factor of rounding
    let clear = (0..n).all(|k| {
        let e = mean[k].abs() * f64::EPSILON;
        steps[k] == 0.0 || mean[k] == 0.0 || steps[k].abs() < 0.2 * e || steps[k].abs() > 4.0 * e
    });
    if clear {
        if want { st.hit("NoEffectAxis met") }
        ensure!(has(TR::NoEffectAxis) == want, "NoEffectAxis reported={}, axis {} steps {:?}", has(TR::NoEffectAxis), i, steps);
    }
    // NoEffectCoord: the documented condition uses the standard deviation, the code the variance (known finding)
    let coord = |f: &dyn Fn(f64) -> f64| -> (bool, bool) {
        let mut any = false;
        let mut clear = true;
        for k in 0..n {
            let s = 0.2 * sigma * f(cov[(k, k)]);
            any |= mean[k] == mean[k] + s;
            let e = mean[k].abs() * f64::EPSILON;
            clear &= mean[k] == 0.0 || s < 0.2 * e || s > 4.0 * e;
        }
        (any, clear)
    };
    let (std, c1) = coord(&|x| x.sqrt());
    let (var, c2) = coord(&|x| x);
    if c1 && c2 {
        if std != var {
            st.hit("NoEffectCoord: variance and standard deviation differ");
        }
        if std == var {
            if std { st.hit("NoEffectCoord met") }
            ensure!(has(TR::NoEffectCoord) == std, "NoEffectCoord reported={}, mean {:?}", has(TR::NoEffectCoord), mean);
        }
    }
    Ok(())
}

/// known finding of C09: exit status 1 when it still shows
pub fn finding_no_effect_coord() -> Option<bool> {
    #[cfg(all(feature = "h_lib", feature = "h_history", feature = "h_state", feature = "h_termination", feature = "h_sampling"))]
    {
        use cmaes::verif_api::*;
        let (mean, sigma, var) = (1.0f64, 1e-6f64, 1e-14f64);
        let c = CMAESOptions::new(vec![mean], sigma).seed(1).build(|_: &DVector<f64>| 0.0).ok()?;
        let m = DVector::from(vec![mean]);
        let state = State::verif_synth(m.clone(), nalgebra::DMatrix::from_element(1, 1, var), sigma, DVector::from(vec![1e3]), 1)?;
        let h = History::verif_synth(vec![], vec![], None, None);
        let inds = vec![EvaluatedPoint::verif_new(m.clone(), 1.0), EvaluatedPoint::verif_new(m, 2.0)];
        let res = cmaes::termination::verif_check(10, std::time::Instant::now(), c.parameters(), &state, &h, &inds);
        // 0.2 standard deviations move the coordinate, so the criterion is not met
        let met = mean == mean + 0.2 * sigma * var.sqrt();
        return Some(res.contains(&TR::NoEffectCoord) != met);
    }
    #[allow(unreachable_code)]
    None
}
pub fn c10(r: &mut Rng, st: &mut Stats) -> Res {
    let n = r.pick(&[0, 1, 2, 3, 5, 10, 40]);
    let special = [0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e-310, -1e-310, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0 + f64::EPSILON, 2.0, 0.1, 1e-5, f64::MAX];
    let valid = r.one_in(2);
    let sigma = if valid { r.pick(&[0.5, 1e-300, 3.0]) } else { r.pick(&special) };
    let cm = if valid { r.pick(&[1.0, 0.5, 1e-300]) } else { r.pick(&special) };
    let pop = if valid { r.int(2, 30) } else { r.pick(&[0, 1, 2, 3, 7, 20]) };
    let mean: Vec<f64> = (0..n).map(|_| r.range(-3.0, 3.0)).collect();
    let mode = if r.bool() { Mode::Minimize } else { Mode::Maximize };
    let weights = r.pick(&[Weights::Positive, Weights::Negative, Weights::Uniform]);
    let mut o = CMAESOptions::new(mean.clone(), 0.7);
    let dn = 4 + (3.0 * (n as f64).ln()).floor() as usize;
    if n > 0 {
        ensure!(o.population_size == dn, "default population size {} for {} dimensions, not {}", o.population_size, n, dn);
    }
    let mut d = (1e-12, 0.0, 1e-12, 1e8, 1e14);
    let (mut mfe, mut mg, mut mt, mut ft, mut tx, mut ts, mut seed) = (None, None, None, None, None, None, None);
    // setters in random order
    let set_cm = valid || r.bool();
    let mut order: Vec<usize> = (0..18).collect();
    for i in (1..order.len()).rev() {
        let j = r.int(0, i);
        order.swap(i, j);
    }
    let mask: Vec<bool> = (0..18).map(|_| r.one_in(2)).collect();
    let val = r.range(1e-3, 9.0);
    let pu = r.bool();
    let mean2: Vec<f64> = mean.iter().map(|x| x + 1.0).collect();
    for k in order {
        o = match k {
            0 => o.mode(mode),
            1 => o.initial_step_size(sigma),
            2 => o.population_size(pop),
            3 => o.weights(weights),
            4 if set_cm => o.cm(cm),
            5 if mask[5] => { mfe = Some(r.int(0, 1000)); o.max_function_evals(mfe.unwrap()) }
            6 if mask[6] => { mg = Some(r.int(0, 1000)); o.max_generations(mg.unwrap()) }
            7 if mask[7] => { mt = Some(Duration::from_millis(r.int(0, 9999) as u64)); o.max_time(mt.unwrap()) }
            8 if mask[8] => { ft = Some(r.range(-5.0, 5.0)); o.fun_target(ft.unwrap()) }
            9 if mask[9] => { d.0 = val; o.tol_fun(val) }
            10 if mask[10] => { d.1 = val * 2.0; o.tol_fun_rel(val * 2.0) }
            11 if mask[11] => { d.2 = val * 3.0; o.tol_fun_hist(val * 3.0) }
            12 if mask[12] => { tx = Some(val * 4.0); o.tol_x(val * 4.0) }
            13 if mask[13] => { ts = Some(r.int(0, 30000)); o.tol_stagnation(ts.unwrap()) }
            14 if mask[14] => { d.3 = val * 5.0; o.tol_x_up(val * 5.0) }
            15 if mask[15] => { d.4 = val * 6.0; o.tol_condition_cov(val * 6.0) }
            16 if mask[16] => { seed = Some(r.u64()); o.seed(seed.unwrap()) }
            17 => o.parallel_update(pu).initial_mean(mean2.clone()),
            _ => o,
        };
    }
    let cm_eff = if set_cm { cm } else { 1.0 };
    st.desc = format!("n {} sigma {:?} pop {} cm {:?} {:?}", n, sigma, pop, cm_eff, mode);
    use cmaes::options::InvalidOptionsError as E;
    let want = if n == 0 {
        Some(E::Dimensions)
    } else if pop < 2 {
        Some(E::PopulationSize)
    } else if !(sigma.is_normal() && sigma > 0.0) {
        Some(E::InitialStepSize)
    } else if !(cm_eff.is_normal() && cm_eff > 0.0 && cm_eff <= 1.0) {
        Some(E::Cm)
    } else {
        None
    };
    let got = o.build(|_: &DVector<f64>| 0.0);
    match (got, want) {
        (Err(e), Some(w)) => ensure!(e == w, "build reported {:?} instead of {:?}", e, w),
        (Err(e), None) => return Err(format!("build failed with {:?} for valid options", e)),
        (Ok(_), Some(w)) => return Err(format!("build succeeded for options invalid by {:?}", w)),
        (Ok(c), None) => {
            st.nontrivial += 1;
            let p = c.parameters();
            ensure!(p.mode() == mode, "mode");
            ensure!(vec_eq(c.mean().as_slice(), &mean2), "initial mean {:?} should be {:?}", c.mean().as_slice(), mean2);
            ensure!(c.sigma() == sigma && p.initial_sigma() == sigma, "initial step size");
            ensure!(p.lambda() == pop, "population size");
            ensure!(p.dim() == n, "dimensions");
            ensure!(p.weights_setting() == weights, "weights setting");
            ensure!(p.cm() == cm_eff, "cm");
            ensure!(p.parallel_update() == pu, "parallel_update");
            ensure!(p.max_function_evals() == mfe, "max_function_evals {:?} {:?}", p.max_function_evals(), mfe);
            ensure!(p.max_generations() == mg, "max_generations {:?} {:?}", p.max_generations(), mg);
            ensure!(p.max_time() == mt, "max_time");
            ensure!(p.fun_target() == ft, "fun_target");
            ensure!(p.tol_fun() == d.0, "tol_fun {} {}", p.tol_fun(), d.0);
            ensure!(p.tol_fun_rel() == d.1, "tol_fun_rel {} {}", p.tol_fun_rel(), d.1);
            ensure!(p.tol_fun_hist() == d.2, "tol_fun_hist {} {}", p.tol_fun_hist(), d.2);
            ensure!(p.tol_x() == tx.unwrap_or(1e-12 * sigma), "tol_x {}", p.tol_x());
            let def = 100 + (100.0 * (n as f64).powf(1.5) / pop as f64).ceil() as usize;
            ensure!(p.tol_stagnation() == ts.unwrap_or(def), "tol_stagnation {} {}", p.tol_stagnation(), ts.unwrap_or(def));
            ensure!(p.tol_x_up() == d.3, "tol_x_up");
            ensure!(p.tol_condition_cov() == d.4, "tol_condition_cov");
            if let Some(s) = seed {
                ensure!(p.seed() == s, "seed");
            }
            ensure!(c.generation() == 0 && c.function_evals() == 0, "a built object has run");
            ensure!(mat_of(c.covariance_matrix()) == identity(n), "initial covariance is not the identity");
            ensure!(c.axis_ratio() == 1.0, "initial axis ratio");
        }
    }
    Ok(())
}

pub fn c11(r: &mut Rng, st: &mut Stats) -> Res {
    let n = if r.one_in(3) { r.int(1, 6) } else { r.int(1, 80) };
    let l = if r.one_in(3) { r.int(2, 8) } else { r.int(2, 150) };
    let w = r.pick(&[Weights::Positive, Weights::Negative, Weights::Uniform]);
    st.desc = format!("n {} lambda {} {:?}", n, l, w);
    let c = CMAESOptions::new(vec![0.0; n], 1.0).population_size(l).weights(w).seed(1).build(|_: &DVector<f64>| 0.0).map_err(|e| format!("{:?}", e))?;
    let p = c.parameters();
    st.nontrivial += 1;
    let mu = l / 2;
    let nf = n as f64;
    ensure!(p.mu() == mu, "mu {} for lambda {}", p.mu(), l);
    let ws = p.weights();
    ensure!(ws.len() == if w == Weights::Negative { l } else { mu }, "{} weights", ws.len());
    let raw: Vec<f64> = (1..=ws.len()).map(|i| if w == Weights::Uniform { 1.0 } else { ((l as f64 + 1.0) / 2.0).ln() - (i as f64).ln() }).collect();
    let sp: f64 = raw[..mu].iter().sum();
    let mu_eff = sp * sp / raw[..mu].iter().map(|x| x * x).sum::<f64>();
    ensure!(close(p.mu_eff(), mu_eff, 1e-9), "mu_eff {} should be {}", p.mu_eff(), mu_eff);
    ensure!(mu_eff >= 1.0 - 1e-9 && mu_eff <= mu as f64 + 1e-9, "mu_eff range");
    for i in 0..mu {
        ensure!(ws[i] > 0.0, "selection weight {} is {}", i, ws[i]);
        ensure!(i == 0 || ws[i] <= ws[i - 1], "weights increase at {}", i);
        ensure!(close(ws[i], raw[i] / sp, 1e-9), "weight {} is {} not {}", i, ws[i], raw[i] / sp);
    }
    ensure!(close(ws.iter().take(mu).sum::<f64>(), 1.0, 1e-9), "positive weights sum to {}", ws.iter().take(mu).sum::<f64>());
    let cc = (4.0 + mu_eff / nf) / (nf + 4.0 + 2.0 * mu_eff / nf);
    let c1 = 2.0 / ((nf + 1.3).powi(2) + mu_eff);
    let cmu = (1.0 - c1).min(2.0 * (mu_eff - 2.0 + 1.0 / mu_eff) / ((nf + 2.0).powi(2) + 2.0 * mu_eff / 2.0));
    let cs = (mu_eff + 2.0) / (nf + mu_eff + 5.0);
    let ds = 1.0 + cs + 2.0 * (((mu_eff - 1.0) / (nf + 1.0)).max(0.0).sqrt() - 1.0).max(0.0);
    for (name, got, want) in [("cc", p.cc(), cc), ("c1", p.c1(), c1), ("cmu", p.cmu(), cmu), ("cs", p.cs(), cs), ("damp_s", p.damp_s(), ds)] {
        ensure!(close(got, want, 1e-9) || (name == "damp_s" && got.is_nan() && l < 4), "{} is {} not {}", name, got, want);
    }
    ensure!(p.c1() > 0.0 && p.cmu() >= -1e-15 && p.c1() + p.cmu() <= 1.0 + 1e-12, "c1 + cmu");
    ensure!(p.cc() > 0.0 && p.cc() <= 1.0 && p.cs() > 0.0 && p.cs() < 1.0, "cc, cs ranges");
    ensure!(p.damp_s() >= 1.0, "damp_s {}", p.damp_s());
    if w == Weights::Negative {
        let neg: Vec<f64> = ws.iter().skip(mu).cloned().collect();
        let rn = &raw[mu..];
        for i in 0..neg.len() {
            ensure!(neg[i] <= 0.0, "weight {} is {}", mu + i, neg[i]);
            ensure!(i == 0 || neg[i] <= neg[i - 1], "weights increase at {}", mu + i);
        }
        let sn: f64 = rn.iter().sum();
        if l >= 4 {
            let me = sn * sn / rn.iter().map(|x| x * x).sum::<f64>();
            let a = (1.0 + c1 / cmu).min(1.0 + 2.0 * me / (mu_eff + 2.0)).min((1.0 - c1 - cmu) / (nf * cmu));
            let total: f64 = -neg.iter().sum::<f64>();
            ensure!(close(total, a, 1e-8), "negative weights sum to -{} not -{}", total, a);
            for i in 0..neg.len() {
                ensure!(close(neg[i], rn[i] * a / sn.abs(), 1e-8), "weight {} is {}", mu + i, neg[i]);
            }
        }
    }
    Ok(())
}

pub fn c12(r: &mut Rng, st: &mut Stats) -> Res {
    let mut s = Scn::gen(r);
    s.obj = r.pick(&[Obj::Sphere, Obj::Ellipsoid, Obj::Rosen, Obj::Noise, Obj::Noise, Obj::Linear]);
    s.sigma0 = r.pick(&[0.3, 1.0, 2.0]);
    s.lambda = r.pick(&[2, 3, 4, 5, 6, 7, 9, 12, 20]);
    s.gens = r.int(1, 25);
    s.past_end = true;
    st.desc = format!("{:?}", s);
    refcma::check(&s, st)
}

pub fn c13(r: &mut Rng, st: &mut Stats) -> Res {
    #[cfg(all(feature = "h_lib", feature = "h_state"))]
    match r.int(0, 3) {
        0 | 1 => return c13_matrix(r, st),
        2 => return c13_poison(r, st),
        _ => {}
    }
    let mut s = Scn::gen(r);
    s.obj = r.pick(&[Obj::Sphere, Obj::Ellipsoid, Obj::Rosen, Obj::Noise, Obj::Linear]);
    s.past_end = true;
    st.desc = format!("{:?}", s);
    let t = trace(&s)?;
    for (k, g) in t.gens.iter().enumerate() {
        if g.has(TR::PosDefCov) {
            let d = g.data.as_ref().unwrap();
            ensure!(d.reasons == vec![TR::PosDefCov], "gen {}: reasons {:?}", k, d.reasons);
            ensure!(vec_eq(&g.before.eig, &g.after.eig), "gen {}: eigenvalues changed by a failed decomposition", k);
            continue;
        }
        st.nontrivial += 1;
        ensure!(g.after.eig.iter().all(|x| *x > 0.0), "gen {}: eigenvalues in use are {:?}", k, g.after.eig);
        if !vec_eq(&g.before.eig, &g.after.eig) {
            let mut want = lib_eigen(&g.after.cov).0;
            let mut got = g.after.eig.clone();
            want.sort_by(|a, b| a.partial_cmp(b).unwrap());
            got.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let top = want.last().unwrap().abs();
            ensure!(want.iter().zip(&got).all(|(a, b)| (a - b).abs() <= 1e-9 * top), "gen {}: eigenvalues {:?} of a covariance with {:?}", k, got, want);
        }
    }
    Ok(())
}
#[cfg(all(feature = "h_lib", feature = "h_state"))]
fn basis_of(c: &cmaes::verif_api::CovarianceMatrix) -> (Mat, Mat, Mat, Mat) {
    (mat_of(c.eigenvectors()), mat_of(c.sqrt_eigenvalues()), mat_of(c.transform()), mat_of(c.sqrt_inv()))
}
#[cfg(all(feature = "h_lib", feature = "h_state"))]
fn c13_matrix(r: &mut Rng, st: &mut Stats) -> Res {
    use cmaes::verif_api::*;
    let n = r.int(1, 6);
    let mut c = CovarianceMatrix::new(n);
    let mut log = String::new();
    for step in 0..r.int(1, 5) {
        let bad = r.one_in(3);
        let mut vals: Vec<f64> = (0..n).map(|_| 10f64.powf(r.range(-3.0, 3.0))).collect();
        if r.one_in(5) {
            let v = vals[0];
            vals = vec![v; n];
        }
        if bad {
            let k = r.int(0, n - 1);
            vals[k] = r.pick(&[-1.0, -1e-2, -100.0]);
            if r.one_in(3) {
                vals[k] = 0.0;
            }
        }
        let rot = if r.bool() && vals.iter().all(|v| *v != 0.0) { random_rotation(r, n) } else { identity(n) };
        let m = from_eigen(&vals, &rot);
        // garbage below the diagonal: the stored matrix must still be symmetric
        let junk = r.bool();
        let new = nalgebra::DMatrix::from_fn(n, n, |i, j| if i <= j { m[i][j] } else if junk { 1e3 } else { m[j][i] });
        let update = !r.one_in(4);
        log += &format!("[eigenvalues {:?} update {} junk {}] ", vals, update, junk);
        st.desc = format!("n {} set_cov sequence {}", n, log);
        let before = basis_of(&c);
        let res = c.set_cov(new, update);
        let after = basis_of(&c);
        let cov = mat_of(c.cov());
        for i in 0..n {
            for j in 0..n {
                ensure!(cov[i][j] == m[i.min(j)][i.max(j)], "step {}: stored covariance differs at {},{}", step, i, j);
            }
        }
        let pd = vals.iter().all(|v| *v > 0.0);
        st.nontrivial += 1;
        if !update {
            ensure!(res.is_ok(), "step {}: error without a decomposition", step);
            ensure!(before == after, "step {}: eigenbasis changed without a refresh", step);
            continue;
        }
        ensure!(res.is_ok() == pd, "step {}: eigenvalues {:?} gave ok={}", step, vals, res.is_ok());
        if !pd {
            ensure!(before == after, "step {}: failed refresh changed the eigenbasis in use", step);
            st.hit("rejected");
            continue;
        }
        let (b, d, t, si) = after;
        let top = vals.iter().cloned().fold(0.0, f64::max);
        let low = vals.iter().cloned().fold(f64::INFINITY, f64::min);
        let tol = 1e-10 * top;
        let bt = transpose(&b);
        let bd = matmul(&b, &d);
        let eq = |x: &Mat, y: &Mat, tol: f64| x.iter().flatten().zip(y.iter().flatten()).all(|(p, q)| (p - q).abs() <= tol);
        ensure!(eq(&matmul(&b, &bt), &identity(n), 1e-10), "step {}: eigenvectors are not orthonormal", step);
        let lib = lib_eigen(&cov);
        let back = matmul(&bd, &transpose(&bd));
        ensure!(eq(&back, &cov, tol) || eq(&back, &from_eigen(&lib.0, &lib.1), tol), "step {}: B D^2 B^T is not the covariance", step);
        ensure!(eq(&t, &bd, 1e-10 * top.sqrt()), "step {}: transform is not B D", step);
        let mut want = identity(n);
        for i in 0..n {
            want[i][i] = 1.0 / d[i][i];
            for j in 0..n {
                ensure!(i == j || d[i][j] == 0.0, "step {}: axis lengths are not diagonal", step);
            }
        }
        ensure!(eq(&si, &matmul(&matmul(&b, &want), &bt), 1e-9 / low.sqrt()), "step {}: inverse square root is not B D^-1 B^T", step);
    }
    Ok(())
}
#[cfg(all(feature = "h_lib", feature = "h_state"))]
fn c13_poison(r: &mut Rng, st: &mut Stats) -> Res {
    let mut s = Scn::gen(r);
    s.obj = r.pick(&[Obj::Sphere, Obj::Noise, Obj::Linear]);
    s.lambda = r.int(4, 9);
    s.max_function_evals = Some(1);
    st.desc = format!("covariance made negative before a step: {:?}", s);
    let rec = Rec::new(s.obj.clone(), s.lambda);
    let mut c = s.options(&Default::default()).build(rec).map_err(|e| format!("{:?}", e))?;
    let k = r.int(0, 3);
    for _ in 0..k {
        let _ = c.next();
    }
    let n = s.dim();
    c.verif_state_mut().verif_set_cov(nalgebra::DMatrix::identity(n, n) * -1e9);
    for _ in 0..400 {
        let before = snap(&c);
        let d = c.next();
        let after = snap(&c);
        if vec_eq(&before.eig, &after.eig) && d.as_ref().map_or(true, |d| !d.reasons.contains(&TR::PosDefCov)) {
            continue;
        }
        let d = d.ok_or("a refresh with a negative definite covariance did not terminate the step")?;
        ensure!(d.reasons == vec![TR::PosDefCov], "reasons {:?} for a negative definite covariance", d.reasons);
        ensure!(before.basis == after.basis && vec_eq(&before.eig, &after.eig), "a failed refresh changed the eigenbasis in use");
        ensure!(same_ind(&after.cur, d.current_best.as_ref()) && same_ind(&after.over, d.overall_best.as_ref()) && vec_eq(&after.mean, d.final_mean.as_slice()), "PosDefCov data differs from the object");
        st.nontrivial += 1;
        return Ok(());
    }
    Ok(())
}

pub fn c18(r: &mut Rng, st: &mut Stats) -> Res {
    let mut s = Scn::gen(r);
    s.mode = Mode::Maximize;
    s.par_update = false;
    s.par_eval = r.one_in(3);
    if s.par_eval && s.obj.by_call() {
        s.obj = Obj::Sphere;
    }
    if r.one_in(3) {
        s.con = Con::Half(s.mean[0] + 0.2 * s.sigma0);
    }
    s.fun_target = r.pick(&[None, None, Some(0.0), Some(-1.0), Some(1.0), Some(3.0)]);
    s.tol_fun = r.pick(&[None, Some(0.5), Some(1e-3)]);
    s.tol_fun_rel = r.pick(&[None, Some(1e-2), Some(0.5)]);
    s.tol_fun_hist = r.pick(&[None, Some(0.5)]);
    s.tol_stagnation = r.pick(&[None, Some(4), Some(10)]);
    s.gens = r.int(5, 120);
    st.desc = format!("{:?} against minimizing the negation", s);
    let mut m = s.clone();
    m.mode = Mode::Minimize;
    m.fun_target = s.fun_target.map(|x| -x);
    let run = |s: &Scn, neg: bool| -> Result<Vec<(Snap, Option<TerminationData>, Vec<(Vec<f64>, f64)>)>, String> {
        let mut rec = Rec::new(s.obj.clone(), s.lambda);
        rec.negate = neg;
        let log = rec.log.clone();
        let mut c = s.options(&Default::default()).build(rec).map_err(|e| format!("{:?}", e))?;
        let mut out = vec![];
        for _ in 0..s.gens {
            log.lock().unwrap().clear();
            let d = if s.par_eval { c.next_parallel() } else { c.next() };
            let end = d.is_some();
            let mut l = log.lock().unwrap().clone();
            if s.par_eval {
                l.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
            }
            out.push((snap(&c), d, l));
            if end {
                break;
            }
        }
        Ok(out)
    };
    let a = run(&s, false)?;
    let b = run(&m, true)?;
    ensure!(a.len() == b.len(), "maximizing took {} steps, minimizing the negation {}", a.len(), b.len());
    for (k, (x, y)) in a.iter().zip(&b).enumerate() {
        st.nontrivial += 1;
        ensure!(x.2.len() == y.2.len() && x.2.iter().zip(&y.2).all(|(p, q)| vec_eq(&p.0, &q.0)), "step {}: different points were sampled", k);
        ensure!(vec_eq(&x.0.mean, &y.0.mean) && bits_eq(x.0.sigma, y.0.sigma) && x.0.cov == y.0.cov && x.0.evals == y.0.evals, "step {}: different distribution states", k);
        let rs = |d: &Option<TerminationData>| d.as_ref().map(|d| d.reasons.clone());
        ensure!(rs(&x.1) == rs(&y.1), "step {}: reasons {:?} and {:?}", k, rs(&x.1), rs(&y.1));
        for (p, q) in [(&x.0.cur, &y.0.cur), (&x.0.over, &y.0.over)] {
            let ok = match (p, q) {
                (None, None) => true,
                (Some(p), Some(q)) => vec_eq(&p.0, &q.0) && p.1 == -q.1,
                _ => false,
            };
            ensure!(ok, "step {}: best individuals {:?} and {:?}", k, p, q);
        }
    }
    Ok(())
}

pub fn c19(r: &mut Rng, st: &mut Stats) -> Res {
    let mut s = Scn::gen(r);
    s.par_update = false;
    s.obj = r.pick(&[Obj::Sphere, Obj::Ellipsoid, Obj::Rosen, Obj::Const(0.0), Obj::Floor(0.25), Obj::Linear, Obj::NegSphere, Obj::InfRegion, Obj::Noise, Obj::Tiny]);
    if r.one_in(3) {
        s.con = Con::Half(s.mean[0] + 0.2 * s.sigma0);
    }
    s.tol_fun_hist = r.pick(&[None, Some(0.5)]);
    s.max_generations = Some(r.int(5, 60));
    let drawn = r.one_in(3);
    st.desc = format!("seed drawn by the object: {}, {:?}", drawn, s);
    type Out = (Vec<(Vec<f64>, f64)>, Snap, TerminationData);
    let go = |seed: Option<u64>, par: bool| -> Result<(Out, u64), String> {
        let rec = Rec::new(s.obj.clone(), s.lambda);
        let log = rec.log.clone();
        let mut o = s.options(&Default::default());
        o.seed = seed;
        let mut c = o.build(rec).map_err(|e| format!("{:?}", e))?;
        let seed = c.parameters().seed();
        let d = if par { c.run_parallel() } else { c.run() };
        let l = log.lock().unwrap().clone();
        Ok(((l, snap(&c), d), seed))
    };
    let (mut a, seed) = go(if drawn { None } else { Some(s.seed) }, false)?;
    if !drawn {
        ensure!(seed == s.seed, "seed {} reported for seed {}", seed, s.seed);
    } else {
        let (_, seed2) = go(None, false)?;
        ensure!(seed != seed2, "two drawn seeds are equal: {}", seed);
    }
    let (mut b, _) = go(Some(seed), false)?;
    let (mut p, _) = go(Some(seed), true)?;
    st.nontrivial += 1;
    let same = |x: &Out, y: &Out, what: &str| -> Res {
        ensure!(x.0.len() == y.0.len(), "{}: {} and {} evaluations", what, x.0.len(), y.0.len());
        for (k, (u, v)) in x.0.iter().zip(&y.0).enumerate() {
            ensure!(vec_eq(&u.0, &v.0) && bits_eq(u.1, v.1), "{}: evaluation {} differs: {:?} and {:?}", what, k, u, v);
        }
        let (sx, sy) = (&x.1, &y.1);
        ensure!(vec_eq(&sx.mean, &sy.mean) && sx.cov == sy.cov && bits_eq(sx.sigma, sy.sigma) && sx.generation == sy.generation && sx.evals == sy.evals && vec_eq(&sx.eig, &sy.eig), "{}: final states differ", what);
        ensure!(same_opt(&sx.cur, &sy.cur) && same_opt(&sx.over, &sy.over), "{}: best individuals differ", what);
        ensure!(x.2.reasons == y.2.reasons, "{}: reasons {:?} and {:?}", what, x.2.reasons, y.2.reasons);
        Ok(())
    };
    same(&a, &b, "same seed")?;
    for o in [&mut a, &mut b, &mut p] {
        o.0.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap_or(std::cmp::Ordering::Equal));
    }
    same(&a, &p, "run_parallel against run")?;
    if !s.con_recorded() && s.obj == Obj::Noise {
        let (c, _) = go(Some(seed ^ 1), false)?;
        ensure!(!vec_eq(&c.1.mean, &a.1.mean), "two different seeds give the same run");
    }
    Ok(())
}

pub fn c20(r: &mut Rng, st: &mut Stats) -> Res {
    let mut s = Scn::gen(r);
    s.obj = Obj::any_valid(r);
    s.plot_gap = Some(r.pick(&[0, 1, s.lambda, 2 * s.lambda, 2 * s.lambda + 1, 50, 500]));
    s.past_end = true;
    let gap = s.plot_gap.unwrap();
    let n = s.dim();
    let use_run = r.one_in(3);
    let clear_every = r.pick(&[0usize, 0, 3, 5]);
    st.desc = format!("run() {} clear every {} {:?}", use_run, clear_every, s);
    let rec = Rec::new(s.obj.clone(), s.lambda);
    if use_run {
        s.max_generations = Some(r.int(1, 30));
    }
    let mut c = s.options(&Default::default()).build(rec).map_err(|e| format!("{:?}", e))?;
    #[cfg(feature = "h_lib")]
    let off = |x: f64| if x >= 0.0 { x + 1e-20 } else { x - 1e-20 };
    // expected entries
    let mut exp: Vec<Snap> = vec![snap(&c)];
    let verify = |c: &CMAES<Rec>, exp: &[Snap], k: usize| -> Res {
        let plot = c.get_plot().ok_or("no plot")?;
        ensure!(plot.len() == exp.len(), "step {}: {} recorded points, {} expected (evals {:?}, gap {})", k, plot.len(), exp.len(), exp.iter().map(|e| e.evals).collect::<Vec<_>>(), gap);
        ensure!(plot.is_empty() == exp.is_empty(), "is_empty");
        #[cfg(all(feature = "h_plot", feature = "h_lib"))]
        {
            let (ev, single, means, eig, axes) = plot.verif_series();
            let want: Vec<usize> = exp.iter().map(|e| e.evals).collect();
            ensure!(ev == want, "step {}: function evals {:?} should be {:?}", k, ev, want);
            let ser = |f: &dyn Fn(&Snap) -> f64| -> Vec<f64> { exp.iter().map(|e| f(e)).collect() };
            let cmp = |name: &str, got: &[f64], want: Vec<f64>| -> Res {
                ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| rel_close(*a, *b, 1e-12)), "step {}: {} series {:?} should be {:?}", k, name, got, want);
                Ok(())
            };
            cmp("best value", &single[0], ser(&|e| e.cur.as_ref().map_or(f64::NAN, |c| off(c.1))))?;
            cmp("median value", &single[1], ser(&|e| e.hist.1.first().map_or(f64::NAN, |c| off(*c))))?;
            cmp("sigma", &single[2], ser(&|e| off(e.sigma)))?;
            cmp("axis ratio", &single[3], ser(&|e| off(e.ratio)))?;
            ensure!(means.len() == n && eig.len() == n && axes.len() == n, "number of dimensions recorded");
            for d in 0..n {
                cmp("mean", &means[d], ser(&|e| e.mean[d]))?;
                cmp("axis length", &eig[d], ser(&|e| {
                    let mut v: Vec<f64> = (0..n).map(|i| e.basis.1[i][i]).collect();
                    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    off(v[d])
                }))?;
                cmp("coordinate std dev", &axes[d], ser(&|e| off(e.cov[d][d].sqrt())))?;
            }
        }
        Ok(())
    };
    verify(&c, &exp, 0)?;
    let mut last = (0usize, 0usize); // evals, generation of the last recorded point
    if use_run {
        // replay of the same deterministic run, step by step, gives the expected entries
        let mut t = s.clone();
        t.plot_gap = None;
        t.par_update = false;
        if s.par_update || s.obj.by_call() {
            return Ok(());
        }
        t.past_end = false;
        t.gens = 100000;
        let tr = trace(&t)?;
        for g in &tr.gens {
            if g.has(TR::PosDefCov) || g.invalid() {
                continue;
            }
            let a = &g.after;
            if a.generation <= 1 || a.evals >= last.0 + gap {
                exp.push(a.clone());
                last = (a.evals, a.generation);
            }
        }
        let d = if s.par_eval { c.run_parallel() } else { c.run() };
        if d.reasons.contains(&TR::PosDefCov) {
            return Ok(());
        }
        let fin = snap(&c);
        if fin.generation != last.1 {
            exp.push(fin);
        }
        st.nontrivial += 1;
        return verify(&c, &exp, 1);
    }
    for k in 1..=s.gens {
        let d = if s.par_eval { c.next_parallel() } else { c.next() };
        if d.map_or(false, |d| d.reasons.contains(&TR::PosDefCov)) {
            break;
        }
        let a = snap(&c);
        if !a.sigma.is_finite() || a.sigma < 1e-200 || a.mean.iter().chain(&a.eig).any(|x| !x.is_finite()) {
            break;
        }
        if a.generation <= 1 || a.evals >= last.0 + gap {
            last = (a.evals, a.generation);
            exp.push(a);
        }
        st.nontrivial += 1;
        verify(&c, &exp, k)?;
        if clear_every > 0 && k % clear_every == 0 {
            c.get_mut_plot().ok_or("no plot")?.clear();
            exp = vec![exp.pop().unwrap()];
            verify(&c, &exp, k)?;
        }
        if r.one_in(6) {
            // adding a point by hand: recorded unless this generation already is
            let a = snap(&c);
            c.add_plot_point();
            if a.generation != last.1 {
                last = (a.evals, a.generation);
                exp.push(a);
            }
            verify(&c, &exp, k)?;
        }
    }
    Ok(())
}

pub fn c21(r: &mut Rng, st: &mut Stats) -> Res {
    use cmaes::objective_function::Scale;
    let n = r.int(1, 5);
    let scales: Vec<f64> = (0..n).map(|_| r.pick(&[1.0, 0.0, -2.0, 1e-3, 1e6, 0.5])).collect();
    let kind = r.int(0, 9);
    if kind < 8 {
        let x: Vec<f64> = (0..n).map(|_| r.pick(&[0.0, 1.0, -3.5, 1e-8, 7.25])).collect();
        let obj = Obj::smooth(r);
        st.desc = format!("Scale of {:?} with {:?} on {:?}", obj, scales, x);
        let want: Vec<f64> = x.iter().zip(&scales).map(|(a, b)| a * b).collect();
        let dx = DVector::from(x.clone());
        for way in 0..4 {
            let rec = Rec::new(obj.clone(), 1);
            let log = rec.log.clone();
            let mut s = Scale::new(rec, scales.clone());
            ensure!(vec_eq(s.scales().as_slice(), &scales), "scales()");
            ensure!(vec_eq(s.scale(&dx).as_slice(), &want), "scale() gives {:?}", s.scale(&dx).as_slice());
            let v = match way {
                0 => s.evaluate(&dx),
                1 => s.evaluate_parallel(&dx),
                2 => ObjectiveFunction::evaluate(&mut &mut s, &dx),
                _ => ParallelObjectiveFunction::evaluate_parallel(&&s, &dx),
            };
            let l = log.lock().unwrap().clone();
            ensure!(l.len() == 1, "way {}: {} calls of the wrapped function", way, l.len());
            ensure!(vec_eq(&l[0].0, &want), "way {}: wrapped function called on {:?}, not {:?}", way, l[0].0, want);
            ensure!(bits_eq(v, obj.eval(&want, 0, 1)), "way {}: value {} returned", way, v);
            let f = s.into_wrapped_function();
            ensure!(f.own == if way % 2 == 0 { 1 } else { 0 }, "way {}: state of the wrapped function", way);
        }
        let mut b: Box<dyn ObjectiveFunction> = Box::new(Rec::new(obj.clone(), 1));
        ensure!(bits_eq(b.evaluate(&dx), obj.eval(&x, 0, 1)), "boxed objective");
        let b: Box<dyn ParallelObjectiveFunction> = Box::new(Rec::new(obj.clone(), 1));
        ensure!(bits_eq(b.evaluate_parallel(&dx), obj.eval(&x, 0, 1)), "boxed parallel objective");
        // taking the objective back
        let mut c = CMAESOptions::new(x.clone(), 1.0).seed(r.u64()).build(Rec::new(obj.clone(), 1)).map_err(|e| format!("{:?}", e))?;
        let g = r.int(0, 4);
        for _ in 0..g {
            let _ = c.next();
        }
        let ev = c.function_evals();
        let f = c.into_objective_function();
        ensure!(f.own == ev, "objective state after {} evaluations: {}", ev, f.own);
        st.nontrivial += 1;
        return Ok(());
    }
    // fmin / fmax
    let mean: Vec<f64> = (0..n).map(|_| r.range(-2.0, 2.0)).collect();
    let way = r.int(0, 3);
    st.desc = format!("{} from {:?}", ["fmin", "fmax", "fmin_parallel", "fmax_parallel"][way], mean);
    let mut rec = Rec::new(Obj::Sphere, 1);
    rec.negate = way % 2 == 1;
    let log = rec.log.clone();
    let ind = match way {
        0 => cmaes::fmin(rec, mean, 0.5),
        1 => cmaes::fmax(rec, mean, 0.5),
        2 => cmaes::fmin_parallel(rec, mean, 0.5),
        _ => cmaes::fmax_parallel(rec, mean, 0.5),
    };
    let l = log.lock().unwrap().clone();
    let m = if way % 2 == 0 { Mode::Minimize } else { Mode::Maximize };
    ensure!(l.iter().any(|e| vec_eq(&e.0, ind.point.as_slice()) && e.1 == ind.value), "the result was not evaluated");
    ensure!(!l.iter().any(|e| better(m, e.1, ind.value)), "an evaluated point is better than the result {}", ind.value);
    let lam = 4 + (3.0 * (n as f64).ln()).floor() as usize;
    ensure!(l.len() % lam == 0, "{} evaluations with a default population of {}", l.len(), lam);
    st.nontrivial += 1;
    Ok(())
}

pub fn c22(r: &mut Rng, st: &mut Stats) -> Res {
    let mut s = Scn::gen(r);
    s.obj = if r.one_in(4) { Obj::NanAt(r.int(0, 80)) } else { Obj::any_valid(r) };
    s.max_generations = r.pick(&[None, Some(r.clone().int(1, 20))]);
    s.fun_target = r.pick(&[None, Some(0.5)]);
    s.tol_fun_hist = r.pick(&[None, Some(1.0)]);
    s.tol_x = r.pick(&[None, Some(0.2)]);
    s.gens = 60;
    if r.one_in(4) {
        s.plot_gap = Some(10);
    }
    st.desc = format!("{:?}", s);
    let t = trace(&s)?;
    for (k, g) in t.gens.iter().enumerate() {
        match &g.data {
            None => {}
            Some(d) => {
                st.nontrivial += 1;
                ensure!(!d.reasons.is_empty(), "step {}: data without a reason", k);
                let mut u = d.reasons.clone();
                u.sort_by_key(|x| format!("{:?}", x));
                u.dedup();
                ensure!(u.len() == d.reasons.len(), "step {}: reasons {:?}", k, d.reasons);
                ensure!(vec_eq(&g.after.mean, d.final_mean.as_slice()), "step {}: final mean {:?} but mean() is {:?}", k, d.final_mean.as_slice(), g.after.mean);
                ensure!(same_ind(&g.after.cur, d.current_best.as_ref()), "step {}: current best of the data differs from the object's", k);
                ensure!(same_ind(&g.after.over, d.overall_best.as_ref()), "step {}: overall best of the data differs from the object's", k);
            }
        }
    }
    // run: data of the first terminating step, no further step
    if !s.par_update && !(s.par_eval && s.obj.by_call()) {
        let first = match t.gens.iter().position(|g| g.data.is_some()) {
            Some(x) => x,
            None => return Ok(()),
        };
        let rec = Rec::new(s.obj.clone(), s.lambda);
        let log = rec.log.clone();
        let mut c = s.options(&Default::default()).build(rec).map_err(|e| format!("{:?}", e))?;
        let d = if s.par_eval { c.run_parallel() } else { c.run() };
        let g = &t.gens[first];
        let w = g.data.as_ref().unwrap();
        ensure!(d.reasons == w.reasons, "run(): reasons {:?}, the first terminating step has {:?}", d.reasons, w.reasons);
        ensure!(vec_eq(d.final_mean.as_slice(), w.final_mean.as_slice()), "run(): final mean differs");
        let total: usize = t.gens[..=first].iter().map(|g| g.evals.len()).sum();
        ensure!(log.lock().unwrap().len() == total, "run(): {} evaluations, the first terminating step is after {}", log.lock().unwrap().len(), total);
        let a = snap(&c);
        ensure!(vec_eq(&a.mean, d.final_mean.as_slice()) && same_ind(&a.cur, d.current_best.as_ref()) && same_ind(&a.over, d.overall_best.as_ref()), "run(): data differs from the object");
    }
    Ok(())
}
