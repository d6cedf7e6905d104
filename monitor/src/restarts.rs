//! C14 - C17: restart strategies and the restarter
use crate::checks::ensure;
use crate::scen::*;
use crate::util::*;
use cmaes::restart::options::InvalidRestartOptionsError;
use cmaes::restart::*;
use cmaes::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

/// what the options given to a run turned into
#[derive(Clone, Debug)]
#[allow(dead_code)]
pub struct RunInfo {
    pub lambda: usize,
    pub sigma: f64,
    pub max_evals: Option<usize>,
    pub evals: usize,
    pub done: bool,
}

/// drives a strategy directly, through the hook
#[cfg(feature = "h_restart")]
fn drive(strategy: &mut RestartStrategy, dim: usize, pop: Option<usize>, per_run: Option<usize>, size: f64, seed: u64, gens: usize) -> Result<RunInfo, String> {
    let mut o = CMAESOptions::new(vec![0.5; dim], 0.123).seed(seed);
    if let Some(p) = pop {
        o = o.population_size(p);
    }
    o.max_function_evals = per_run;
    let out = Rc::new(RefCell::new(None));
    let out2 = out.clone();
    let (c, reasons, done) = verif_next_run(
        strategy,
        o,
        size,
        |x: &DVector<f64>| hash_point(x.as_slice()),
        move |c: &mut CMAES<_>| {
            let p = c.parameters();
            *out2.borrow_mut() = Some((p.lambda(), p.initial_sigma(), p.max_function_evals()));
            let mut last = None;
            for _ in 0..gens.max(1) {
                last = c.next();
                if last.is_some() {
                    break;
                }
            }
            let best = c.overall_best_individual().cloned();
            let mut d = last.unwrap_or(TerminationData { current_best: best.clone(), overall_best: best, final_mean: c.mean().clone(), reasons: vec![] });
            d.reasons.push(TerminationReason::MaxTime);
            d
        },
        seed,
    );
    let i = out.borrow().clone().ok_or("the run was not executed")?;
    ensure!(reasons.contains(&TerminationReason::MaxTime), "the reasons of the run are not handed back: {:?}", reasons);
    Ok(RunInfo { lambda: i.0, sigma: i.1, max_evals: i.2, evals: c.function_evals(), done })
}

fn counting(strategy: RestartStrategy, dim: usize, seed: u64, pop: Option<usize>) -> Result<(Vec<usize>, RestartResults), String> {
    let mut o = RestartOptions::new(dim, -2.0..=3.0, strategy).max_generations_per_run(1).seed(seed);
    if let Some(p) = pop {
        o = o.default_options(CMAESOptions::new(vec![0.0; dim], 1.0).population_size(p));
    }
    let logs: Rc<RefCell<Vec<std::sync::Arc<std::sync::Mutex<Vec<(Vec<f64>, f64)>>>>>> = Default::default();
    let l2 = logs.clone();
    let res = o.build().map_err(|e| format!("{:?}", e))?.run(move || {
        let rec = Rec::new(Obj::Noise, 1);
        l2.borrow_mut().push(rec.log.clone());
        rec
    });
    let sizes = logs.borrow().iter().map(|l| l.lock().unwrap().len()).collect();
    Ok((sizes, res))
}

pub fn c14(r: &mut Rng, st: &mut Stats) -> Res {
    let dim = r.int(1, 4);
    let def = 4 + (3.0 * (dim as f64).ln()).floor() as usize;
    let special = [0.0, -0.0, 1.0, -1.0, 1e-310, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.5, 2.0, 1e-3];
    match r.int(0, 4) {
        0 => {
            // constructors
            let f = r.int(0, 3);
            st.desc = format!("IPOP::new({})", f);
            ensure!(IPOP::new(f).is_ok() == (f != 0), "IPOP::new({}) ok={}", f, IPOP::new(f).is_ok());
            let x = r.pick(&special);
            let runs = r.int(0, 3);
            st.desc += &format!(" Local::new({}, {:?})", runs, x);
            let ok = x.is_normal() && x > 0.0;
            ensure!(Local::new(runs, Some(x)).is_ok() == ok, "Local::new({}, {:?}) ok={}", runs, x, !ok);
            ensure!(Local::new(runs, None).is_ok(), "Local::new without factor fails");
            ensure!(BIPOP::new(Some(x), None).is_ok() == ok, "BIPOP::new({:?}, None) ok={}", x, !ok);
            ensure!(BIPOP::new(None, Some(f)).is_ok() == (f != 0), "BIPOP::new(None, {})", f);
            ensure!(BIPOP::new(Some(x), Some(f)).is_ok() == (ok && f != 0), "BIPOP::new({:?}, {})", x, f);
            st.nontrivial += 1;
        }
        1 => {
            // public interface: population of every run, number of runs
            let f = r.pick(&[1usize, 2, 2, 3]);
            let pop = if f == 3 { Some(2) } else { r.pick(&[None, Some(2), Some(5)]) };
            let use_default = f == 2 && r.bool();
            st.desc = format!("Restarter with IPOP factor {} dim {} population {:?}", f, dim, pop);
            let s = if use_default { IPOP::default() } else { IPOP::new(f).map_err(|e| format!("{:?}", e))? };
            let (sizes, res) = counting(RestartStrategy::IPOP(s), dim, r.u64(), pop)?;
            let base = pop.unwrap_or(def);
            let want: Vec<usize> = (0..10).map(|k| base * f.pow(k)).collect();
            ensure!(sizes == want, "populations of the runs {:?} should be {:?}", sizes, want);
            ensure!(res.runs == 10 && res.reason == RestartTerminationReason::MaxRuns, "{} runs, reason {}", res.runs, res.reason);
            st.nontrivial += 1;
        }
        2 => {
            let runs = r.int(0, 12);
            let pop = r.pick(&[None, Some(3)]);
            let fac = r.pick(&[None, Some(0.2), Some(7.0)]);
            st.desc = format!("Restarter with Local {} runs factor {:?} dim {}", runs, fac, dim);
            let (sizes, res) = counting(RestartStrategy::Local(Local::new(runs, fac).map_err(|e| format!("{:?}", e))?), dim, r.u64(), pop)?;
            ensure!(sizes == vec![pop.unwrap_or(def); runs], "populations of the runs {:?}", sizes);
            ensure!(res.runs == runs && res.reason == RestartTerminationReason::MaxRuns, "{} runs of {}, reason {}", res.runs, runs, res.reason);
            st.nontrivial += 1;
        }
        _ => {
            #[cfg(feature = "h_restart")]
            {
                let size = r.pick(&[1.0, 0.3, 10.0, 1e4]);
                let pop = r.pick(&[None, Some(2), Some(7)]);
                let per_run = r.pick(&[None, Some(1), Some(50)]);
                let base = pop.unwrap_or(def);
                if r.bool() {
                    let f = r.pick(&[1usize, 2, 3]);
                    st.desc = format!("IPOP factor {} population {:?} size {}", f, pop, size);
                    let mut s = RestartStrategy::IPOP(IPOP::new(f).map_err(|e| format!("{:?}", e))?);
                    for k in 0..10u32 {
                        let i = drive(&mut s, dim, pop, per_run, size, r.u64(), 1)?;
                        ensure!(i.lambda == base * f.pow(k), "run {}: population {}", k + 1, i.lambda);
                        ensure!(close(i.sigma, size / 2.0, 1e-12), "run {}: step size {} for a range of {}", k + 1, i.sigma, size);
                        ensure!(i.max_evals == per_run, "run {}: evaluation limit {:?}", k + 1, i.max_evals);
                        ensure!(i.done == (k == 9), "run {}: finished={}", k + 1, i.done);
                    }
                } else {
                    let runs = r.int(1, 12);
                    let fac = r.pick(&[None, Some(0.2), Some(7.0)]);
                    st.desc = format!("Local {} runs factor {:?} size {}", runs, fac, size);
                    let mut s = RestartStrategy::Local(Local::new(runs, fac).map_err(|e| format!("{:?}", e))?);
                    for k in 0..runs {
                        let i = drive(&mut s, dim, pop, per_run, size, r.u64(), 1)?;
                        ensure!(i.lambda == base, "run {}: population {}", k + 1, i.lambda);
                        ensure!(close(i.sigma, size * fac.unwrap_or(0.5) / 100.0, 1e-12), "run {}: step size {} for a range of {}", k + 1, i.sigma, size);
                        ensure!(i.max_evals == per_run, "run {}: evaluation limit {:?}", k + 1, i.max_evals);
                        ensure!(i.done == (k + 1 == runs), "run {}: finished={}", k + 1, i.done);
                    }
                }
                st.nontrivial += 1;
            }
        }
    }
    Ok(())
}

pub fn c15(r: &mut Rng, st: &mut Stats) -> Res {
    let dim = r.int(1, 3);
    let def = 4 + (3.0 * (dim as f64).ln()).floor() as usize;
    let f = r.pick(&[1usize, 2, 2, 3]);
    let pop = if f == 3 { Some(r.int(2, 4)) } else { r.pick(&[None, Some(2), Some(5)]) };
    let fac = r.pick(&[None, Some(0.2), Some(0.7), Some(3.0)]);
    let base = pop.unwrap_or(def);
    let strategy = BIPOP::new(fac, Some(f)).map_err(|e| format!("{:?}", e))?;
    let strategy = if f == 2 && fac.is_none() && r.bool() { BIPOP::default() } else { strategy };
    #[cfg(feature = "h_restart")]
    if !r.one_in(4) {
        let size = r.pick(&[1.0, 0.3, 10.0, 1e4]);
        let per_run = r.pick(&[None, None, Some(10), Some(60), Some(1000)]);
        let factor = fac.unwrap_or(0.2);
        st.desc = format!("BIPOP factor {:?} increase {} population {:?} size {} per-run limit {:?}", fac, f, pop, size, per_run);
        let mut s = RestartStrategy::BIPOP(strategy);
        let (mut ipops, mut lr_evals, mut ipop_evals) = (0u32, 0usize, 0usize);
        let (mut last_pop, mut last_evals) = (0usize, 0usize);
        let mut large = vec![];
        for k in 0..2000 {
            let local = ipops > 0 && lr_evals < ipop_evals;
            let gens = r.int(1, 6);
            let i = drive(&mut s, dim, pop, per_run, size, r.u64(), gens)?;
            if local {
                st.hit("local runs");
                let hi = base.max((last_pop as f64 / 2.0).floor() as usize);
                ensure!(i.lambda >= base && i.lambda <= hi, "run {}: local population {} outside of [{}, {}]", k, i.lambda, base, hi);
                ensure!(i.sigma >= factor * size / 100.0 * (1.0 - 1e-12) && i.sigma <= factor * size * (1.0 + 1e-12), "run {}: local step size {} for factor {} and range {}", k, i.sigma, factor, size);
                let lim = per_run.map_or(last_evals / 2, |p| p.min(last_evals / 2));
                ensure!(i.max_evals == Some(lim), "run {}: local evaluation limit {:?} should be {}", k, i.max_evals, lim);
                ensure!(!i.done, "run {}: a local run finished the strategy", k);
                large.push((i.lambda, hi, i.sigma / (factor * size)));
                lr_evals += i.evals;
            } else {
                ensure!(i.lambda == base * f.pow(ipops), "run {}: IPOP population {} after {} IPOP runs", k, i.lambda, ipops);
                ensure!(close(i.sigma, size / 5.0, 1e-12), "run {}: IPOP step size {} for a range of {}", k, i.sigma, size);
                ensure!(i.max_evals == per_run, "run {}: IPOP evaluation limit {:?}", k, i.max_evals);
                ipops += 1;
                last_pop = i.lambda;
                last_evals = i.evals;
                ipop_evals += i.evals;
                ensure!(i.done == (ipops == 10), "run {}: finished={} after {} IPOP runs", k, i.done, ipops);
            }
            if i.done {
                break;
            }
        }
        if ipops == 10 {
            st.hit("strategies driven to their end");
        }
        st.nontrivial += 1;
        return Ok(());
    }
    // public interface: runs of one generation, so every run's population is its number of evaluations
    st.desc = format!("Restarter with BIPOP factor {:?} increase {} population {:?}", fac, f, pop);
    let (sizes, res) = counting(RestartStrategy::BIPOP(strategy), dim, r.u64(), pop)?;
    let (mut ipops, mut lr, mut ip, mut last) = (0u32, 0, 0, 0);
    for (k, n) in sizes.iter().enumerate() {
        if ipops > 0 && lr < ip {
            let hi = base.max(last / 2);
            ensure!(*n >= base && *n <= hi, "run {}: local population {} outside of [{}, {}]", k, n, base, hi);
            lr += n;
        } else {
            ensure!(*n == base * f.pow(ipops), "run {}: IPOP population {} after {} IPOP runs", k, n, ipops);
            ipops += 1;
            last = *n;
            ip += n;
        }
    }
    ensure!(ipops == 10 && res.reason == RestartTerminationReason::MaxRuns, "{} IPOP runs, reason {}", ipops, res.reason);
    st.nontrivial += 1;
    Ok(())
}

type Log = std::sync::Arc<std::sync::Mutex<Vec<(Vec<f64>, f64)>>>;
#[derive(Clone)]
struct Shared {
    logs: std::sync::Arc<std::sync::Mutex<Vec<Log>>>,
}

pub fn c16(r: &mut Rng, st: &mut Stats) -> Res {
    let dim = r.int(1, 3);
    let mode = if r.bool() { Mode::Minimize } else { Mode::Maximize };
    let runs = r.int(0, 6);
    let (lo, hi) = (-2.0, 3.0);
    let strategy = match r.int(0, 2) {
        0 => RestartStrategy::Local(Local::new(runs, Some(5.0)).unwrap()),
        1 => RestartStrategy::IPOP(IPOP::new(1).unwrap()),
        _ => RestartStrategy::BIPOP(BIPOP::new(None, Some(1)).unwrap()),
    };
    let kind = match &strategy { RestartStrategy::Local(_) => 0, RestartStrategy::IPOP(_) => 1, _ => 2 };
    let mut o = RestartOptions::new(dim, lo..=hi, strategy).mode(mode).seed(r.u64());
    let gens = r.int(1, 6);
    o = o.max_generations_per_run(gens);
    let max_evals = r.pick(&[None, None, Some(0), Some(1), Some(20), Some(60), Some(150)]);
    if let Some(m) = max_evals {
        o = o.max_function_evals(m);
    }
    let target = r.pick(&[None, None, Some(0.5), Some(-1.0), Some(1e-3)]);
    if let Some(t) = target {
        o = o.fun_target(t);
    }
    let zero_time = r.one_in(10);
    if zero_time {
        o = o.max_time(Duration::from_secs(0));
    } else if r.one_in(4) {
        o = o.max_time(Duration::from_secs(3600));
    }
    let pop = 4 + (3.0 * (dim as f64).ln()).floor() as usize;
    // the objective: values of the k-th call overall
    let obj = r.pick(&[Obj::Sphere, Obj::NegSphere, Obj::Noise, Obj::Const(1.0), Obj::Floor(1.0), Obj::Drift, Obj::NanAt(r.clone().int(0, 200)), Obj::NanRegion(0.02)]);
    let par = r.one_in(3) && !obj.by_call() && !matches!(obj, Obj::NanRegion(_));
    let reuse = r.one_in(3);
    st.desc = format!("kind {} max_runs {} gens {} max evals {:?} target {:?} zero time {} {:?} {:?} parallel {} reuse {}", kind, runs, gens, max_evals, target, zero_time, mode, obj, par, reuse);
    let shared = Shared { logs: Default::default() };
    let calls: std::sync::Arc<std::sync::atomic::AtomicUsize> = Default::default();
    let created = Rc::new(RefCell::new(0usize));
    let sh = shared.clone();
    let cr = created.clone();
    let cl = calls.clone();
    let ob = obj.clone();
    let mk = move || {
        *cr.borrow_mut() += 1;
        let mut rec = Rec::new(ob.clone(), pop);
        rec.calls = cl.clone();
        sh.logs.lock().unwrap().push(rec.log.clone());
        rec
    };
    let b = o.build().map_err(|e| format!("{:?}", e))?;
    let res = match (par, reuse) {
        (false, false) => b.run(mk),
        (true, false) => b.run_parallel(mk),
        (false, true) => b.run_with_reuse(mk()),
        (true, true) => b.run_parallel_with_reuse(mk()),
    };
    let logs: Vec<Vec<(Vec<f64>, f64)>> = shared.logs.lock().unwrap().iter().map(|l| l.lock().unwrap().clone()).collect();
    let all: Vec<(Vec<f64>, f64)> = logs.iter().flatten().cloned().collect();
    st.nontrivial += 1;
    ensure!(res.function_evals == all.len(), "function_evals {} after {} objective calls", res.function_evals, all.len());
    if reuse {
        ensure!(*created.borrow() == 1, "objective created {} times", created.borrow());
    } else {
        ensure!(*created.borrow() == res.runs, "objective created {} times in {} runs", created.borrow(), res.runs);
    }
    let nan = all.iter().any(|e| e.1.is_nan());
    // best individual: of all completed generations of all runs (only the last generation can be invalid)
    let complete: Vec<_> = if nan {
        let cut = all.iter().position(|e| e.1.is_nan()).unwrap();
        // the generation with the invalid value is the last one of its run; it is not complete
        let run_start: usize = if reuse { 0 } else { all.len() - logs.last().unwrap().len() };
        let _ = cut;
        let _ = run_start;
        vec![]
    } else {
        all.clone()
    };
    match &res.best {
        None => ensure!(complete.is_empty(), "no best individual after {} evaluations", all.len()),
        Some(b) => {
            ensure!(all.iter().any(|e| vec_eq(&e.0, b.point.as_slice()) && e.1 == b.value), "best individual was not evaluated with this value");
            if !nan {
                ensure!(!all.iter().any(|e| better(mode, e.1, b.value)), "an evaluated point is better than the best individual {}", b.value);
                if !par {
                    // ties keep the earlier run
                    let first = all.iter().position(|e| e.1 == b.value).unwrap();
                    let run_of = |i: usize| { let mut k = i; for (j, l) in logs.iter().enumerate() { if k < l.len() { return j; } k -= l.len(); } usize::MAX };
                    let this = all.iter().position(|e| vec_eq(&e.0, b.point.as_slice())).unwrap();
                    ensure!(reuse || run_of(first) == run_of(this), "best is of run {} but run {} had the same value", run_of(this), run_of(first));
                }
            } else if !reuse && logs.len() >= 1 {
                // every run but the last is complete; of the last run all generations but the invalid one
                let last = logs.last().unwrap();
                let bad = last.iter().position(|e| e.1.is_nan()).unwrap_or(last.len());
                if kind != 2 {
                    let done = bad / pop * pop;
                    let mut valid: Vec<_> = logs[..logs.len() - 1].iter().flatten().cloned().collect();
                    valid.extend(last[..done].iter().cloned());
                    ensure!(!valid.iter().any(|e| better(mode, e.1, b.value)), "an individual of a completed generation is better than the best {}", b.value);
                }
            }
        }
    }
    if nan && !reuse && kind != 2 {
        let last = logs.last().unwrap();
        let bad = last.iter().position(|e| e.1.is_nan()).unwrap_or(0);
        if bad / pop > 0 || logs.len() > 1 {
            ensure!(res.best.is_some(), "the best individual of completed generations is lost after an invalid value");
        }
    }
    use RestartTerminationReason as R;
    let hit = |v: f64| target.map_or(false, |t| better(mode, v, t));
    // expected reason, from what was evaluated
    let exp = if kind == 0 && runs == 0 {
        R::MaxRuns
    } else if max_evals == Some(0) {
        R::MaxFunctionEvals
    } else if zero_time {
        R::MaxTime
    } else if nan {
        R::InvalidFunctionValue
    } else {
        let strictly = all.iter().any(|e| hit(e.1));
        if strictly {
            R::FunTarget
        } else {
            let total = if kind == 0 { runs } else { 10 };
            let finished = if kind == 2 { res.reason == R::MaxRuns } else { res.runs >= total };
            if finished { R::MaxRuns } else { R::MaxFunctionEvals }
        }
    };
    ensure!(res.reason == exp, "reason {} should be {} ({} runs, {} evaluations)", res.reason, exp, res.runs, all.len());
    if exp == R::MaxFunctionEvals && !reuse {
        let m = max_evals.ok_or("MaxFunctionEvals without a limit")?;
        ensure!(all.len() >= m, "stopped by the evaluation limit {} after {}", m, all.len());
    }
    if let (Some(m), false) = (max_evals, reuse) {
        // no run is started at or beyond the limit
        let mut sum = 0;
        for (k, l) in logs.iter().enumerate() {
            ensure!(sum < m, "run {} was started after {} evaluations, limit {}", k, sum, m);
            sum += l.len();
        }
    }
    if kind == 0 && exp == R::MaxRuns {
        ensure!(res.runs == runs, "{} runs instead of {}", res.runs, runs);
    }
    Ok(())
}

pub fn c17(r: &mut Rng, st: &mut Stats) -> Res {
    let dim = r.pick(&[0, 1, 1, 2, 3]);
    let (a, b) = r.pick(&[(-2.0, 3.0), (3.0, -2.0), (1.0, 1.0), (0.0, 1e-3), (-5.0, -4.0), (0.0, 0.0), (10.0, 0.0)]);
    let runs = r.int(1, 5);
    let gens = r.int(1, 5);
    let pop = r.pick(&[None, Some(3), Some(8)]);
    let mode = if r.bool() { Mode::Minimize } else { Mode::Maximize };
    let mut def = CMAESOptions::new(vec![100.0; dim.max(1)], 77.0);
    if let Some(p) = pop {
        def = def.population_size(p);
    }
    // settings that the restarter's own replace, also where it has none
    let clash = r.int(0, 3);
    match clash {
        1 => def = def.mode(if mode == Mode::Minimize { Mode::Maximize } else { Mode::Minimize }),
        2 => def = def.fun_target(0.5).max_function_evals(2).max_generations(1),
        3 => def = def.mode(Mode::Maximize).fun_target(-1.0).parallel_update(true),
        _ => (),
    }
    let limit = r.pick(&[None, None, Some(1), Some(12), Some(40)]);
    let target = r.pick(&[None, None, Some(0.7), Some(0.0)]);
    let gens = if limit.is_some() && r.bool() { usize::MAX } else { gens };
    let strategy = match r.int(0, 2) {
        0 => RestartStrategy::Local(Local::new(runs, Some(1e-4)).unwrap()),
        1 => RestartStrategy::IPOP(IPOP::new(1).unwrap()),
        _ => RestartStrategy::BIPOP(BIPOP::new(Some(1e-4), Some(1)).unwrap()),
    };
    let kind = match &strategy { RestartStrategy::Local(_) => 0, RestartStrategy::IPOP(_) => 1, _ => 2 };
    let mut o = RestartOptions::new(dim, a..=b, strategy).mode(mode).seed(r.u64());
    let custom = pop.is_some() || clash > 0 || r.bool();
    if custom {
        o = o.default_options(def);
    }
    if gens != usize::MAX {
        o = o.max_generations_per_run(gens);
    }
    if let Some(l) = limit {
        o = o.max_function_evals_per_run(l);
    }
    if let Some(t) = target {
        o = o.fun_target(t);
    }
    st.desc = format!("dim {} range {}..={} kind {} gens {} pop {:?} per-run limit {:?} target {:?} {:?} clash {}", dim, a, b, kind, gens, pop, limit, target, mode, clash);
    let want_err = if dim == 0 { Some(InvalidRestartOptionsError::Dimensions) } else if a == b { Some(InvalidRestartOptionsError::SearchRange) } else { None };
    let built = o.build();
    let b_ = match (built, want_err) {
        (Err(e), Some(w)) => {
            ensure!(e == w, "error {:?} should be {:?}", e, w);
            return Ok(());
        }
        (Err(e), None) => return Err(format!("building fails with {:?}", e)),
        (Ok(_), Some(w)) => return Err(format!("building succeeds although {:?}", w)),
        (Ok(b), None) => b,
    };
    let logs: Rc<RefCell<Vec<Log>>> = Default::default();
    let l2 = logs.clone();
    let res = b_.run(move || {
        let rec = Rec::new(Obj::Noise, 1);
        l2.borrow_mut().push(rec.log.clone());
        rec
    });
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    st.nontrivial += 1;
    let base = pop.unwrap_or(4 + (3.0 * (dim as f64).ln()).floor() as usize);
    let mut means: Vec<Vec<f64>> = vec![];
    for (k, l) in logs.borrow().iter().enumerate() {
        let l = l.lock().unwrap();
        if kind == 0 {
            // tiny steps: the points of the first generation are next to the initial mean
            let m: Vec<f64> = (0..dim).map(|d| l[..base.min(l.len())].iter().map(|e| e.0[d]).sum::<f64>() / base.min(l.len()) as f64).collect();
            let tol = (hi - lo) * 1e-6 * 40.0;
            ensure!(m.iter().all(|x| *x >= lo - tol && *x <= hi + tol), "run {}: starts at {:?}, outside of the search range", k, m);
            ensure!(l.iter().all(|e| e.0.len() == dim), "run {}: dimensions", k);
            means.push(m);
        }
        if kind != 2 {
            ensure!(l.len() % base == 0, "run {}: {} evaluations with a population of {}", k, l.len(), base);
            let g = l.len() / base;
            let hit_at = (1..=g).find(|j| l[..j * base].iter().any(|e| target.map_or(false, |t| better(mode, e.1, t))));
            let lim_at = limit.map(|m| (m + base - 1) / base).map(|x| x.max(1));
            let mut stop = gens;
            if let Some(x) = lim_at { stop = stop.min(x); }
            if let Some(x) = hit_at { stop = stop.min(x); }
            ensure!(g == stop, "run {}: {} generations, should be {} (per-run limits {} generations, {:?} evaluations, target {:?})", k, g, stop, gens, limit, target);
            if hit_at == Some(g) {
                ensure!(res.reason == RestartTerminationReason::FunTarget && k + 1 == res.runs, "run {} met the target but the reason is {}", k, res.reason);
            }
        }
    }
    if means.len() >= 4 && kind == 0 {
        ensure!(means.windows(2).any(|w| !vec_eq(&w[0], &w[1])), "all runs start from the same mean");
        let spread = means.iter().map(|m| m[0]).fold(f64::NEG_INFINITY, f64::max) - means.iter().map(|m| m[0]).fold(f64::INFINITY, f64::min);
        ensure!(spread > (hi - lo) * 1e-3, "initial means are spread over {} of a range of {}", spread, hi - lo);
    }
    Ok(())
}
