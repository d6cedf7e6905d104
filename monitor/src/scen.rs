//! Scenarios: a configuration of the public API, an objective, and the recorded history of a run
use crate::util::*;
use cmaes::restart::RestartOptions;
use cmaes::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    Sphere,
    Ellipsoid,
    Rosen,
    Const(f64),
    Floor(f64),
    Linear,
    NegSphere,
    Shifted(f64),
    InfRegion,
    NegInfRegion,
    AllInf,
    NanAt(usize),
    NanRegion(f64),
    Noise,
    Drift,
    Steps,
    Tiny,
    /// the sphere at another scale
    Scaled(f64),
    /// 1 and its next few neighbours
    Ulps,
    /// infinite for the first calls
    Barrier(usize, f64),
    SignedZero,
    /// anything up to the largest numbers
    Huge,
}
impl Obj {
    /// the value depends on how many calls were made before
    pub fn by_call(&self) -> bool {
        matches!(self, Obj::Drift | Obj::Steps | Obj::NanAt(_) | Obj::Barrier(..))
    }
    pub fn eval(&self, x: &[f64], call: usize, lambda: usize) -> f64 {
        let sq: f64 = x.iter().map(|v| v * v).sum();
        match self {
            Obj::Sphere => sq,
            Obj::Ellipsoid => x.iter().enumerate().map(|(i, v)| 10f64.powi(2 * i as i32) * (v - 1.0) * (v - 1.0)).sum(),
            Obj::Rosen => {
                if x.len() < 2 {
                    (x[0] - 1.0) * (x[0] - 1.0)
                } else {
                    x.windows(2).map(|w| 100.0 * (w[1] - w[0] * w[0]).powi(2) + (1.0 - w[0]).powi(2)).sum()
                }
            }
            Obj::Const(c) => *c,
            Obj::Floor(s) => (sq / s).floor() * s,
            Obj::Linear => x.iter().enumerate().map(|(i, v)| (i as f64 + 1.0) * v).sum(),
            Obj::NegSphere => -sq,
            Obj::Shifted(c) => sq + c,
            Obj::InfRegion => if x[0] > 0.3 { f64::INFINITY } else { sq },
            Obj::NegInfRegion => if x[0] > 0.3 { f64::NEG_INFINITY } else { sq },
            Obj::AllInf => if hash_point(x) < 0.5 { f64::INFINITY } else { f64::NEG_INFINITY },
            Obj::NanAt(k) => if call == *k { f64::NAN } else { sq },
            Obj::NanRegion(t) => if hash_point(x) < *t { f64::NAN } else { sq },
            Obj::Noise => hash_point(x) * 10.0 - 5.0,
            Obj::Drift => (call / lambda.max(1)) as f64 + hash_point(x),
            Obj::Steps => ((call / (lambda.max(1) * 7)) % 5) as f64 + 0.125 * (hash_point(x) * 4.0).floor(),
            Obj::Tiny => 1e-13 * hash_point(x),
            Obj::Scaled(c) => c * sq,
            Obj::Ulps => 1.0 + f64::EPSILON * (8.0 * hash_point(x)).floor(),
            Obj::Barrier(k, v) => if call < *k { *v } else { sq },
            Obj::SignedZero => if hash_point(x) < 0.4 { 0.0 } else if hash_point(x) < 0.8 { -0.0 } else { hash_point(x) },
            Obj::Huge => f64::MAX * (2.0 * hash_point(x) - 1.0),
        }
    }
    pub fn smooth(r: &mut Rng) -> Obj {
        r.pick(&[Obj::Sphere, Obj::Ellipsoid, Obj::Rosen, Obj::Linear, Obj::NegSphere, Obj::Shifted(-3.5), Obj::Noise])
    }
    pub fn any_valid(r: &mut Rng) -> Obj {
        r.pick(&[
            Obj::Sphere, Obj::Ellipsoid, Obj::Rosen, Obj::Const(0.0), Obj::Const(-2.5), Obj::Floor(0.25), Obj::Floor(2.0), Obj::Linear,
            Obj::NegSphere, Obj::Shifted(-3.5), Obj::InfRegion, Obj::NegInfRegion, Obj::AllInf, Obj::Noise, Obj::Drift, Obj::Steps, Obj::Tiny,
            Obj::Scaled(1e-310), Obj::Scaled(1e-20), Obj::Scaled(1e300), Obj::Ulps, Obj::Barrier(20, f64::INFINITY), Obj::Barrier(9, f64::NEG_INFINITY), Obj::SignedZero, Obj::Huge,
        ])
    }
}

#[derive(Clone, Debug)]
pub enum Con {
    None,
    Bounds(Vec<f64>, Vec<f64>),
    Half(f64),
    Hash(f64),
}
impl Con {
    pub fn ok(&self, x: &[f64]) -> bool {
        match self {
            Con::None => true,
            Con::Bounds(l, u) => (0..x.len()).all(|i| l[i] <= x[i] && x[i] <= u[i]),
            Con::Half(t) => x[0] <= *t,
            Con::Hash(t) => hash_point(x) < *t,
        }
    }
}
/// the constraint object given to the code: records every point it is asked about
pub struct RecCon {
    pub con: Con,
    pub log: Arc<Mutex<Vec<(Vec<f64>, bool)>>>,
}
impl std::fmt::Debug for RecCon {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "RecCon")
    }
}
impl Constraints for RecCon {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let ok = self.con.ok(x.as_slice());
        self.log.lock().unwrap().push((x.as_slice().to_vec(), ok));
        ok
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(RecCon { con: self.con.clone(), log: self.log.clone() })
    }
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub obj: Obj,
    pub mode: Mode,
    pub mean: Vec<f64>,
    pub sigma0: f64,
    pub lambda: usize,
    pub weights: Weights,
    pub cm: f64,
    pub seed: u64,
    pub par_update: bool,
    pub par_eval: bool,
    pub con: Con,
    pub max_resamples: Option<Option<usize>>,
    pub max_function_evals: Option<usize>,
    pub max_generations: Option<usize>,
    pub fun_target: Option<f64>,
    pub tol_fun: Option<f64>,
    pub tol_fun_rel: Option<f64>,
    pub tol_fun_hist: Option<f64>,
    pub tol_x: Option<f64>,
    pub tol_stagnation: Option<usize>,
    pub tol_x_up: Option<f64>,
    pub tol_condition_cov: Option<f64>,
    pub plot_gap: Option<usize>,
    pub gens: usize,
    /// keep stepping after a step reported reasons
    pub past_end: bool,
}
impl Scn {
    pub fn gen(r: &mut Rng) -> Scn {
        let n = r.pick(&[1, 1, 2, 2, 3, 4, 6]);
        let lambda = r.pick(&[2, 3, 4, 5, 6, 7, 9, 12, 20]);
        Scn {
            obj: Obj::any_valid(r),
            mode: if r.bool() { Mode::Minimize } else { Mode::Maximize },
            mean: (0..n).map(|_| r.range(-2.0, 2.0)).collect(),
            sigma0: r.pick(&[0.1, 0.5, 1.0, 3.0]),
            lambda,
            weights: r.pick(&[Weights::Positive, Weights::Negative, Weights::Uniform]),
            cm: r.pick(&[1.0, 1.0, 0.5, 0.1]),
            seed: r.u64(),
            par_update: r.one_in(3),
            par_eval: r.one_in(3),
            con: Con::None,
            max_resamples: None,
            max_function_evals: None,
            max_generations: None,
            fun_target: None,
            tol_fun: None,
            tol_fun_rel: None,
            tol_fun_hist: None,
            tol_x: None,
            tol_stagnation: None,
            tol_x_up: None,
            tol_condition_cov: None,
            plot_gap: None,
            gens: r.int(1, 40),
            past_end: r.bool(),
        }
    }
    pub fn dim(&self) -> usize {
        self.mean.len()
    }
    pub fn options(&self, conlog: &Arc<Mutex<Vec<(Vec<f64>, bool)>>>) -> CMAESOptions {
        let mut o = CMAESOptions::new(self.mean.clone(), self.sigma0)
            .mode(self.mode)
            .population_size(self.lambda)
            .weights(self.weights)
            .cm(self.cm)
            .seed(self.seed)
            .parallel_update(self.par_update);
        match &self.con {
            Con::None => {}
            Con::Bounds(l, u) if self.seed % 2 == 0 => o = o.bounds(l.clone(), u.clone()),
            c => o = o.constraints(Box::new(RecCon { con: c.clone(), log: conlog.clone() })),
        }
        if let Some(m) = self.max_resamples {
            o = o.max_resamples(m);
        }
        if let Some(x) = self.max_function_evals {
            o = o.max_function_evals(x);
        }
        if let Some(x) = self.max_generations {
            o = o.max_generations(x);
        }
        if let Some(x) = self.fun_target {
            o = o.fun_target(x);
        }
        if let Some(x) = self.tol_fun {
            o = o.tol_fun(x);
        }
        if let Some(x) = self.tol_fun_rel {
            o = o.tol_fun_rel(x);
        }
        if let Some(x) = self.tol_fun_hist {
            o = o.tol_fun_hist(x);
        }
        if let Some(x) = self.tol_x {
            o = o.tol_x(x);
        }
        if let Some(x) = self.tol_stagnation {
            o = o.tol_stagnation(x);
        }
        if let Some(x) = self.tol_x_up {
            o = o.tol_x_up(x);
        }
        if let Some(x) = self.tol_condition_cov {
            o = o.tol_condition_cov(x);
        }
        if let Some(g) = self.plot_gap {
            o = o.enable_plot(PlotOptions::new(g, false));
        }
        o
    }
    /// true if the given constraints are asked through the recording object
    pub fn con_recorded(&self) -> bool {
        match &self.con {
            Con::None => false,
            Con::Bounds(..) => self.seed % 2 != 0,
            _ => true,
        }
    }
}

/// the objective: records every point and the value it returned
#[derive(Clone)]
pub struct Rec {
    pub obj: Obj,
    pub negate: bool,
    pub lambda: usize,
    pub calls: Arc<AtomicUsize>,
    pub log: Arc<Mutex<Vec<(Vec<f64>, f64)>>>,
    pub own: usize,
}
impl Rec {
    pub fn new(obj: Obj, lambda: usize) -> Rec {
        Rec { obj, negate: false, lambda, calls: Default::default(), log: Default::default(), own: 0 }
    }
    pub fn call(&self, x: &DVector<f64>) -> f64 {
        let k = self.calls.fetch_add(1, Ordering::SeqCst);
        let mut v = self.obj.eval(x.as_slice(), k, self.lambda);
        if self.negate {
            v = -v;
        }
        self.log.lock().unwrap().push((x.as_slice().to_vec(), v));
        v
    }
}
impl ObjectiveFunction for Rec {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.own += 1;
        self.call(x)
    }
}
impl ParallelObjectiveFunction for Rec {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}

#[derive(Clone, Debug)]
pub struct Snap {
    pub mean: Vec<f64>,
    pub cov: Mat,
    pub sigma: f64,
    pub eig: Vec<f64>,
    pub ratio: f64,
    pub generation: usize,
    pub evals: usize,
    pub cur: Option<(Vec<f64>, f64)>,
    pub over: Option<(Vec<f64>, f64)>,
    #[cfg(all(feature = "h_lib"))]
    pub hist: (Vec<f64>, Vec<f64>, Option<f64>, Option<f64>),
    #[cfg(all(feature = "h_lib"))]
    pub basis: (Mat, Mat, Mat),
    #[cfg(all(feature = "h_lib"))]
    pub path_c: Vec<f64>,
}
fn ind(i: Option<&Individual>) -> Option<(Vec<f64>, f64)> {
    i.map(|x| (x.point.as_slice().to_vec(), x.value))
}
pub fn snap<F>(c: &CMAES<F>) -> Snap {
    Snap {
        mean: c.mean().as_slice().to_vec(),
        cov: mat_of(c.covariance_matrix()),
        sigma: c.sigma(),
        eig: c.eigenvalues().as_slice().to_vec(),
        ratio: c.axis_ratio(),
        generation: c.generation(),
        evals: c.function_evals(),
        cur: ind(c.current_best_individual()),
        over: ind(c.overall_best_individual()),
        #[cfg(feature = "h_lib")]
        hist: {
            let h = c.verif_history();
            (
                h.best_function_values().iter().cloned().collect(),
                h.median_function_values().iter().cloned().collect(),
                h.first_median_function_value(),
                h.best_median_function_value(),
            )
        },
        #[cfg(feature = "h_lib")]
        basis: {
            let s = c.verif_state();
            (mat_of(s.cov_eigenvectors()), mat_of(s.cov_sqrt_eigenvalues()), mat_of(s.cov_transform()))
        },
        #[cfg(feature = "h_lib")]
        path_c: c.verif_state().path_c().as_slice().to_vec(),
    }
}
pub struct Gen {
    pub evals: Vec<(Vec<f64>, f64)>,
    pub cons: Vec<(Vec<f64>, bool)>,
    pub before: Snap,
    pub after: Snap,
    pub data: Option<TerminationData>,
    /// elapsed time bracket of the step
    pub t: (Duration, Duration),
}
impl Gen {
    pub fn invalid(&self) -> bool {
        self.evals.iter().any(|e| e.1.is_nan())
    }
    pub fn has(&self, r: TerminationReason) -> bool {
        self.data.as_ref().map_or(false, |d| d.reasons.contains(&r))
    }
    pub fn values(&self) -> Vec<f64> {
        self.evals.iter().map(|e| e.1).collect()
    }
    /// values, best first
    pub fn sorted(&self, mode: Mode) -> Vec<f64> {
        let mut v = self.values();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if mode == Mode::Maximize {
            v.reverse();
        }
        v
    }
}
pub struct Trace {
    pub s: Scn,
    pub gens: Vec<Gen>,
    pub initial: Snap,
    pub tol_x: f64,
    pub created: Instant,
}
pub fn better(m: Mode, a: f64, b: f64) -> bool {
    match m {
        Mode::Minimize => a < b,
        Mode::Maximize => a > b,
    }
}
/// steps a built object, recording everything observable; `inspect` is called after every step
pub fn trace_with(s: &Scn, mut inspect: impl FnMut(&CMAES<Rec>, &Gen) -> Res) -> Result<Trace, String> {
    let conlog = Arc::new(Mutex::new(vec![]));
    let rec = Rec::new(s.obj.clone(), s.lambda);
    let log = rec.log.clone();
    let mut c = s.options(&conlog).build(rec).map_err(|e| format!("build failed: {:?}", e))?;
    let initial = snap(&c);
    let mut gens = vec![];
    let mut before = initial.clone();
    for _ in 0..s.gens {
        log.lock().unwrap().clear();
        conlog.lock().unwrap().clear();
        let t0 = c.time_created().elapsed();
        let data = if s.par_eval { c.next_parallel() } else { c.next() };
        let t1 = c.time_created().elapsed();
        let after = snap(&c);
        let evals = log.lock().unwrap().clone();
        let cons = conlog.lock().unwrap().clone();
        let end = data.is_some();
        let fatal = data.as_ref().map_or(false, |d| {
            d.reasons.contains(&TerminationReason::PosDefCov) || d.reasons.contains(&TerminationReason::InvalidFunctionValue)
        });
        let g = Gen { evals, cons, before, after: after.clone(), data, t: (t0, t1) };
        inspect(&c, &g)?;
        gens.push(g);
        before = after;
        if fatal || (end && !s.past_end) {
            break;
        }
        // numerically degenerate states are outside of what is checked here
        if !before.sigma.is_finite() || before.sigma < 1e-290 || before.mean.iter().any(|x| !x.is_finite()) || before.cov.iter().flatten().any(|x| !x.is_finite()) {
            break;
        }
    }
    let tol_x = c.parameters().tol_x();
    Ok(Trace { s: s.clone(), gens, initial, tol_x, created: c.time_created() })
}
pub fn trace(s: &Scn) -> Result<Trace, String> {
    trace_with(s, |_, _| Ok(()))
}
#[allow(dead_code)]
pub fn unused(_: RestartOptions) {}
