//! Independent re-computation of the state update from the published CMA-ES equations
use crate::checks::ensure;
use crate::scen::*;
use crate::util::*;
use cmaes::TerminationReason as TR;
use cmaes::*;

pub fn check(s: &Scn, st: &mut Stats) -> Res {
    let n = s.dim();
    let nf = n as f64;
    let conlog = Default::default();
    let rec = Rec::new(s.obj.clone(), s.lambda);
    let log = rec.log.clone();
    let mut c = s.options(&conlog).build(rec).map_err(|e| format!("{:?}", e))?;
    let (mu, mu_eff, cc, c1, cs, cmu, cm, damp, lambda) = {
        let p = c.parameters();
        (p.mu(), p.mu_eff(), p.cc(), p.c1(), p.cs(), p.cmu(), p.cm(), p.damp_s(), p.lambda())
    };
    let w: Vec<f64> = c.parameters().weights().iter().cloned().collect();
    let mut pc = vec![0.0; n];
    let mut ps = vec![0.0; n];
    let mut inv = identity(n); // C^-1/2 of the last refresh
    let mut last_eigen = 0;
    let per_eigen = (0.5 * nf * lambda as f64 / ((c1 + cmu) * nf * nf)).ceil() as usize;
    let chi = nf.sqrt() * (1.0 - 1.0 / (4.0 * nf) + 1.0 / (21.0 * nf * nf));
    let initial = snap(&c);
    ensure!(initial.generation == 0 && vec_eq(&initial.mean, &s.mean) && initial.sigma == s.sigma0 && initial.cov == identity(n) && initial.eig.iter().all(|x| *x == 1.0), "initial state is not (m0, sigma0, I)");
    for g in 0..s.gens {
        log.lock().unwrap().clear();
        let before = snap(&c);
        let data = if s.par_eval { c.next_parallel() } else { c.next() };
        let after = snap(&c);
        if data.as_ref().map_or(false, |d| d.reasons.contains(&TR::PosDefCov) || d.reasons.contains(&TR::InvalidFunctionValue)) {
            break;
        }
        let mut ev = log.lock().unwrap().clone();
        // ranking; equal values have no defined order
        ev.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        if s.mode == Mode::Maximize {
            ev.reverse();
        }
        if ev.windows(2).any(|p| p[0].1 == p[1].1) {
            break;
        }
        ensure!(after.generation == before.generation + 1, "gen {}: generation count {} -> {}", g, before.generation, after.generation);
        let y: Vec<Vec<f64>> = ev.iter().map(|e| e.0.iter().zip(&before.mean).map(|(x, m)| (x - m) / before.sigma).collect()).collect();
        let mut yw = vec![0.0; n];
        for i in 0..mu {
            for d in 0..n {
                yw[d] += w[i] * y[i][d];
            }
        }
        let tol = 1e-6;
        for d in 0..n {
            let want = before.mean[d] + cm * before.sigma * yw[d];
            ensure!((after.mean[d] - want).abs() <= tol * (before.sigma * norm(&yw) + 1e-9 * want.abs() + 1e-12), "gen {}: mean[{}] {} should be {}", g, d, after.mean[d], want);
        }
        let iy = matvec(&inv, &yw);
        for d in 0..n {
            ps[d] = (1.0 - cs) * ps[d] + (cs * (2.0 - cs) * mu_eff).sqrt() * iy[d];
        }
        let lhs = norm(&ps) / (1.0 - (1.0 - cs).powi(2 * (before.generation as i32 + 1))).sqrt();
        let rhs = (1.4 + 2.0 / (nf + 1.0)) * chi;
        if rel_close(lhs, rhs, 1e-6) {
            break;
        }
        let hs = if lhs < rhs { 1.0 } else { 0.0 };
        if hs == 0.0 {
            st.hit("stalled path updates");
        }
        for d in 0..n {
            pc[d] = (1.0 - cc) * pc[d] + hs * (cc * (2.0 - cc) * mu_eff).sqrt() * yw[d];
        }
        #[cfg(feature = "h_lib")]
        {
            let scale = 1.0 + norm(&pc);
            ensure!(after.path_c.iter().zip(&pc).all(|(a, b)| (a - b).abs() <= tol * scale), "gen {}: evolution path of the covariance {:?} should be {:?}", g, after.path_c, pc);
        }
        let sigma = before.sigma * ((cs / damp) * (norm(&ps) / chi - 1.0)).exp();
        ensure!(rel_close(after.sigma, sigma, tol), "gen {}: sigma {} should be {}", g, after.sigma, sigma);
        let dhs = (1.0 - hs) * cc * (2.0 - cc);
        let sw: f64 = w.iter().sum();
        let mut cov = vec![vec![0.0; n]; n];
        for a in 0..n {
            for b in 0..n {
                let mut v = (1.0 + c1 * dhs - c1 - cmu * sw) * before.cov[a][b] + c1 * pc[a] * pc[b];
                for i in 0..w.len() {
                    let wi = if w[i] < 0.0 { w[i] * nf / norm(&matvec(&inv, &y[i])).powi(2) } else { w[i] };
                    v += cmu * wi * y[i][a] * y[i][b];
                }
                cov[a][b] = v;
            }
        }
        let mx = cov.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
        for a in 0..n {
            for b in 0..n {
                ensure!((after.cov[a][b] - cov[a][b]).abs() <= tol * mx, "gen {}: covariance [{},{}] {} should be {}", g, a, b, after.cov[a][b], cov[a][b]);
                ensure!(after.cov[a][b].to_bits() == after.cov[b][a].to_bits(), "gen {}: covariance is not symmetric at {},{}: {} and {}", g, a, b, after.cov[a][b], after.cov[b][a]);
            }
        }
        let refresh = after.evals >= last_eigen + per_eigen;
        let (vals, vecs) = lib_eigen(&after.cov);
        if refresh {
            last_eigen = after.evals;
            if vals.iter().any(|v| *v <= 0.0) {
                break;
            }
            let mut a = after.eig.clone();
            let mut b = vals.clone();
            a.sort_by(|x, y| x.partial_cmp(y).unwrap());
            b.sort_by(|x, y| x.partial_cmp(y).unwrap());
            ensure!(a.iter().zip(&b).all(|(x, y)| (x - y).abs() <= 1e-8 * b[n - 1]), "gen {}: the eigendecomposition was due after {} evaluations ({} per refresh) but the eigenvalues in use are {:?}, not {:?}", g, after.evals, per_eigen, a, b);
            let d: Vec<f64> = vals.iter().map(|v| 1.0 / v.sqrt()).collect();
            inv = from_eigen(&d, &vecs);
            if b[n - 1] / b[0] > 1e10 {
                break;
            }
        } else {
            st.hit("generations without a refresh");
            ensure!(vec_eq(&after.eig, &before.eig), "gen {}: the eigendecomposition was refreshed early, after {} evaluations ({} per refresh, last at {})", g, after.evals, per_eigen, last_eigen);
        }
        st.nontrivial += 1;
        if !after.sigma.is_finite() || after.sigma < 1e-100 || after.sigma > 1e100 {
            break;
        }
        // what follows is judged from the state as it is, except for the paths
    }
    Ok(())
}
