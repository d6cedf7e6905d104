//! Deterministic case generation and small numeric helpers (independent of the code under test)
use std::collections::BTreeMap;

pub type Res = Result<(), String>;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn int(&mut self, a: usize, b: usize) -> usize {
        a + (self.u64() % (b - a + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.u64() % n == 0
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.int(0, v.len() - 1)].clone()
    }
    pub fn gauss(&mut self) -> f64 {
        let u = 1.0 - self.unit();
        let v = self.unit();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
}

#[derive(Default)]
pub struct Stats {
    pub nontrivial: u64,
    pub desc: String,
    pub counters: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
}

/// a hash of a point, as a pure pseudo-random function of it
pub fn hash_point(x: &[f64]) -> f64 {
    let mut h = 0xcbf29ce484222325u64;
    for v in x {
        h = (h ^ v.to_bits()).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    let mut r = Rng::new(h);
    r.unit()
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a == b {
        return true;
    }
    if a.is_nan() && b.is_nan() {
        return true;
    }
    a.is_finite() && b.is_finite() && (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
pub fn rel_close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || a.is_finite() && b.is_finite() && (a - b).abs() <= tol * a.abs().max(b.abs())
}
pub fn bits_eq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a == b
}
pub fn vec_eq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| bits_eq(*x, *y))
}

/// row-major square matrices
pub type Mat = Vec<Vec<f64>>;
pub fn mat_of(m: &nalgebra::DMatrix<f64>) -> Mat {
    (0..m.nrows()).map(|i| (0..m.ncols()).map(|j| m[(i, j)]).collect()).collect()
}
pub fn matvec(a: &Mat, x: &[f64]) -> Vec<f64> {
    a.iter().map(|r| r.iter().zip(x).map(|(p, q)| p * q).sum()).collect()
}
pub fn matmul(a: &Mat, b: &Mat) -> Mat {
    let n = a.len();
    (0..n).map(|i| (0..b[0].len()).map(|j| (0..b.len()).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect()
}
pub fn transpose(a: &Mat) -> Mat {
    (0..a[0].len()).map(|j| (0..a.len()).map(|i| a[i][j]).collect()).collect()
}
pub fn norm(x: &[f64]) -> f64 {
    x.iter().map(|v| v * v).sum::<f64>().sqrt()
}
pub fn identity(n: usize) -> Mat {
    (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect()
}
/// cyclic Jacobi: eigenvalues and orthonormal eigenvectors (columns)
pub fn jacobi(a: &Mat) -> (Vec<f64>, Mat) {
    let n = a.len();
    let mut a = a.clone();
    let mut v = identity(n);
    for _ in 0..100 {
        let mut off = 0.0;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    off += a[i][j] * a[i][j];
                }
            }
        }
        if off == 0.0 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q] == 0.0 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[k][p], v[k][q]);
                    v[k][p] = c * x - s * y;
                    v[k][q] = s * x + c * y;
                }
            }
        }
    }
    ((0..n).map(|i| a[i][i]).collect(), v)
}
/// the decomposition routine the library uses; its numerical quality is assumed, not judged
pub fn lib_eigen(a: &Mat) -> (Vec<f64>, Mat) {
    let n = a.len();
    match nalgebra::SymmetricEigen::try_new(nalgebra::DMatrix::from_fn(n, n, |i, j| a[i][j]), 1e-20, 0) {
        Some(e) => {
            let mut v = mat_of(&e.eigenvectors);
            for j in 0..n {
                let l = (0..n).map(|i| v[i][j] * v[i][j]).sum::<f64>().sqrt();
                for i in 0..n {
                    v[i][j] /= l;
                }
            }
            (e.eigenvalues.iter().cloned().collect(), v)
        }
        None => jacobi(a),
    }
}
pub fn from_eigen(vals: &[f64], v: &Mat) -> Mat {
    let n = vals.len();
    (0..n).map(|i| (0..n).map(|j| (0..n).map(|k| v[i][k] * vals[k] * v[j][k]).sum()).collect()).collect()
}
/// a random orthogonal matrix
pub fn random_rotation(r: &mut Rng, n: usize) -> Mat {
    let mut q: Mat = vec![];
    while q.len() < n {
        let mut x: Vec<f64> = (0..n).map(|_| r.gauss()).collect();
        for u in &q {
            let d: f64 = u.iter().zip(&x).map(|(a, b)| a * b).sum();
            for (a, b) in x.iter_mut().zip(u) {
                *a -= d * b;
            }
        }
        let l = norm(&x);
        if l > 1e-3 {
            q.push(x.iter().map(|v| v / l).collect());
        }
    }
    transpose(&q)
}
