//! The harness's own dense linear algebra (cyclic Jacobi), so that the oracles do not depend on the
//! routines used by the library.

#[derive(Clone, Debug)]
pub struct Mat {
    pub n: usize,
    pub a: Vec<f64>,
}

impl Mat {
    pub fn zeros(n: usize) -> Self {
        Mat {
            n,
            a: vec![0.0; n * n],
        }
    }
    pub fn identity(n: usize) -> Self {
        let mut m = Self::zeros(n);
        for i in 0..n {
            m.a[i * n + i] = 1.0;
        }
        m
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.a[i * self.n + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, x: f64) {
        self.a[i * self.n + j] = x;
    }
    pub fn mulv(&self, v: &[f64]) -> Vec<f64> {
        (0..self.n)
            .map(|i| (0..self.n).map(|j| self.at(i, j) * v[j]).sum())
            .collect()
    }
    pub fn max_abs(&self) -> f64 {
        self.a.iter().fold(0.0, |m: f64, x| m.max(x.abs()))
    }
    pub fn is_finite(&self) -> bool {
        self.a.iter().all(|x| x.is_finite())
    }
}

pub struct Eigen {
    pub values: Vec<f64>,
    /// Column i is the eigenvector of `values[i]`
    pub vectors: Mat,
}

/// Eigendecomposition of a symmetric matrix by the cyclic Jacobi method; eigenvalues ascending
pub fn jacobi(m: &Mat) -> Eigen {
    let n = m.n;
    let mut a = m.clone();
    // Avoids underflow and overflow of squares; powers of two are exact
    let top = m.max_abs();
    let mut scale = 1.0;
    if top.is_finite() && top > 0.0 && !(1e-60..1e60).contains(&top) {
        scale = 2f64.powi(top.log2().floor().clamp(-1000.0, 1000.0) as i32);
        for x in a.a.iter_mut() {
            *x /= scale;
        }
    }
    let mut v = Mat::identity(n);
    for _sweep in 0..60 {
        let mut off = 0.0;
        let mut diag = 0.0;
        for i in 0..n {
            diag += a.at(i, i) * a.at(i, i);
            for j in (i + 1)..n {
                off += a.at(i, j) * a.at(i, j);
            }
        }
        if off <= 1e-60 * diag || off == 0.0 || !off.is_finite() {
            break;
        }
        for p in 0..n {
            for q in (p + 1)..n {
                let apq = a.at(p, q);
                if apq == 0.0 {
                    continue;
                }
                // Negligible rotation
                if apq.abs() < 1e-22 * (a.at(p, p) * a.at(q, q)).abs().sqrt() {
                    a.set(p, q, 0.0);
                    a.set(q, p, 0.0);
                    continue;
                }
                let theta = (a.at(q, q) - a.at(p, p)) / (2.0 * apq);
                let t = if theta.abs() > 1e150 {
                    1.0 / (2.0 * theta)
                } else {
                    theta.signum() / (theta.abs() + (theta * theta + 1.0).sqrt())
                };
                let t = if theta == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                let app = a.at(p, p);
                let aqq = a.at(q, q);
                a.set(p, p, app - t * apq);
                a.set(q, q, aqq + t * apq);
                a.set(p, q, 0.0);
                a.set(q, p, 0.0);
                for k in 0..n {
                    if k != p && k != q {
                        let akp = a.at(k, p);
                        let akq = a.at(k, q);
                        let x = c * akp - s * akq;
                        let y = s * akp + c * akq;
                        a.set(k, p, x);
                        a.set(p, k, x);
                        a.set(k, q, y);
                        a.set(q, k, y);
                    }
                }
                for k in 0..n {
                    let vkp = v.at(k, p);
                    let vkq = v.at(k, q);
                    v.set(k, p, c * vkp - s * vkq);
                    v.set(k, q, s * vkp + c * vkq);
                }
            }
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|i, j| {
        a.at(*i, *i)
            .partial_cmp(&a.at(*j, *j))
            .unwrap_or(std::cmp::Ordering::Equal)
    });
    let values = idx.iter().map(|i| a.at(*i, *i) * scale).collect();
    let mut vectors = Mat::zeros(n);
    for (c, i) in idx.iter().enumerate() {
        for k in 0..n {
            vectors.set(k, c, v.at(k, *i));
        }
    }
    Eigen { values, vectors }
}

impl Eigen {
    /// `C^(-1/2)`
    pub fn inv_sqrt(&self) -> Mat {
        let n = self.vectors.n;
        let mut m = Mat::zeros(n);
        for i in 0..n {
            for j in 0..n {
                let mut s = 0.0;
                for k in 0..n {
                    s += self.vectors.at(i, k) * self.vectors.at(j, k) / self.values[k].sqrt();
                }
                m.set(i, j, s);
            }
        }
        m
    }
}

pub fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}

pub fn selftest() -> Result<(), String> {
    let mut rng = crate::util::Rng::new(7);
    for n in 1..12 {
        let mut m = Mat::zeros(n);
        // Random SPD with a wide spectrum
        for _ in 0..(n + 2) {
            let v: Vec<f64> = (0..n).map(|_| rng.range(-1.0, 1.0)).collect();
            let s = rng.log_range(1e-4, 1e4);
            for i in 0..n {
                for j in 0..n {
                    let x = m.at(i, j) + s * v[i] * v[j];
                    m.set(i, j, x);
                }
            }
        }
        let e = jacobi(&m);
        for i in 0..n {
            for j in 0..n {
                let mut s = 0.0;
                let mut o = 0.0;
                for k in 0..n {
                    s += e.vectors.at(i, k) * e.values[k] * e.vectors.at(j, k);
                    o += e.vectors.at(k, i) * e.vectors.at(k, j);
                }
                if (s - m.at(i, j)).abs() > 1e-12 * m.max_abs() {
                    return Err(format!("jacobi does not reconstruct (n={})", n));
                }
                if (o - if i == j { 1.0 } else { 0.0 }).abs() > 1e-12 {
                    return Err(format!("jacobi not orthonormal (n={})", n));
                }
            }
        }
    }
    Ok(())
}
