//! Small dense linear algebra for the reference models, independent of the code under test.
pub type Mat = Vec<Vec<f64>>;

pub fn zeros(r: usize, c: usize) -> Mat {
    vec![vec![0.0; c]; r]
}

pub fn mul_vec(a: &Mat, x: &[f64]) -> Vec<f64> {
    a.iter().map(|r| r.iter().zip(x).map(|(p, q)| p * q).sum()).collect()
}

pub fn mul(a: &Mat, b: &Mat) -> Mat {
    let (n, k, m) = (a.len(), b.len(), if b.is_empty() { 0 } else { b[0].len() });
    let mut c = zeros(n, m);
    for i in 0..n {
        for l in 0..k {
            let x = a[i][l];
            if x != 0.0 {
                for j in 0..m {
                    c[i][j] += x * b[l][j];
                }
            }
        }
    }
    c
}

pub fn transpose(a: &Mat) -> Mat {
    let (n, m) = (a.len(), if a.is_empty() { 0 } else { a[0].len() });
    let mut t = zeros(m, n);
    for i in 0..n {
        for j in 0..m {
            t[j][i] = a[i][j];
        }
    }
    t
}

pub fn max_abs(x: &[f64]) -> f64 {
    x.iter().fold(0.0, |m, v| if v.is_nan() { f64::INFINITY } else { m.max(v.abs()) })
}

pub fn norm_inf(a: &Mat) -> f64 {
    a.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max)
}

/// Gauss-Jordan inverse with full row pivoting; None when numerically singular.
pub fn inverse(a: &Mat) -> Option<Mat> {
    let n = a.len();
    let mut w: Mat = a.clone();
    let mut v = zeros(n, n);
    for i in 0..n {
        v[i][i] = 1.0;
    }
    let scale = norm_inf(a).max(1e-300);
    for c in 0..n {
        let p = (c..n).max_by(|&i, &j| w[i][c].abs().partial_cmp(&w[j][c].abs()).unwrap())?;
        if !(w[p][c].abs() > 1e-14 * scale) {
            return None;
        }
        w.swap(c, p);
        v.swap(c, p);
        let d = w[c][c];
        for j in 0..n {
            w[c][j] /= d;
            v[c][j] /= d;
        }
        for i in 0..n {
            if i != c && w[i][c] != 0.0 {
                let f = w[i][c];
                for j in 0..n {
                    w[i][j] -= f * w[c][j];
                    v[i][j] -= f * v[c][j];
                }
            }
        }
    }
    Some(v)
}

/// Lower Cholesky factor; None when not positive definite.
pub fn cholesky(a: &Mat) -> Option<Mat> {
    let n = a.len();
    let mut l = zeros(n, n);
    for i in 0..n {
        for j in 0..=i {
            let mut s = a[i][j];
            for k in 0..j {
                s -= l[i][k] * l[j][k];
            }
            if i == j {
                if !(s > 1e-14 * a[i][i].abs()) || !(s > 0.0) {
                    return None;
                }
                l[i][i] = s.sqrt();
            } else {
                l[i][j] = s / l[j][j];
            }
        }
    }
    Some(l)
}

/// Eigenvalues (ascending) and orthonormal eigenvectors (columns) of a symmetric matrix, by Jacobi.
pub fn eigen(a: &Mat) -> (Vec<f64>, Mat) {
    let n = a.len();
    let mut a = a.clone();
    let mut v = zeros(n, n);
    for i in 0..n {
        v[i][i] = 1.0;
    }
    for _ in 0..100 {
        let mut off = 0.0;
        let mut tot = 0.0;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    off += a[i][j] * a[i][j];
                }
                tot += a[i][j] * a[i][j];
            }
        }
        if off <= 1e-30 * tot {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q] == 0.0 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[k][p], v[k][q]);
                    v[k][p] = c * x - s * y;
                    v[k][q] = s * x + c * y;
                }
            }
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&i, &j| a[i][i].partial_cmp(&a[j][j]).unwrap());
    let vals = idx.iter().map(|&i| a[i][i]).collect();
    let mut vec = zeros(n, n);
    for (c, &i) in idx.iter().enumerate() {
        for k in 0..n {
            vec[k][c] = v[k][i];
        }
    }
    (vals, vec)
}

/// Generalised symmetric eigenproblem K x = l M x with M positive definite; vectors M-orthonormal.
pub fn gen_eigen(k: &Mat, m: &Mat) -> Option<(Vec<f64>, Mat)> {
    let n = k.len();
    let l = cholesky(m)?;
    // A = L^-1 K L^-T
    let mut li = zeros(n, n);
    for c in 0..n {
        for i in c..n {
            let mut s = if i == c { 1.0 } else { 0.0 };
            for j in c..i {
                s -= l[i][j] * li[j][c];
            }
            li[i][c] = s / l[i][i];
        }
    }
    let lit = transpose(&li);
    let mut a = mul(&mul(&li, k), &lit);
    for i in 0..n {
        for j in 0..i {
            let x = 0.5 * (a[i][j] + a[j][i]);
            a[i][j] = x;
            a[j][i] = x;
        }
    }
    let (vals, y) = eigen(&a);
    Some((vals, mul(&lit, &y)))
}
