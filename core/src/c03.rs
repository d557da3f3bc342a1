//! C03: solvers are interchangeable and never pass off a non-solution as a solution.
use crate::fem;
use crate::la::{self, Mat};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::matrix::solve::{Solver, System};
use bugi::matrix::{CompressedRow, Dictionary, LinearMatrix, MatrixLike};
use simkit::{bad, discard, hit, sched, shared, trivial, Property, Tape, Verdict};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Springs,
    Dominant,
    Indefinite,
    Loose,
}

/// Contributions (row, column, value) whose sum is a symmetric matrix.
pub fn contributions(t: &mut Tape, n: usize, kind: Kind) -> Vec<(usize, usize, f64)> {
    let mut c: Vec<(usize, usize, f64)> = Vec::new();
    match kind {
        Kind::Springs | Kind::Loose => {
            let k = t.range(0, 2 * n);
            for _ in 0..k {
                let i = t.usize(n);
                let j = t.usize(n);
                if i == j {
                    continue;
                }
                let v = 0.25 * t.range(1, 16) as f64;
                let s = if t.chance(1, 4) { 1.0 } else { -1.0 };
                c.extend([(i, i, v), (i, j, s * v), (j, i, s * v), (j, j, v)]);
            }
            let slack = if kind == Kind::Loose { Some(t.usize(n)) } else { None };
            for i in 0..n {
                if Some(i) != slack && t.chance(3, 4) {
                    c.push((i, i, 0.25 * t.range(1, 16) as f64));
                } else if kind == Kind::Springs {
                    c.push((i, i, 0.0625));
                }
            }
        }
        Kind::Dominant => {
            let mut sum = vec![0.0; n];
            let k = t.range(0, 2 * n);
            for _ in 0..k {
                let i = t.usize(n);
                let j = t.usize(n);
                if i == j {
                    continue;
                }
                let v = t.lattice(8, 0.25);
                c.extend([(i, j, v), (j, i, v)]);
                sum[i] += v.abs();
                sum[j] += v.abs();
            }
            let by = [2.0, 1.25, 8.0][t.usize(3)];
            for i in 0..n {
                c.push((i, i, by * sum[i] + 0.25 * t.range(1, 8) as f64));
            }
        }
        Kind::Indefinite => {
            let k = t.range(n, 3 * n);
            for _ in 0..k {
                let i = t.usize(n);
                let j = t.usize(n);
                let v = t.lattice(12, 0.25);
                c.push((i, j, v));
                if i != j {
                    c.push((j, i, v));
                }
            }
        }
    }
    // units of the unknowns
    if t.chance(1, 3) {
        let e: Vec<i32> = (0..n).map(|_| t.range(0, 8) as i32 - 4).collect();
        for x in c.iter_mut() {
            x.2 *= 2f64.powi(e[x.0] + e[x.1]);
        }
    }
    // split a contribution in two, and add some that cancel
    let k = t.usize(4);
    for _ in 0..k {
        if c.is_empty() {
            break;
        }
        let i = t.usize(c.len());
        let part = c[i].2 * 0.5;
        c[i].2 -= part;
        c.push((c[i].0, c[i].1, part));
    }
    if t.chance(1, 4) {
        let (i, j) = (t.usize(n), t.usize(n));
        c.push((i, j, 3.0));
        c.push((i, j, -3.0));
        if i != j {
            c.push((j, i, 3.0));
            c.push((j, i, -3.0));
        }
    }
    let p = t.permutation(c.len());
    p.iter().map(|&i| c[i]).collect()
}

pub fn sum(n: usize, c: &[(usize, usize, f64)]) -> Mat {
    let mut k = la::zeros(n, n);
    for &(i, j, v) in c {
        k[i][j] += v;
    }
    k
}

/// (condition number after diagonal scaling, inverse) if clearly nonsingular
pub fn conditioned(k: &Mat) -> Option<(f64, Mat)> {
    let n = k.len();
    let d: Vec<f64> = (0..n).map(|i| k[i].iter().fold(0.0f64, |a, x| a.max(x.abs())).sqrt()).collect();
    if d.iter().any(|&x| x == 0.0) {
        return None;
    }
    let mut s = k.clone();
    for i in 0..n {
        for j in 0..n {
            s[i][j] /= d[i] * d[j];
        }
    }
    let mut inv = la::inverse(&s)?;
    let cond = la::norm_inf(&s) * la::norm_inf(&inv);
    if !(cond < 1e7) {
        return None;
    }
    for i in 0..n {
        for j in 0..n {
            inv[i][j] /= d[i] * d[j];
        }
    }
    Some((cond, inv))
}

#[derive(Debug)]
enum Got {
    Answer(Vec<f64>),
    Refused(String),
}

fn run_c03(t: &mut Tape) -> Verdict {
    let large = t.chance(1, 40);
    let n = match t.usize(4) {
        _ if large => if t.chance(1, 25) { t.range(100, 300) } else { t.range(25, 90) },
        0 => t.range(1, 3),
        1 | 2 => t.range(2, 8),
        _ => t.range(4, 24),
    };
    if n > 90 {
        sched::set_fuel(3_000_000_000);
    }
    let kind = [Kind::Springs, Kind::Dominant, Kind::Indefinite, Kind::Loose][t.usize(4)];
    // units of the coefficients, sometimes so that their products leave the range of the numbers
    let far = t.chance(1, 10);
    let scale = 2f64.powi(if far { [250, -250, 520, -520][t.usize(4)] } else { [0, 30, -30, 10][t.usize(4)] });
    let mut c = contributions(t, n, kind);
    for x in c.iter_mut() {
        x.2 *= scale;
    }
    let rscale = 2f64.powi([0, -20, 20][t.usize(3)]) * if far { scale } else { 1.0 };
    let mut rc: Vec<(usize, f64)> = Vec::new();
    let k = if t.chance(1, 8) { 0 } else { t.range(1, n + 2) };
    for _ in 0..k {
        let i = t.usize(n);
        rc.push((i, t.lattice(12, 0.25) * rscale));
    }
    let route = t.usize(5);
    let early = t.chance(1, 5);
    if far {
        hit(9);
    }
    let keys: Vec<u64> = (0..3).map(|_| t.word()).collect();
    shared::describe(|| {
        format!("{:?} system of {} unknowns\ncontributions {:?}\nright-hand side {:?}\nroute {} reduced first {} hash keys {:x?}", kind, n, c, rc, route, early, keys)
    });
    let km = sum(n, &c);
    let mut r = vec![0.0; n];
    for &(i, v) in &rc {
        r[i] += v;
    }
    if c.is_empty() {
        return discard("no coefficients");
    }
    if la::max_abs(&r) == 0.0 {
        trivial();
        hit(6);
    }
    for i in 0..n {
        for j in 0..i {
            if (km[i][j] - km[j][i]).abs() > 1e-9 * (km[i][j].abs() + km[j][i].abs()) {
                return discard("generator: not symmetric");
            }
        }
    }
    let good = conditioned(&km);
    // row dominance of 8: each sweep at least halves the error
    let strong = n > 0 && (0..n).all(|i| km[i][i] > 0.0 && 7.9 * (0..n).filter(|&j| j != i).map(|j| km[i][j].abs()).sum::<f64>() < km[i][i]);
    if strong {
        hit(8);
    }
    let spd = good.is_some() && la::cholesky(&km).is_some();
    match (&good, spd) {
        (Some(_), true) => hit(0),
        (Some(_), false) => hit(1),
        _ => hit(2),
    }
    let system = || -> System {
        match route {
            0 | 1 => {
                let mut s = System::new(n);
                for &(i, j, v) in &c {
                    s.add_k_coefficient((i, j), v);
                }
                s.add_rhs_val(0, 0.0);
                for &(i, v) in &rc {
                    s.add_rhs_val(i, v);
                }
                s
            }
            2 => {
                let mut d = Dictionary::zeros(n);
                for &(i, j, v) in &c {
                    d[(i, j)] += v;
                }
                System::from_kr(&d, &LinearMatrix::col_vec(r.clone()))
            }
            3 => System::from_kr(
                &LinearMatrix::from_flat(n, km.iter().flatten().copied().collect::<Vec<f64>>()),
                &LinearMatrix::col_vec(r.clone()),
            ),
            _ => System::from_kr(
                &CompressedRow::from_flat(n, km.iter().flatten().copied().collect::<Vec<f64>>()),
                &LinearMatrix::col_vec(r.clone()),
            ),
        }
    };
    fn go<S: Solver>(s: System) -> Got {
        match S::new(s).solve() {
            Ok(x) => Got::Answer(x),
            Err(()) => Got::Refused("Err".into()),
        }
    }
    // (without overflow)
    fn norm<'a>(v: impl Iterator<Item = &'a f64> + Clone) -> f64 {
        let big = v.clone().fold(0.0f64, |a, x| a.max(x.abs()));
        if big == 0.0 {
            return 0.0;
        }
        big * v.map(|x| (x / big) * (x / big)).sum::<f64>().sqrt()
    }
    let frob = norm(km.iter().flatten());
    for (w, who) in ["dense Gauss", "envelope Cholesky", "Gauss-Seidel"].iter().enumerate() {
        shared::describe(|| format!("{}", who));
        let early = early && w != 1;
        if early {
            hit(7);
        }
        let got = fem::on_thread(keys[w], || {
            let mut s = system();
            if early {
                s.reduce_envelope();
            }
            match w {
                0 => go::<DenseGaussSolver>(s),
                1 => go::<CholeskyEnvelopeSolver>(s),
                _ => go::<GaussSeidelSolver>(s),
            }
        });
        let got = match got {
            Ok(g) => g,
            Err(e) => Got::Refused(format!("panic: {}", e)),
        };
        let must = match w {
            0 => good.is_some(),
            1 => spd,
            _ => strong,
        };
        let x = match got {
            Got::Refused(why) => {
                if must {
                    return bad("refused", format!("{} did not solve a nonsingular{}{} system: {}", who, if spd { ", positive definite" } else { "" }, if strong { ", diagonally dominant" } else { "" }, why));
                }
                hit(3 + if w == 2 { 1 } else { 0 });
                continue;
            }
            Got::Answer(x) => x,
        };
        if w == 2 {
            hit(5);
        }
        if x.len() != n {
            return bad("length", format!("{} returned {} values for {} unknowns", who, x.len(), n));
        }
        if x.iter().any(|v| !v.is_finite()) {
            return bad("not-finite", format!("{} returned success with {:?}", who, x));
        }
        let kx = la::mul_vec(&km, &x);
        if w < 2 {
            // row by row, relative to the terms of the whole system
            let ku = la::norm_inf(&km) * la::max_abs(&x) + la::max_abs(&r);
            for i in 0..n {
                if !((kx[i] - r[i]).abs() <= 1e-9 * ku) {
                    return bad("residual", format!("{} returned {:?}; equation {} is off by {:e}", who, x, i, kx[i] - r[i]));
                }
            }
            if let Some((cond, inv)) = &good {
                let want = la::mul_vec(inv, &r);
                // in the metric of the row scaling the error is bounded by the condition number
                let s: Vec<f64> = (0..n).map(|i| km[i].iter().fold(0.0f64, |a, x| a.max(x.abs())).sqrt()).collect();
                let big = (0..n).map(|i| (want[i] * s[i]).abs()).fold(0.0, f64::max);
                for i in 0..n {
                    if *cond < 1e5 && !((x[i] - want[i]).abs() * s[i] <= 1e-6 * big) {
                        return bad("answer", format!("{} returned {:e} for unknown {}, the solution is {:e}", who, x[i], i, want[i]));
                    }
                }
            }
        } else {
            let off: Vec<f64> = kx.iter().zip(&r).map(|(a, b)| a - b).collect();
            let res = norm(off.iter());
            let nx = norm(x.iter());
            if !(res <= 2.0 * 0.001 * frob * nx * (1.0 + 1e-9)) {
                return bad("tolerance", format!("{} returned {:?}; residual norm {:e} against tolerance 0.001 x {:e}", who, x, res, frob * nx));
            }
        }
    }
    Ok(())
}

pub const C03: Property = Property {
    id: "C03",
    run: run_c03,
    probes: &[
        "positive definite system", "nonsingular indefinite system", "singular or ill-conditioned system", "direct solver refused",
        "iterative solver refused", "iterative solver converged", "zero right-hand side", "renumbered before the solver",
        "strongly diagonally dominant system", "coefficients near the end of the number range",
    ],
    quick: 120_000,
    thorough: 4_000_000,
    fuel: 60_000_000,
    rule: "a run draws the number of unknowns, a coupling pattern, a shuffled history of coefficient and right-hand-side contributions (split, cancelling, scaled), the way they enter the system and hash keys, and gives the system to the three solvers on fresh simulated threads; non-trivial: the right-hand side is not zero",
    real: &["matrix (solvers, sparse and dense storage, graph)", "std hash containers with simulated keys"],
    stub: &["crate spacemath, file, mesher and the command line are not part of this build"],
    assumptions: &[
        "a system counts as nonsingular when its scaled condition number is below 1e7 by the harness's own pivoted inversion",
        "a solver reports failure by returning Err or by panicking",
        "the iterative solver's tolerance is 0.001 on the relative change per sweep; a vector meets it when its residual is below twice 0.001 |K| |u|",
        "at least one unknown and one coefficient",
    ],
};
