//! C04: a modal study returns the lowest modes in order.  C05: an eigenvalue search can be advanced in any steps.
use crate::c03::{self, Kind};
use crate::fem::{self, Opts};
use crate::la::{self, Mat};
use bugi::element::constraint::Constraint;
use bugi::element::strain::Condition;
use bugi::matrix::solve::eigen::{DeterminantSearcher, EigenSystem};
use bugi::matrix::solve::System;
use bugi::matrix::{Dictionary, MatrixLike};
use crate::spectrum::{separated, slack, stray};
use simkit::{bad, discard, hit, sched, shared, trivial, Property, Tape, Verdict};

fn m_dot(m: &Mat, a: &[f64], b: &[f64]) -> f64 {
    la::mul_vec(m, b).iter().zip(a).map(|(x, y)| x * y).sum()
}

// ---- C04 ---------------------------------------------------------------------------------------

fn run_c04(t: &mut Tape) -> Verdict {
    let cells = if t.chance(1, 30) { 3 + t.usize(3) } else { 1 + t.usize(2) };
    let o = Opts { bodies: 1 + t.usize(2), cells, loads: t.chance(1, 4), firm: t.chance(1, 2), ..Opts::default() };
    let mut m = fem::generate(t, o);
    let want_n = t.word();
    let keys = [t.word(), t.word()];
    // materials of different density, so that nothing hides behind a density of one
    if t.chance(1, 2) {
        m.mat = bugi::element::material::Material { name: "dense", youngs: 9.0, poisson: 0.25, density: 0.5 * t.range(1, 9) as f64 };
    }
    let z = m.basis();
    let free = z.first().map_or(0, |r| r.len());
    if free == 0 {
        return discard("no free displacement");
    }
    let n = (1 + want_n as usize % free).min(1 + (want_n >> 32) as usize % 12);
    shared::describe(|| format!("{}\n{} modes of {}, hash keys {:x?}", m.show(), n, free, keys));
    if m.reference_ok().is_none() {
        return discard("not well posed or ill conditioned");
    }
    let (kr, mr) = (m.reduce(&m.k(), &z), m.reduce(&m.m(), &z));
    let (vals, vecs) = match la::gen_eigen(&kr, &mr) {
        Some(x) => x,
        None => return discard("mass matrix not positive definite"),
    };
    // beyond the modes asked for the search may look one step further
    if !separated(&vals) {
        return discard("natural frequencies not well separated");
    }
    hit(match m.cond {
        Condition::PlaneStress(_) => 0,
        Condition::PlaneStrain(_) => 1,
        Condition::Axisymmetric => 2,
    });
    if m.body.iter().max() != m.body.iter().min() {
        hit(3);
    }
    if n == free {
        hit(4);
    }
    if m.merged().iter().any(|c| matches!(c, Constraint::AngleFixed(_))) {
        hit(5);
    }
    for key in keys {
        shared::describe(|| format!("modal study under hash keys {:#x}", key));
        let got = fem::on_thread(key, || {
            let mut e = m.build();
            let modes = e.calc_modes(n);
            modes.iter().map(|d| (d.frequency(), fem::disp(d))).collect::<Vec<_>>()
        });
        let got = match got {
            Ok(g) => g,
            Err(e) => return bad("panic", format!("modal study for {} modes panicked: {}", n, e)),
        };
        if got.len() != n {
            return bad("count", format!("{} modes asked for, {} returned", n, got.len()));
        }
        for (i, (f, u)) in got.iter().enumerate() {
            let f = match f {
                Some(f) => *f,
                None => return bad("frequency", format!("mode {} has no frequency", i)),
            };
            if !((f * f - vals[i]).abs() <= slack(&vals, i)) {
                return bad(
                    "frequency",
                    format!("mode {} has frequency {:e} (squared {:e}); the natural frequencies squared are {:?}", i, f, f * f, vals),
                );
            }
            if u.len() != 2 * m.nodes.len() || u.iter().any(|x| !x.is_finite()) {
                return bad("shape", format!("mode {} has shape {:?}", i, u));
            }
            let big = la::max_abs(u);
            for (j, c) in m.merged().iter().enumerate() {
                let slip = match c {
                    Constraint::Free => 0.0,
                    Constraint::XFixed => u[2 * j].abs(),
                    Constraint::YFixed => u[2 * j + 1].abs(),
                    Constraint::XYFixed => u[2 * j].abs().max(u[2 * j + 1].abs()),
                    Constraint::AngleFixed(a) => (u[2 * j] * a.cos() + u[2 * j + 1] * a.sin()).abs(),
                };
                if !(slip <= 1e-9 * big) {
                    return bad("support", format!("mode {} moves support {:?} of node {} by {:e} of {:e}", i, c, j, slip, big));
                }
            }
            let x = la::mul_vec(&la::transpose(&z), u);
            let col: Vec<f64> = (0..free).map(|r| vecs[r][i]).collect();
            let mac = m_dot(&mr, &x, &col).powi(2) / m_dot(&mr, &x, &x);
            if !(mac >= 1.0 - stray(&vals, i)) {
                return bad("mode", format!("shape of mode {} (squared frequency {:e}) is not that mode: overlap {:.6}", i, f * f, mac));
            }
        }
    }
    Ok(())
}

pub const C04: Property = Property {
    id: "C04",
    run: run_c04,
    probes: &["plane stress", "plane strain", "axisymmetric", "two bodies", "all modes asked for", "inclined support"],
    quick: 32_000,
    thorough: 500_000,
    fuel: 400_000_000,
    rule: "a run draws a model as in C01, the number of modes and two hash keys and performs the modal study under each; non-trivial: well posed with natural frequencies separated by more than 0.2%",
    real: &["element", "matrix (eigen search, sparse storage, graph)", "fastrand", "std hash containers with simulated keys"],
    stub: &["crate spacemath, file, mesher and the command line are not part of this build"],
    assumptions: &[
        "reference: own consistent mass and stiffness matrices and a Jacobi solution of the generalised problem",
        "squared frequencies agree to 1.2e-4 (the search accepts a value within 1e-4); the mode's overlap with the reference mode is above 1 - 5e-4/(relative distance to the neighbour), at least 0.97",
        "natural frequencies distinct by more than 0.2% and spread over less than 1e9",
    ],
};

// ---- C05 ---------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
enum Op {
    Step,
    Find(usize),
    Under(f64),
    Read,
}

fn run_c05(t: &mut Tape) -> Verdict {
    let large = t.chance(1, 30);
    let n = match t.usize(3) {
        _ if large => if t.chance(1, 25) { t.range(50, 120) } else { t.range(15, 40) },
        0 => t.range(1, 3),
        1 => t.range(2, 6),
        _ => t.range(4, 14),
    };
    if n > 40 {
        sched::set_fuel(3_000_000_000);
    }
    let kind = [Kind::Dominant, Kind::Springs][t.usize(2)];
    let kc = c03::contributions(t, n, kind);
    let km = c03::sum(n, &kc);
    // mass within the pattern of the stiffness: lumped, or diagonally dominant on the same couplings
    let mut mc: Vec<(usize, usize, f64)> = Vec::new();
    let lumped = t.chance(1, 2);
    let unit = 2f64.powi([0, 10, -10][t.usize(3)]);
    let mut d: Vec<f64> = (0..n).map(|_| 0.25 * t.range(1, 12) as f64).collect();
    if !lumped {
        for i in 0..n {
            for j in 0..i {
                if kc.iter().any(|c| (c.0, c.1) == (i, j)) {
                    let v = t.lattice(3, 0.125);
                    mc.push((i, j, v * unit));
                    mc.push((j, i, v * unit));
                    d[i] += v.abs();
                    d[j] += v.abs();
                }
            }
        }
    }
    for i in 0..n {
        mc.push((i, i, d[i] * unit));
    }
    let p = t.permutation(mc.len());
    let mc: Vec<_> = p.iter().map(|&i| mc[i]).collect();
    let mm = c03::sum(n, &mc);
    let route = t.usize(2);
    let key = t.word();
    if la::cholesky(&km).is_none() {
        return discard("stiffness not positive definite");
    }
    let (vals, vecs) = match la::gen_eigen(&km, &mm) {
        Some(x) => x,
        None => return discard("mass matrix not positive definite"),
    };
    if !separated(&vals) {
        return discard("eigenvalues not well separated");
    }
    let mut ops = Vec::new();
    let k = t.range(1, 8);
    for _ in 0..k {
        ops.push(match t.usize(4) {
            0 => Op::Step,
            1 => Op::Find(t.range(0, n)),
            2 => {
                // a round number, a multiple of an entry ratio, or somewhere in the spectrum
                let l = match t.usize(3) {
                    0 => 0.25 * t.range(0, 64) as f64 / unit,
                    1 => {
                        let i = t.usize(n);
                        km[i][i] / mm[i][i]
                    }
                    _ => vals[t.usize(n)] * (0.5 + t.range(0, 100) as f64 / 100.0),
                };
                if vals.iter().any(|v| (v - l).abs() < 1e-4 * v) {
                    continue;
                }
                Op::Under(l)
            }
            _ => Op::Read,
        });
    }
    shared::describe(|| format!("{} unknowns\nstiffness {:?}\nmass {:?}\nroute {} hash keys {:#x}\nsteps {:?}\neigenvalues {:?}", n, kc, mc, route, key, ops, vals));
    if ops.len() < 2 {
        trivial();
    }
    for o in &ops {
        hit(match o {
            Op::Step => 0,
            Op::Find(_) => 1,
            Op::Under(_) => 2,
            Op::Read => 3,
        });
    }
    let r = fem::on_thread(key, || -> Verdict {
        let sys = if route == 0 {
            let mut s = System::new(n);
            for &(i, j, v) in &kc {
                s.add_k_coefficient((i, j), v);
            }
            for &(i, j, v) in &mc {
                s.add_m_coefficient((i, j), v);
            }
            s
        } else {
            let mut k = Dictionary::zeros(n);
            let mut m = Dictionary::zeros(n);
            for &(i, j, v) in &kc {
                k[(i, j)] += v;
            }
            for &(i, j, v) in &mc {
                m[(i, j)] += v;
            }
            System::from_km(&k, &m)
        };
        let es = EigenSystem::new(sys);
        if es.dofs() != n {
            return bad("dofs", format!("{} unknowns reported", es.dofs()));
        }
        let mut s = DeterminantSearcher::new(es);
        let mut seen: Vec<(f64, Vec<f64>)> = Vec::new();
        for op in &ops {
            let before = s.eigenpairs().len();
            let part = match *op {
                Op::Step => {
                    s.secant_iterate_one();
                    let now = s.eigenpairs().len();
                    if before < n && now <= before {
                        return bad("stuck", format!("a search step found nothing with {} of {} known", before, n));
                    }
                    continue;
                }
                Op::Find(k) => {
                    let f = s.find_eigens(k);
                    if f.len() != k {
                        return bad("count", format!("{} pairs asked for, {} returned", k, f.len()));
                    }
                    f
                }
                Op::Under(l) => {
                    let got = s.eigenvalues_under(l);
                    let want = vals.iter().filter(|&&v| v < l).count();
                    if got != want {
                        return bad("under", format!("{} eigenvalues below {:e} reported, there are {}", got, l, want));
                    }
                    continue;
                }
                Op::Read => vec![],
            };
            let all = s.eigenpairs();
            if all.len() > n {
                return bad("count", format!("{} pairs of a problem with {} unknowns", all.len(), n));
            }
            for (i, e) in part.iter().enumerate() {
                if i >= all.len() || e.value() != all[i].value() || e.vector() != all[i].vector() {
                    return bad("prefix", format!("pair {} returned differs from the pair found", i));
                }
            }
            for (i, e) in all.iter().enumerate() {
                if let Some(o) = seen.get(i) {
                    if o.0 != e.value() || o.1 != e.vector() {
                        return bad("changed", format!("pair {} was {:?}, later {:?}", i, o, (e.value(), e.vector())));
                    }
                    continue;
                }
                if !((e.value() - vals[i]).abs() <= slack(&vals, i)) {
                    return bad("value", format!("pair {} has value {:e}", i, e.value()));
                }
                let x = e.vector().to_vec();
                if x.len() != n {
                    return bad("vector", format!("pair {} has a vector of {} entries", i, x.len()));
                }
                let nx = m_dot(&mm, &x, &x);
                if !((nx - 1.0).abs() < 1e-6) {
                    return bad("norm", format!("pair {} has mass norm {:e}", i, nx));
                }
                let col: Vec<f64> = (0..n).map(|r| vecs[r][i]).collect();
                let mac = m_dot(&mm, &x, &col).powi(2);
                if !(mac >= 1.0 - stray(&vals, i)) {
                    return bad("vector", format!("vector of pair {} has overlap {:.6} with the eigenvector", i, mac));
                }
                for (j, o) in seen.iter().enumerate() {
                    if !(m_dot(&mm, &x, &o.1).abs() < stray(&vals, i).sqrt() + stray(&vals, j).sqrt()) {
                        return bad("orthogonal", format!("pairs {} and {} overlap by {:e}", i, j, m_dot(&mm, &x, &o.1)));
                    }
                }
                seen.push((e.value(), x));
            }
            if seen.len() == n {
                hit(4);
            }
        }
        Ok(())
    });
    match r {
        Ok(v) => v,
        Err(e) => bad("panic", format!("the search panicked: {}", e)),
    }
}

pub const C05: Property = Property {
    id: "C05",
    run: run_c05,
    probes: &["single search step", "request for lowest pairs", "count below a value", "read of the pairs found", "whole spectrum found"],
    quick: 120_000,
    thorough: 2_000_000,
    fuel: 100_000_000,
    rule: "a run draws a symmetric positive definite pencil (shuffled contributions, lumped or coupled mass), hash keys and a history of up to eight search steps, requests, counts and reads on one searcher; non-trivial: two or more operations",
    real: &["matrix (eigen search, sparse storage, graph)", "fastrand", "std hash containers with simulated keys"],
    stub: &["crate spacemath, file, mesher and the command line are not part of this build"],
    assumptions: &[
        "eigenvalues distinct by more than 0.2%; counts are asked at values at least 1e-4 from every eigenvalue",
        "the mass couples only unknowns the stiffness couples (the code asserts it)",
        "values agree to 1.2e-4 (the search accepts a value within 1e-4); overlap with the reference eigenvector above 1 - 5e-4/(relative distance to the neighbour), at least 0.97; earlier pairs are compared bit for bit",
    ],
};
