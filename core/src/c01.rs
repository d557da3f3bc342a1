//! C01: a linear study returns the equilibrium of the model.  C02: every load acts exactly once.
use crate::fem::{self, Model, Opts, Reference};
use crate::la;
use bugi::element::constraint::Constraint;
use bugi::element::strain::Condition;
use bugi::element::NodeId;
use bugi::matrix::MatrixLike;
use simkit::{bad, discard, hit, sched, shared, trivial, Property, Tape, Verdict};

pub struct Study {
    pub u: Vec<f64>,
    pub norms: Vec<f64>,
    pub stress: Vec<Option<[f64; 3]>>,
    /// equivalent stresses (axisymmetric models)
    pub equivalent: Vec<f64>,
}

pub fn study(m: &Model, cholesky: bool) -> Study {
    let mut e = m.build();
    let plane = !matches!(m.cond, Condition::Axisymmetric);
    let d = bugi::sim_calls::displacements(&mut e, cholesky as usize);
    let equivalent = if plane { vec![] } else { d.von_mises() };
    let stress = if plane {
        d.stresses()
            .into_iter()
            .map(|s| {
                s.map(|s| {
                    let c = s.to_cauchy();
                    [c[(0, 0)], c[(1, 1)], c[(0, 1)]]
                })
            })
            .collect()
    } else {
        vec![]
    };
    let _ = <bugi::matrix::LinearMatrix as MatrixLike>::shape; // the trait is used through indexing
    Study { u: fem::disp(&d), norms: d.displacement_norms(), stress, equivalent }
}

/// The supports hold and the displacement is the reference equilibrium.
pub fn judge(m: &Model, s: &Study, want: &[f64], floor: f64, who: &str) -> Verdict {
    let n = m.nodes.len();
    if s.u.len() != 2 * n || s.norms.len() != n {
        return bad("shape", format!("{}: {} displacement components for {} nodes", who, s.u.len(), n));
    }
    let scale = la::max_abs(want).max(floor);
    if !(la::max_abs(&s.u) < 1e300) {
        return bad("not-finite", format!("{}: displacement is not finite: {:?}", who, s.u));
    }
    for (i, c) in m.merged().iter().enumerate() {
        let (ux, uy) = (s.u[2 * i], s.u[2 * i + 1]);
        let slip = match c {
            Constraint::Free => 0.0,
            Constraint::XFixed => ux.abs(),
            Constraint::YFixed => uy.abs(),
            Constraint::XYFixed => ux.abs().max(uy.abs()),
            Constraint::AngleFixed(a) => (ux * a.cos() + uy * a.sin()).abs(),
        };
        if slip > 1e-9 * scale {
            return bad("support", format!("{}: support {:?} at node {} slips by {:e} (largest displacement {:e})", who, c, i, slip, scale));
        }
    }
    for i in 0..2 * n {
        if !((s.u[i] - want[i]).abs() <= 1e-6 * scale) {
            return bad(
                "equilibrium",
                format!("{}: displacement {} of node {} is {:e}, equilibrium needs {:e} (largest {:e})", who, ["x", "y"][i % 2], i / 2, s.u[i], want[i], scale),
            );
        }
    }
    for i in 0..n {
        let w = (s.u[2 * i].powi(2) + s.u[2 * i + 1].powi(2)).sqrt();
        if !((s.norms[i] - w).abs() <= 1e-9 * scale) {
            return bad("norm", format!("{}: reported displacement magnitude {:e} at node {} is not {:e}", who, s.norms[i], i, w));
        }
    }
    Ok(())
}

fn judge_stress(m: &Model, s: &Study, who: &str) -> Verdict {
    let want = m.stress_ref(&s.u);
    if s.stress.is_empty() {
        if s.equivalent.len() != want.len() {
            return bad("stress", format!("{}: {} equivalent stresses for {} nodes", who, s.equivalent.len(), want.len()));
        }
        for (i, w) in want.iter().enumerate() {
            // nodes of no element have none
            let (w, mag) = w.map_or((0.0, 0.0), |(x, mag)| {
                let n = (x[0] - x[1]).powi(2) + (x[1] - x[3]).powi(2) + (x[0] - x[3]).powi(2);
                ((0.5 * n + 3.0 * x[2] * x[2]).sqrt(), mag)
            });
            if !((s.equivalent[i] - w).abs() <= 1e-8 * mag + 1e-90) {
                return bad("stress", format!("{}: equivalent stress at node {} is {:e}, that of the element average is {:e}", who, i, s.equivalent[i], w));
            }
        }
        return Ok(());
    }
    for i in 0..m.nodes.len() {
        match (&s.stress[i], &want[i]) {
            (None, None) => {}
            (Some(a), Some((b, mag))) => {
                for q in 0..3 {
                    if !((a[q] - b[q]).abs() <= 1e-9 * mag + 1e-90) {
                        return bad(
                            "stress",
                            format!("{}: stress component {} at node {} is {:e}, the element average is {:e}", who, q, i, a[q], b[q]),
                        );
                    }
                }
            }
            (a, b) => return bad("stress", format!("{}: stress at node {}: {:?}, expected {:?}", who, i, a.is_some(), b.is_some())),
        }
    }
    Ok(())
}

fn shape_probes(m: &Model) {
    match m.cond {
        Condition::PlaneStress(_) => hit(0),
        Condition::PlaneStrain(_) => hit(1),
        Condition::Axisymmetric => hit(2),
    }
    if m.merged().iter().any(|c| matches!(c, Constraint::AngleFixed(_))) {
        hit(3);
    }
    let nb = m.body.iter().max().unwrap() + 1;
    if nb > 1 {
        hit(4);
    }
    if (0..m.nodes.len()).any(|i| !m.els.iter().any(|e| e.contains(&i))) {
        hit(5);
    }
    let cw = m.els.iter().any(|e| {
        let p: Vec<[f64; 2]> = e.iter().map(|&i| m.nodes[i]).collect();
        (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) < (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])
    });
    if cw {
        hit(6);
    }
    if m.line.iter().any(|l| m.edge_uses(l.0, l.1) == 2) {
        hit(7);
    }
}

fn run_c01(t: &mut Tape) -> Verdict {
    let o = if t.chance(1, 40) {
        Opts { bodies: 1, cells: if t.chance(1, 20) { 12 + t.usize(7) } else { 4 + t.usize(6) }, ..Opts::default() }
    } else {
        Opts { bodies: 1 + t.usize(2), cells: 1 + t.usize(3), ..Opts::default() }
    };
    let m = fem::generate(t, o);
    if m.nodes.len() > 90 {
        sched::set_fuel(3_000_000_000);
    }
    let keys = [t.word(), t.word()];
    shared::describe(|| m.show());
    let r = match m.reference() {
        Reference::Good(r) => r,
        Reference::Singular => return discard("not well posed or ill conditioned"),
        Reference::Rigid => return discard("no free displacement"),
    };
    shape_probes(&m);
    let f = m.load();
    if la::max_abs(&f) == 0.0 {
        trivial();
    }
    let want = r.displacements(&f);
    for (i, who) in ["dense Gauss", "envelope Cholesky"].iter().enumerate() {
        shared::describe(|| format!("hash keys {:#x}: {}", keys[i], who));
        let s = match fem::on_thread(keys[i], || study(&m, i == 1)) {
            Ok(s) => s,
            Err(e) => return bad("panic", format!("{}: study of a well-posed model panicked: {}", who, e)),
        };
        judge(&m, &s, &want, r.floor(&f), who)?;
        judge_stress(&m, &s, who)?;
    }
    Ok(())
}

pub const C01: Property = Property {
    id: "C01",
    run: run_c01,
    probes: &[
        "plane stress", "plane strain", "axisymmetric", "inclined support", "two bodies", "isolated node",
        "clockwise element", "line load on an interior edge",
    ],
    quick: 40_000,
    thorough: 1_200_000,
    fuel: 60_000_000,
    rule: "a run draws a mesh (1-2 jittered grids, random diagonals, node numbering, element order, rotation and orientation), condition, material, support and load sequence and hash keys from the seed and studies it with two direct solvers on fresh simulated threads; non-trivial: well posed (reference condition number below 1e7) with a non-zero load",
    real: &["element", "matrix", "spatial (types)", "std hash containers with simulated keys"],
    stub: &["crate spacemath, file, mesher and the command line are not part of this build"],
    assumptions: &[
        "reference: own dense assembly with the same three-point quadrature, solved by pivoted inversion and refinement",
        "agreement to 1e-6 of the largest displacement on models with scaled condition number below 1e7",
        "loads put on one node or edge add up; a line load is per unit length of the edge",
        "inclined supports are not combined with other supports on one node; axisymmetric models may reach the axis, where the hoop strain is the radial strain",
    ],
};

// ---- C02 ---------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Op {
    Sup(usize, Constraint),
    Conc(usize, [f64; 2]),
    Line(usize, usize, [f64; 2]),
}

fn play(m: &Model, ops: &[Op], keep: impl Fn(usize) -> bool, cholesky: bool) -> Vec<f64> {
    let mut e = m.bare();
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Sup(n, c) => e.add_constraint(NodeId::new(*n), *c),
            _ if !keep(i) => {}
            Op::Conc(n, f) => e.add_conc_force(NodeId::new(*n), (f[0], f[1]).into()),
            Op::Line(a, b, f) => e.add_dist_line_force(NodeId::new(*a), NodeId::new(*b), (f[0], f[1]).into()),
        }
    }
    let d = bugi::sim_calls::displacements(&mut e, cholesky as usize);
    fem::disp(&d)
}

fn run_c02(t: &mut Tape) -> Verdict {
    let cells = if t.chance(1, 40) {
        let k = if t.chance(1, 20) { 15 } else { 5 };
        3 + t.usize(k)
    } else {
        2
    };
    let o = Opts { bodies: 1, cells, loads: false, isolated: false, ..Opts::default() };
    let mut m = fem::generate(t, o);
    // many loads close together, so that they meet
    let n = m.nodes.len();
    if n > 60 {
        sched::set_fuel(3_000_000_000);
    }
    let near = t.usize(n);
    let mut ring: Vec<(usize, usize)> = m.edges();
    ring.sort_by_key(|&(a, b)| !(a == near || b == near));
    let k = t.range(1, 4.min(ring.len()));
    if t.chance(1, 4) {
        ring[k - 1] = ring[0]; // two loads on one edge
    }
    for &(a, b) in &ring[..k] {
        let f = [t.lattice(8, 0.25), t.lattice(8, 0.25)];
        m.line.push(if t.chance(1, 2) { (b, a, f) } else { (a, b, f) });
    }
    let k = t.range(0, 3);
    let p = t.permutation(n);
    if t.chance(1, 2) {
        m.conc.push((near, [t.lattice(8, 0.25), t.lattice(8, 0.25)]));
    }
    for &i in p.iter().take(k) {
        let at = if t.chance(1, 4) { near } else { i };
        m.conc.push((at, [t.lattice(8, 0.25), t.lattice(8, 0.25)]));
    }
    let r = match m.reference() {
        Reference::Good(r) => r,
        Reference::Singular => return discard("not well posed or ill conditioned"),
        Reference::Rigid => return discard("no free displacement"),
    };
    let mut ops: Vec<Op> = m.sup.iter().map(|&(n, c)| Op::Sup(n, c)).collect();
    ops.extend(m.conc.iter().map(|&(n, f)| Op::Conc(n, f)));
    ops.extend(m.line.iter().map(|&(a, b, f)| Op::Line(a, b, f)));
    let order = |t: &mut Tape| -> Vec<Op> {
        let q = t.permutation(ops.len());
        q.iter().map(|&i| ops[i].clone()).collect()
    };
    let first = order(t);
    let second = order(t);
    let keys: Vec<u64> = (0..3).map(|_| t.word()).collect();
    let chol = t.chance(1, 2);
    shared::describe(|| format!("{}\nfirst order {:?}\nsecond order {:?}\nhash keys {:x?}\ncholesky {}", m.show(), first, second, keys, chol));
    if m.line.iter().any(|l| m.edge_uses(l.0, l.1) == 2) {
        hit(0);
    }
    let meets = |i: usize| m.line.iter().filter(|l| l.0 == i || l.1 == i).count() + m.conc.iter().filter(|c| c.0 == i).count();
    if (0..n).any(|i| meets(i) >= 2) {
        hit(1);
    }
    if (0..n).any(|i| m.conc.iter().filter(|c| c.0 == i).count() >= 2) {
        hit(2);
    }
    let f = m.load();
    if la::max_abs(&f) == 0.0 {
        trivial();
    }
    let go = |key: u64, ops: &[Op], keep: &(dyn Fn(usize) -> bool + Sync)| fem::on_thread(key, || play(&m, ops, keep, chol));
    macro_rules! ok {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => return bad("panic", format!("study panicked: {}", e)),
            }
        };
    }
    let a = ok!(go(keys[0], &first, &|_| true));
    let want = r.displacements(&f);
    // no load may hide behind cancellation: scale by the sum of the magnitudes of single effects
    let mut sum = vec![0.0; a.len()];
    let mut scale = la::max_abs(&want).max(r.floor(&f));
    for (i, op) in first.iter().enumerate() {
        if matches!(op, Op::Sup(..)) {
            continue;
        }
        let one = ok!(go(keys[1], &first, &|j| j == i));
        let mut mm = m.clone();
        mm.conc.clear();
        mm.line.clear();
        match op {
            Op::Conc(n, f) => mm.conc.push((*n, *f)),
            Op::Line(a, b, f) => mm.line.push((*a, *b, *f)),
            _ => unreachable!(),
        }
        let w = r.displacements(&mm.load());
        let sc = la::max_abs(&w).max(r.floor(&mm.load()));
        for j in 0..w.len() {
            if !((one[j] - w[j]).abs() <= 1e-6 * sc) {
                return bad("single", format!("load {:?} alone moves node {} {} by {:e}, once applied it is {:e}", op, j / 2, ["x", "y"][j % 2], one[j], w[j]));
            }
            sum[j] += one[j];
        }
        scale = scale.max(sc);
    }
    for j in 0..a.len() {
        if !((a[j] - sum[j]).abs() <= 1e-6 * scale) {
            return bad("superposition", format!("all loads move node {} {} by {:e}, the sum of the loads alone is {:e}", j / 2, ["x", "y"][j % 2], a[j], sum[j]));
        }
    }
    let b = ok!(go(keys[2], &second, &|_| true));
    for j in 0..a.len() {
        if !((a[j] - b[j]).abs() <= 1e-6 * scale) {
            return bad("order", format!("node {} {}: {:e} in one order of application, {:e} in another", j / 2, ["x", "y"][j % 2], a[j], b[j]));
        }
    }
    Ok(())
}

pub const C02: Property = Property {
    id: "C02",
    run: run_c02,
    probes: &["line load on an interior edge", "two or more loads meet at a node", "two concentrated loads on one node"],
    quick: 24_000,
    thorough: 500_000,
    fuel: 120_000_000,
    rule: "a run draws a supported mesh and a cluster of line and concentrated loads around one node, applies supports and loads in two drawn orders under three drawn hash keys and studies all loads and each load alone; non-trivial: the total load is non-zero",
    real: &["element", "matrix", "spatial (types)", "std hash containers with simulated keys"],
    stub: &["crate spacemath, file, mesher and the command line are not part of this build"],
    assumptions: &[
        "loads put on one node or edge, in either direction, add up",
        "reference load: force times length shared equally by the edge's ends (linear shape functions)",
    ],
};
