//! C12-C14: meshing plane regions under every work-list order and process history.
use crate::doc::Doc;
use crate::fem;
use crate::region::{self, Region};
use bugi::element::constraint::Constraint;
use bugi::element::material::{AL6061, TEST};
use bugi::element::strain::Condition;
use bugi::element::ElementAssemblage;
use bugi::mesher::bounds::PlaneBoundary;
use bugi::mesher::plane::PlaneTriangulation;
use simkit::{bad, discard, hit, sched, seams, shared, Property, Tape, Verdict};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub struct Mesh {
    /// material and condition, or why they cannot be described
    pub state: Result<(String, (char, f64)), String>,
    pub nodes: Vec<[f64; 2]>,
    pub els: Vec<[usize; 3]>,
    pub cons: Vec<(usize, Constraint)>,
    pub line: Vec<((usize, usize), [f64; 2])>,
    pub conc: usize,
}

pub fn of_elas(e: &ElementAssemblage) -> Mesh {
    Mesh {
        state: Doc::of_elas(e).map(|d| (d.mat, d.cond)),
        nodes: e.nodes().iter().map(|p| [p[0], p[1]]).collect(),
        els: e
            .element_descriptors()
            .into_iter()
            .map(|d| {
                let q = d.into_parts();
                [q[0].into_idx(), q[1].into_idx(), q[2].into_idx()]
            })
            .collect(),
        cons: e.constraints().into_iter().map(|(n, c)| (n.into_idx(), c)).collect(),
        line: e
            .dist_forces()
            .into_iter()
            .map(|((a, b), f)| ((a.into_idx(), b.into_idx()), [f[0], f[1]]))
            .collect(),
        conc: e.conc_forces().len(),
    }
}

fn sub(a: [f64; 2], b: [f64; 2]) -> [f64; 2] {
    [a[0] - b[0], a[1] - b[1]]
}

fn cross(a: [f64; 2], b: [f64; 2]) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}

fn dot(a: [f64; 2], b: [f64; 2]) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}

pub fn dist(a: [f64; 2], b: [f64; 2]) -> f64 {
    dot(sub(a, b), sub(a, b)).sqrt()
}

/// Distance of a point from a segment.
pub fn off(p: [f64; 2], a: [f64; 2], b: [f64; 2]) -> f64 {
    let d = sub(b, a);
    let t = (dot(sub(p, a), d) / dot(d, d)).clamp(0.0, 1.0);
    dist(p, [a[0] + t * d[0], a[1] + t * d[1]])
}

fn crosses(a: [f64; 2], b: [f64; 2], c: [f64; 2], d: [f64; 2]) -> bool {
    let s = |p, q, r| cross(sub(q, p), sub(r, p));
    s(a, b, c) * s(a, b, d) < 0.0 && s(c, d, a) * s(c, d, b) < 0.0
}

fn apart(a: ([f64; 2], [f64; 2]), b: ([f64; 2], [f64; 2])) -> f64 {
    if crosses(a.0, a.1, b.0, b.1) {
        return 0.0;
    }
    off(a.0, b.0, b.1).min(off(a.1, b.0, b.1)).min(off(b.0, a.0, a.1)).min(off(b.1, a.0, a.1))
}

pub fn circumradius(p: [[f64; 2]; 3]) -> f64 {
    let [a, b, c] = [dist(p[0], p[1]), dist(p[1], p[2]), dist(p[2], p[0])];
    a * b * c / (2.0 * cross(sub(p[1], p[0]), sub(p[2], p[0])).abs())
}

impl Region {
    pub fn sides(&self) -> Vec<(usize, usize, [f64; 2], [f64; 2])> {
        let mut v = Vec::new();
        for p in 0..self.polys.len() {
            for i in 0..self.polys[p].len() {
                v.push((p, i, self.corner(p, i), self.corner(p, i + 1)));
            }
        }
        v
    }

    pub fn area(&self) -> f64 {
        self.sides().iter().map(|s| cross(s.2, s.3)).sum::<f64>() / 2.0
    }

    pub fn size(&self) -> f64 {
        let p = &self.polys[0];
        p.iter().map(|c| dist(*c, p[0])).fold(0.0, f64::max)
    }

    /// Smallest interior angle, in degrees.
    pub fn sharpest(&self) -> f64 {
        let mut best: f64 = 360.0;
        for p in 0..self.polys.len() {
            let n = self.polys[p].len();
            for i in 0..n {
                let (a, b, c) = (self.corner(p, i + n - 1), self.corner(p, i), self.corner(p, i + 1));
                let (u, v) = (sub(c, b), sub(a, b));
                let mut ang = cross(u, v).atan2(dot(u, v)).to_degrees();
                if ang < 0.0 {
                    ang += 360.0;
                }
                best = best.min(ang);
            }
        }
        best
    }

    /// Smallest distance between sides that do not share a corner.
    pub fn gap(&self) -> f64 {
        let s = self.sides();
        let mut best = f64::INFINITY;
        for i in 0..s.len() {
            for j in 0..i {
                let (a, b) = (&s[i], &s[j]);
                if a.2 != b.3 && a.3 != b.2 {
                    best = best.min(apart((a.2, a.3), (b.2, b.3)));
                }
            }
        }
        best
    }

    pub fn shortest(&self) -> f64 {
        self.sides().iter().map(|s| dist(s.2, s.3)).fold(f64::INFINITY, f64::min)
    }

    /// Every side can be cut into pieces between h and sqrt(3) h long (not by a hair).
    pub fn admits(&self, h: f64) -> bool {
        self.sides().iter().all(|s| {
            let d = dist(s.2, s.3);
            [1.0 - 1e-9, 1.0 + 1e-9].iter().all(|k| {
                let d = d * k;
                (d / (h * 3f64.sqrt())).floor() < (d / h).floor()
            })
        })
    }

    pub fn bound(&self, singles: &[(usize, usize, Constraint)]) -> PlaneBoundary {
        let mut b = PlaneBoundary::new();
        b.set_material(if self.mat == "TEST" { TEST } else { AL6061 });
        b.set_condition(match self.cond {
            ('s', t) => Condition::PlaneStress(t),
            ('e', t) => Condition::PlaneStrain(t),
            _ => Condition::Axisymmetric,
        });
        let ids: Vec<Vec<_>> = self
            .polys
            .iter()
            .map(|p| {
                let v: Vec<(f64, f64)> = p.iter().map(|c| (c[0], c[1])).collect();
                b.store_polygon(&v)
            })
            .collect();
        let ends = |(p, s): (usize, usize), back: bool| {
            let (u, v) = (ids[p][s], ids[p][(s + 1) % ids[p].len()]);
            if back {
                (v, u)
            } else {
                (u, v)
            }
        };
        for &(f, back, v) in &self.force {
            let (u, w) = ends(f, back);
            b.store_distributed_force(u, w, (v[0], v[1]).into());
        }
        for &(f, back, c) in &self.support {
            let (u, w) = ends(f, back);
            b.store_distributed_constraint(u, w, c);
        }
        for &(p, i, c) in singles {
            b.store_constraint(ids[p][i], c);
        }
        b
    }
}

/// Polygon around a centre with corners at drawn angles and distances, or one of the fixed outlines.
fn region(t: &mut Tape, o: region::Opts) -> Region {
    let mut r = region::outline(t, o);
    match t.usize(6) {
        0 => {}
        1 => {
            // corners moved off the grid
            let unit = r.shortest().min(r.gap());
            for p in r.polys.iter_mut() {
                for c in p.iter_mut() {
                    c[0] += t.lattice(64, 1.0 / 512.0) * unit;
                    c[1] += t.lattice(64, 1.0 / 512.0) * unit;
                }
            }
        }
        2 => {
            // turned as a whole (not a solid of revolution then)
            if r.cond.0 != 'a' {
                let a = t.range(1, 62) as f64 * 0.1;
                for p in r.polys.iter_mut() {
                    for c in p.iter_mut() {
                        *c = [a.cos() * c[0] - a.sin() * c[1], a.sin() * c[0] + a.cos() * c[1]];
                    }
                }
            }
        }
        3 => {
            // slanted, in other proportions
            let k = t.lattice(8, 1.0 / 16.0);
            let f = [1.0, 0.5, 2.0, 0.7][t.usize(4)];
            for p in r.polys.iter_mut() {
                for c in p.iter_mut() {
                    c[1] *= f;
                    if k < 0.0 && r.cond.0 == 'a' {
                        c[0] -= k * c[1];
                    } else {
                        c[0] += k * c[1];
                    }
                }
            }
        }
        4 => {
            // a plate with holes of any shape
            let x0 = 0.5;
            let w = [8.0, 5.0, 12.0][t.usize(3)];
            r.polys = vec![vec![[x0, 0.0], [x0 + w, 0.0], [x0 + w, 8.0], [x0, 8.0]]];
            let mut spots: Vec<([f64; 2], f64)> = Vec::new();
            for _ in 0..t.range(1, 3) {
                let n = t.range(3, 8);
                let d = 0.25 * t.range(1, 8) as f64;
                let at = [x0 + w * t.range(1, 15) as f64 / 16.0, 0.5 * t.range(1, 15) as f64];
                let turn = t.range(0, 62) as f64 * 0.1;
                let hole: Vec<[f64; 2]> = (0..n)
                    .map(|i| {
                        let a = turn - (i as f64 + t.lattice(8, 0.03)) * std::f64::consts::TAU / n as f64;
                        let d = d * (1.0 + t.lattice(8, 0.05));
                        [at[0] + d * a.cos(), at[1] + d * a.sin()]
                    })
                    .collect();
                // one that would stick out or meet another is left out
                let within = hole.iter().all(|c| c[0] > x0 + 0.3 && c[0] < x0 + w - 0.3 && c[1] > 0.3 && c[1] < 7.7);
                let clear = spots.iter().all(|(c, e)| dist(*c, at) > 1.42 * (d + e));
                if within && clear {
                    spots.push((at, d));
                    r.polys.push(hole);
                }
            }
        }
        _ => {
            // another outline, without holes
            let n = t.range(3, 8);
            let size = [4.0, 1.0, 10.0][t.usize(3)];
            let x0 = size * 1.5;
            let turn = t.range(0, 62) as f64 * 0.1;
            let regular = t.chance(1, 3);
            let mut v = Vec::new();
            for i in 0..n {
                let (da, dr) = if regular { (0.0, 0.0) } else { (t.lattice(8, 0.04), t.lattice(8, 0.05)) };
                let a = turn + (i as f64 + da) * std::f64::consts::TAU / n as f64;
                let d = size * (1.0 + dr);
                v.push([x0 + d * a.cos(), d * a.sin()]);
            }
            r.polys = vec![v];
        }
    }
    // far from the origin
    if t.chance(1, 6) {
        let d = r.size() * [10.0, 100.0][t.usize(2)];
        let far = [[d, 0.0], [0.0, d], [d, d], [d, -d]][t.usize(4)];
        for p in r.polys.iter_mut() {
            for c in p.iter_mut() {
                *c = [c[0] + far[0], c[1] + far[1]];
            }
        }
    }
    // other units
    if t.chance(1, 4) {
        let k = [0.001, 1000.0, 0.025, 40.0, 1e-6, 1e6][t.usize(6)];
        for p in r.polys.iter_mut() {
            for c in p.iter_mut() {
                *c = [c[0] * k, c[1] * k];
            }
        }
    }
    region::attributes(t, &mut r, o);
    r
}

/// Why the mesh does not tile the region, if it does not. Returns the boundary edges of each side.
pub fn tiles(m: &Mesh, r: &Region, slop: f64) -> Result<BTreeMap<(usize, usize), Vec<(usize, usize)>>, (String, String)> {
    let size = r.size();
    let tol = 1e-9 * size + 1e-9 * r.polys[0].iter().map(|c| c[0].abs().max(c[1].abs())).fold(0.0, f64::max) + slop;
    let fail = |c: &str, m: String| Err((c.to_string(), m));
    if m.els.is_empty() {
        return fail("empty", "the mesh has no elements".into());
    }
    let mut at: HashMap<(usize, usize), usize> = HashMap::new();
    let mut area = 0.0;
    let mut used = vec![false; m.nodes.len()];
    for (i, e) in m.els.iter().enumerate() {
        if e.iter().any(|&n| n >= m.nodes.len()) {
            return fail("index", format!("element {} {:?} names a node that does not exist", i, e));
        }
        let p = [m.nodes[e[0]], m.nodes[e[1]], m.nodes[e[2]]];
        let a = cross(sub(p[1], p[0]), sub(p[2], p[0])) / 2.0;
        if !(a > 0.0) {
            return fail("inverted", format!("element {:?} at {:?} has area {:e}", e, p, a));
        }
        area += a;
        for k in 0..3 {
            used[e[k]] = true;
            if let Some(j) = at.insert((e[k], e[(k + 1) % 3]), i) {
                return fail("overlap", format!("elements {:?} and {:?} lie on the same side of an edge", m.els[j], e));
            }
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return fail("unused", format!("node {} at {:?} belongs to no element", i, m.nodes[i]));
    }
    for i in 0..m.nodes.len() {
        for j in 0..i {
            if dist(m.nodes[i], m.nodes[j]) <= tol {
                return fail("twice", format!("nodes {} and {} coincide at {:?}", j, i, m.nodes[i]));
            }
        }
    }
    let mut out: BTreeMap<(usize, usize), Vec<(usize, usize)>> = BTreeMap::new();
    let sides = r.sides();
    for &(a, b) in at.keys() {
        if at.contains_key(&(b, a)) {
            continue;
        }
        let (p, q) = (m.nodes[a], m.nodes[b]);
        let s = sides
            .iter()
            .find(|s| off(p, s.2, s.3) <= tol && off(q, s.2, s.3) <= tol && dot(sub(q, p), sub(s.3, s.2)) > 0.0);
        match s {
            Some(s) => out.entry((s.0, s.1)).or_default().push((a, b)),
            None => {
                return fail(
                    "hole",
                    format!("the edge {:?}-{:?} borders only one element and is on no side of the region", p, q),
                )
            }
        }
    }
    for s in &sides {
        let len: f64 = out
            .get(&(s.0, s.1))
            .map_or(0.0, |v| v.iter().map(|e| dist(m.nodes[e.0], m.nodes[e.1])).sum());
        let d = dist(s.2, s.3);
        if (len - d).abs() > 10.0 * tol {
            return fail(
                "side",
                format!("side {:?}-{:?} of length {} is covered to a length of {}", s.2, s.3, d, len),
            );
        }
    }
    let want = r.area();
    let perimeter: f64 = sides.iter().map(|s| dist(s.2, s.3)).sum();
    if (area - want).abs() > 1e-8 * want + slop * perimeter {
        return fail("area", format!("the elements cover {} of the region's {}", area, want));
    }
    Ok(out)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Chew,
    Ruppert,
}

/// A region with its supported corners, to be meshed in one way.
#[derive(Clone, Debug)]
pub struct Task {
    r: Region,
    singles: Vec<(usize, usize, Constraint)>,
    how: How,
    h: f64,
}

#[derive(Clone, Debug)]
pub struct Plan {
    /// vertices the process made before
    pub before: usize,
    pub key: u64,
    /// what each thread meshes
    pub tasks: Vec<usize>,
    /// where the scheduler takes the processor away
    pub switches: Vec<(u64, u64)>,
    /// and before which atomic operations
    pub atomics: (u64, u64),
}

fn mesh_once(task: &Task, before: usize) -> Result<Mesh, String> {
    let mut other = PlaneBoundary::new();
    for i in 0..before {
        other.store_vertex((i as f64, 0.0));
    }
    let mut t = PlaneTriangulation::new(task.r.bound(&task.singles));
    match task.how {
        How::Chew => t.chew_mesh(task.h),
        How::Ruppert => t.ruppert_mesh(task.h),
    }
    t.assemble().map(|e| of_elas(&e)).map_err(|e| e.to_string())
}

/// One mesh per thread.
fn mesh(tasks: &[Task], p: &Plan) -> Vec<Result<Result<Mesh, String>, String>> {
    seams::set_hash_seed(p.key);
    if p.tasks.len() > 1 {
        sched::set_plan(p.switches.clone());
        sched::set_atomic_switches(p.atomics.0, p.atomics.1);
    }
    let v = std::thread::scope(|s| {
        let h: Vec<_> = p
            .tasks
            .iter()
            .map(|&i| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || simkit::guard(|| mesh_once(&tasks[i], p.before)))
                    .unwrap()
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    sched::set_plan(vec![]);
    sched::set_atomic_switches(0, 1);
    v
}

/// A processing order: the first of a run, or a further one.
fn plan(t: &mut Tape, tasks: &[Task], first: bool) -> Plan {
    let before = match t.usize(3) {
        0 => 0,
        1 => t.usize(64),
        _ if first => t.usize(20_000),
        _ => t.usize(300),
    };
    let mut p = Plan {
        before,
        key: t.word(),
        tasks: vec![if first { 0 } else { t.usize(tasks.len()) }],
        switches: vec![],
        atomics: (0, 1),
    };
    if t.chance(1, 4) {
        for _ in 0..t.range(1, 2) {
            p.tasks.push(t.usize(tasks.len()));
        }
        let fine = [100, 1_000, 20_000, 300_000][t.usize(4)];
        for _ in 0..t.usize(60) {
            p.switches.push((1 + t.usize(fine) as u64, t.usize(4) as u64));
        }
        p.atomics = fem::atomic_switches(t);
    }
    p
}

/// A size for meshing the region, if one is found that it admits.
fn size(t: &mut Tape, how: How, r: &Region) -> Option<f64> {
    match how {
        How::Chew => {
            let feature = r.shortest().min(r.gap());
            // among drawn sizes the first one every side admits
            for _ in 0..8 {
                let x = feature * (30 + t.usize(70)) as f64 / 100.0;
                if r.area() / (x * x) < 400.0 && r.admits(x) {
                    return Some(x);
                }
            }
            None
        }
        How::Ruppert => Some(r.size() * [10.0, 0.5, 0.3, 0.2, 0.14, 0.09][t.usize(6)] * (1.0 - t.usize(16) as f64 / 100.0)),
    }
}

fn meshable(r: &Region) -> bool {
    r.sharpest() >= 61.0 && r.gap() > 0.05 * r.size()
}

/// Perhaps another task for the same process.
fn other(t: &mut Tape, tasks: &mut Vec<Task>) {
    if !t.chance(1, 3) {
        return;
    }
    let mut x = tasks[0].clone();
    match t.usize(4) {
        // another size
        0 => {}
        // the other way of meshing
        1 => x.how = if x.how == How::Chew { How::Ruppert } else { How::Chew },
        // another region
        w => {
            let attributes = !x.r.force.is_empty() || !x.r.support.is_empty();
            let r = region(
                t,
                region::Opts {
                    attributes,
                    ..Default::default()
                },
            );
            x.r = r;
            x.singles.clear();
            if w == 3 && x.how == How::Chew {
                x.how = How::Ruppert;
            }
        }
    }
    if !meshable(&x.r) {
        return;
    }
    if let Some(h) = size(t, x.how, &x.r) {
        x.h = h;
        tasks.push(x);
    }
}

fn valid(t: &mut Tape, how: How) -> Verdict {
    let r = region(t, region::Opts::default());
    if r.sharpest() < 61.0 {
        return discard("sharp corner");
    }
    if !meshable(&r) {
        return discard("narrow");
    }
    let rounds = t.range(1, 3);
    let h = match size(t, how, &r) {
        Some(h) => h,
        None => return discard("no admissible size drawn"),
    };
    let mut tasks = vec![Task {
        r,
        singles: vec![],
        how,
        h,
    }];
    other(t, &mut tasks);
    shared::describe(|| format!("{:?}", tasks));
    for k in 0..rounds {
        let p = plan(t, &tasks, k == 0);
        shared::describe(|| format!("{:?}", p));
        if p.tasks.len() > 1 {
            hit(2);
        }
        for (m, &i) in mesh(&tasks, &p).into_iter().zip(&p.tasks) {
            if i > 0 {
                hit(3);
            }
            if tasks[i].how != how {
                continue; // company only
            }
            let (r, h) = (&tasks[i].r, tasks[i].h);
            let m = match m {
                Err(e) => return bad("panic", format!("meshing panicked: {}", e)),
                Ok(Err(e)) => return bad("refused", format!("no model came of the mesh: {}", e)),
                Ok(Ok(m)) => m,
            };
            if let Err((c, e)) = tiles(&m, r, 0.0) {
                return bad(c, e);
            }
            hit(0);
            if m.els.len() > 40 {
                hit(1);
            }
            for e in &m.els {
                let q = [m.nodes[e[0]], m.nodes[e[1]], m.nodes[e[2]]];
                let cr = circumradius(q);
                if cr > h * (1.0 + 1e-9) {
                    return bad("coarse", format!("element at {:?} has circumradius {} above the size {}", q, cr, h));
                }
                let short = dist(q[0], q[1]).min(dist(q[1], q[2])).min(dist(q[2], q[0]));
                match how {
                    How::Chew => {
                        if short < h * (1.0 - 1e-9) {
                            return bad(
                                "fine",
                                format!("element at {:?} has an edge of length {} below the size {}", q, short, h),
                            );
                        }
                    }
                    How::Ruppert => {
                        if cr / short > 1.415 * (1.0 + 1e-9) {
                            return bad(
                                "skinny",
                                format!("element at {:?} has circumradius {} and shortest edge {}", q, cr, short),
                            );
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn run_c12(t: &mut Tape) -> Verdict {
    valid(t, How::Chew)
}

fn run_c14(t: &mut Tape) -> Verdict {
    valid(t, How::Ruppert)
}

fn run_c13(t: &mut Tape) -> Verdict {
    let mut r = region(
        t,
        region::Opts {
            attributes: true,
            ..Default::default()
        },
    );
    let how = if t.chance(1, 2) { How::Ruppert } else { How::Chew };
    if !meshable(&r) {
        return discard("sharp or narrow");
    }
    if r.force.is_empty() && r.support.is_empty() {
        r.support.push(((0, 0), false, Constraint::XYFixed));
        r.force.push(((0, 1), true, [1.5, -2.0]));
    }
    // supports of single corners
    let mut singles = Vec::new();
    if t.chance(1, 3) {
        let p = t.usize(r.polys.len());
        let i = t.usize(r.polys[p].len());
        let n = r.polys[p].len();
        let inclined = r
            .support
            .iter()
            .any(|x| matches!(x.2, Constraint::AngleFixed(_)) && x.0 .0 == p && (x.0 .1 == i || (x.0 .1 + 1) % n == i));
        if !inclined {
            singles.push((p, i, [Constraint::XFixed, Constraint::YFixed, Constraint::XYFixed][t.usize(3)]));
        }
    }
    let h = match size(t, how, &r) {
        Some(h) => h,
        None => return discard("no admissible size drawn"),
    };
    let mut tasks = vec![Task { r, singles, how, h }];
    other(t, &mut tasks);
    shared::describe(|| format!("{:?}", tasks));
    for k in 0..t.range(1, 3) {
        let p = plan(t, &tasks, k == 0);
        shared::describe(|| format!("{:?}", p));
        if p.tasks.len() > 1 {
            hit(4);
        }
        for (m, &i) in mesh(&tasks, &p).into_iter().zip(&p.tasks) {
            if i > 0 {
                hit(7);
            }
            match m {
                Err(e) => return bad("panic", format!("meshing panicked: {}", e)),
                Ok(Err(e)) => return bad("refused", format!("no model came of the mesh: {}", e)),
                Ok(Ok(m)) => conditions(&m, &tasks[i].r, &tasks[i].singles, 0.0)?,
            }
        }
    }
    Ok(())
}

pub fn conditions(m: &Mesh, r: &Region, singles: &[(usize, usize, Constraint)], slop: f64) -> Verdict {
    let on = match tiles(m, r, slop) {
        Ok(x) => x,
        Err((c, e)) => return bad(c, e),
    };
    let mut want: Vec<Option<Constraint>> = vec![None; m.nodes.len()];
    for &(s, _, c) in &r.support {
        let mut seen = vec![false; m.nodes.len()];
        for &(a, b) in on.get(&s).map_or(&[][..], |v| &v[..]) {
            for n in [a, b] {
                if !seen[n] {
                    seen[n] = true;
                    want[n] = Some(region::merge(want[n], c));
                }
            }
        }
    }
    for &(p, i, c) in singles {
        let at = r.corner(p, i);
        let n = (0..m.nodes.len())
            .min_by(|&a, &b| dist(m.nodes[a], at).total_cmp(&dist(m.nodes[b], at)))
            .unwrap();
        want[n] = Some(region::merge(want[n], c));
        hit(3);
    }
    if m.cons.len() != m.nodes.len() {
        return bad("support", format!("{} supports listed for {} nodes", m.cons.len(), m.nodes.len()));
    }
    for &(n, c) in &m.cons {
        let w = want[n].unwrap_or(Constraint::Free);
        if c != w {
            return bad("support", format!("node {} at {:?} is {:?} instead of {:?}", n, m.nodes[n], c, w));
        }
        if c != Constraint::Free {
            hit(0);
        }
    }
    let mut left: Vec<((usize, usize), [f64; 2])> = m.line.clone();
    for (s, f) in r.loads() {
        for &(a, b) in on.get(&s).map_or(&[][..], |v| &v[..]) {
            let i = left.iter().position(|l| l.0 == (a, b) || l.0 == (b, a));
            match i {
                None => {
                    return bad(
                        "load",
                        format!("the edge {:?}-{:?} does not carry the load {:?} of its side", m.nodes[a], m.nodes[b], f),
                    )
                }
                Some(i) => {
                    let l = left.swap_remove(i);
                    if l.1 != f {
                        return bad(
                            "load",
                            format!("the edge {:?}-{:?} carries {:?} instead of {:?}", m.nodes[a], m.nodes[b], l.1, f),
                        );
                    }
                    hit(1);
                }
            }
        }
    }
    if let Some(l) = left.first() {
        return bad(
            "load",
            format!(
                "the edge {:?}-{:?} carries {:?} although its side is not loaded",
                m.nodes[l.0 .0], m.nodes[l.0 .1], l.1
            ),
        );
    }
    if m.state != Ok((r.mat.to_string(), r.cond)) {
        return bad(
            "state",
            format!("material and condition are {:?} instead of {:?} {:?}", m.state, r.mat, r.cond),
        );
    }
    if m.conc > 0 {
        return bad("load", "concentrated loads appeared");
    }
    if r.loads().len() < r.force.len() {
        hit(5);
    }
    let side = |k: usize| r.support[k].0;
    if (0..r.support.len()).any(|k| (0..k).any(|j| side(j) == side(k))) {
        hit(6);
    }
    if r.support.len() > 1 {
        hit(2);
    }
    Ok(())
}

const STUB: &[&str] = &["crate spacemath (absent from this environment; a stand-in written for these checks)"];
const REAL: &[&str] = &[
    "mesher (boundary storage and division, gift wrapping, Bowyer-Watson, refinement)",
    "spatial predicates",
    "element assemblage",
];

pub const C12: Property = Property {
    id: "C12",
    run: run_c12,
    probes: &["mesh checked", "mesh with more than 40 elements", "regions meshed on several threads at once", "another task meshed in the process"],
    quick: 40_000,
    thorough: 350_000,
    fuel: 2_000_000_000,
    rule: "a run draws a region (outlines with and without holes, on and off a grid, turned, regular and irregular polygons), a size every side admits, perhaps another task (size, mesher or region) for the same process, and one to three processing orders (hash keys, number of vertices made earlier, what other threads mesh meanwhile, preemptions), and checks each mesh; every run that is not discarded is non-trivial",
    real: REAL,
    stub: STUB,
    assumptions: &["corners of at least 61 degrees, features at least as far apart as the size, at most some 400 size squares per region"],
};

pub const C13: Property = Property {
    id: "C13",
    run: run_c13,
    probes: &["supported node checked", "loaded edge checked", "two or more supported sides", "supported corner", "regions meshed on several threads at once", "several loads on one side", "several supports on one side", "another task meshed in the process"],
    quick: 40_000,
    thorough: 500_000,
    fuel: 2_000_000_000,
    rule: "a run draws a region, supports and loads on its sides (named in either direction) and on single corners, a mesher and size, and one to three processing orders; every run that is not discarded is non-trivial",
    real: REAL,
    stub: STUB,
    assumptions: &["an inclined support is not combined with other supports on its side or at a corner"],
};

pub const C14: Property = Property {
    id: "C14",
    run: run_c14,
    probes: &["mesh checked", "mesh with more than 40 elements", "regions meshed on several threads at once", "another task meshed in the process"],
    quick: 80_000,
    thorough: 1_200_000,
    fuel: 2_000_000_000,
    rule: "a run draws a region (as for Chew meshing), a size and one to three processing orders, and checks each mesh and the quality of its elements; every run that is not discarded is non-trivial",
    real: REAL,
    stub: STUB,
    assumptions: &["corners of at least 61 degrees, features at least a twentieth of the region apart"],
};
