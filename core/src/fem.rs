//! Generated models, how to build them in the code under test, and a small reference solution.
use crate::la::{self, Mat};
use bugi::element::constraint::Constraint;
use bugi::element::material::{Material, AL6061, TEST};
use bugi::element::strain::Condition;
use bugi::element::{Deformation, ElementAssemblage, ElementDescriptor, NodeId};
use simkit::{seams, Tape};

#[derive(Clone, Debug)]
pub struct Model {
    pub cond: Condition,
    pub mat: Material,
    pub nodes: Vec<[f64; 2]>,
    pub els: Vec<[usize; 3]>,
    /// supports as applied, in order
    pub sup: Vec<(usize, Constraint)>,
    pub conc: Vec<(usize, [f64; 2])>,
    pub line: Vec<(usize, usize, [f64; 2])>,
    /// body of each node (isolated nodes get their own)
    pub body: Vec<usize>,
    pub unit: f64,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub bodies: usize,
    pub cells: usize,
    pub isolated: bool,
    pub axisym: bool,
    pub angles: bool,
    pub loads: bool,
    pub firm: bool,
    pub units: bool,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts { bodies: 2, cells: 3, isolated: true, axisym: true, angles: true, loads: true, firm: false, units: true }
    }
}

pub fn generate(t: &mut Tape, o: Opts) -> Model {
    let mat = match t.usize(3) {
        0 => TEST,
        1 => Material { name: "custom", youngs: 2.5, poisson: [0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.0, 0.45][t.usize(9)], density: 3.0 },
        _ if o.units => AL6061,
        _ => TEST,
    };
    let cond = match t.usize(if o.axisym { 3 } else { 2 }) {
        0 => Condition::PlaneStress(0.25 * t.range(1, 8) as f64),
        1 => Condition::PlaneStrain(0.25 * t.range(1, 8) as f64),
        _ => Condition::Axisymmetric,
    };
    let axi = matches!(cond, Condition::Axisymmetric);
    let unit = if o.units { [1.0, 0.125, 4.0][t.usize(3)] } else { 1.0 };
    let nb = t.range(1, o.bodies);
    let mut nodes: Vec<[f64; 2]> = Vec::new();
    let mut body = Vec::new();
    let mut els: Vec<[usize; 3]> = Vec::new();
    // a solid of revolution may reach its axis
    let axis = axi && t.chance(1, 4);
    let mut x0 = if axis { 0.0 } else if axi { 0.5 + t.usize(3) as f64 } else { -1.0 + t.usize(3) as f64 };
    // flat or slender cells
    let tall = if t.chance(1, 4) { [0.25, 3.0, 0.5][t.usize(3)] } else { 1.0 };
    for b in 0..nb {
        if t.chance(1, 12) {
            // many elements around one node
            let k = t.range(3, 3 + 6 * o.cells);
            let closed = t.chance(2, 3);
            let at = nodes.len();
            nodes.push([(x0 + 1.25) * unit, tall * unit]);
            body.push(b);
            for i in 0..k + !closed as usize {
                let a = (i as f64 + t.lattice(3, 1.0 / 16.0)) * std::f64::consts::TAU / (k as f64 * if closed { 1.0 } else { 1.5 });
                let d = 1.0 + t.lattice(3, 1.0 / 16.0);
                nodes.push([(x0 + 1.25 + d * a.cos()) * unit, (1.0 + d * a.sin()) * tall * unit]);
                body.push(b);
            }
            for i in 0..k {
                els.push([at, at + 1 + i, at + 1 + if closed { (i + 1) % k } else { i + 1 }]);
            }
            x0 += 3.0;
            continue;
        }
        let long = t.chance(1, 12);
        let (nx, ny) = if long {
            let k = t.range(1, 4 * o.cells);
            if t.chance(1, 2) { (1, k) } else { (k, 1) }
        } else {
            (t.range(1, o.cells), t.range(1, o.cells))
        };
        let at = nodes.len();
        for j in 0..=ny {
            for i in 0..=nx {
                let dx = t.lattice(3, 1.0 / 16.0);
                let dy = t.lattice(3, 1.0 / 16.0);
                let dx = if axis && b == 0 && i == 0 { 0.0 } else { dx };
                nodes.push([(x0 + i as f64 + dx) * unit, (j as f64 + dy) * tall * unit]);
                body.push(b);
            }
        }
        for j in 0..ny {
            for i in 0..nx {
                let p = at + j * (nx + 1) + i;
                let (a, bb, c, d) = (p, p + 1, p + nx + 2, p + nx + 1);
                if t.chance(1, 2) {
                    els.push([a, bb, d]);
                    els.push([bb, c, d]);
                } else {
                    els.push([a, bb, c]);
                    els.push([a, c, d]);
                }
            }
        }
        x0 += nx as f64 + 1.0;
    }
    if o.isolated && t.chance(1, 6) {
        nodes.push([x0 * unit, -1.0 * unit]);
        body.push(nb);
    }
    if !axi && t.chance(1, 5) {
        // turned as a whole, somewhere else
        let a = t.range(1, 62) as f64 * 0.1;
        let far = [0.0, 10.0, -300.0][t.usize(3)] * unit;
        for c in nodes.iter_mut() {
            *c = [a.cos() * c[0] - a.sin() * c[1] + far, a.sin() * c[0] + a.cos() * c[1] - far];
        }
    }
    // node numbering, element order, element node order and orientation
    let n = nodes.len();
    let p = t.permutation(n);
    let mut nn = vec![[0.0; 2]; n];
    let mut nbody = vec![0; n];
    for i in 0..n {
        nn[p[i]] = nodes[i];
        nbody[p[i]] = body[i];
    }
    for e in els.iter_mut() {
        let r = t.usize(3);
        let f = t.chance(1, 5);
        let q = [p[e[r]], p[e[(r + 1) % 3]], p[e[(r + 2) % 3]]];
        *e = if f { [q[0], q[2], q[1]] } else { q };
    }
    let order = t.permutation(els.len());
    let els: Vec<[usize; 3]> = order.iter().map(|&i| els[i]).collect();
    let mut m = Model { cond, mat, nodes: nn, els, sup: vec![], conc: vec![], line: vec![], body: nbody, unit };

    // supports
    let nbod = m.body.iter().max().unwrap() + 1;
    let mut want: Vec<(usize, u8, f64)> = Vec::new(); // node, kind 1 x 2 y 3 xy 4 angle
    for b in 0..nbod {
        let mut own: Vec<usize> = (0..n).filter(|&i| m.body[i] == b).collect();
        let q = t.permutation(own.len());
        own = q.iter().map(|&i| own[i]).collect();
        if own.len() == 1 {
            want.push((own[0], 3, 0.0));
            continue;
        }
        let mode = if o.firm { 0 } else { t.usize(3) };
        match mode {
            0 => {
                let k = t.range(2, 3.min(own.len()));
                for &i in &own[..k] {
                    want.push((i, 3, 0.0));
                }
            }
            _ => {
                want.push((own[0], 3, 0.0));
                let k = if t.chance(1, 8) { own.len() - 1 } else { 3.min(own.len() - 1) };
                let k = t.range(1, k);
                for &i in &own[1..=k] {
                    let kind = 1 + t.usize(if o.angles { 4 } else { 3 }) as u8;
                    let a = if t.chance(1, 3) {
                        t.lattice(8, std::f64::consts::FRAC_PI_4)
                    } else {
                        t.lattice(40, 0.1)
                    };
                    want.push((i, kind, a));
                }
            }
        }
    }
    let mut ops: Vec<Vec<(usize, Constraint)>> = Vec::new();
    for (i, kind, a) in want {
        use Constraint::*;
        ops.push(match kind {
            1 => vec![(i, XFixed)],
            2 => vec![(i, YFixed)],
            3 => match t.usize(5) {
                0 => vec![(i, XYFixed)],
                1 => vec![(i, XFixed), (i, YFixed)],
                2 => vec![(i, YFixed), (i, XFixed)],
                3 => vec![(i, XYFixed), (i, YFixed)],
                _ => vec![(i, XFixed), (i, XYFixed), (i, XFixed)],
            },
            _ => vec![(i, AngleFixed(a))],
        });
    }
    let _ = axi;
    m.sup = interleave(t, ops);
    if o.loads {
        let many = if t.chance(1, 10) { 12 } else { 3 };
        loads(t, &mut m, many, many);
    }
    m
}

/// Merges sequences into one in a drawn order that keeps each sequence's own order.
pub fn interleave<T: Clone>(t: &mut Tape, mut seqs: Vec<Vec<T>>) -> Vec<T> {
    let mut out = Vec::new();
    for s in seqs.iter_mut() {
        s.reverse();
    }
    while !seqs.is_empty() {
        let i = t.usize(seqs.len());
        out.push(seqs[i].pop().unwrap());
        if seqs[i].is_empty() {
            seqs.remove(i);
        }
    }
    out
}

/// Loads on distinct nodes and distinct edges (either direction).
pub fn loads(t: &mut Tape, m: &mut Model, nc: usize, nl: usize) {
    let n = m.nodes.len();
    let k = t.range(0, nc.min(n));
    let p = t.permutation(n);
    for i in 0..k {
        // now and then on a node that carries a load already
        let at = if i > 0 && t.chance(1, 6) { p[t.usize(i)] } else { p[i] };
        m.conc.push((at, [t.lattice(8, 0.25), t.lattice(8, 0.25)]));
    }
    let edges = m.edges();
    let k = t.range(0, nl.min(edges.len()));
    let first = t.usize(edges.len());
    let mut at = first;
    for _ in 0..k {
        let (a, b) = edges[at];
        if !m.line.iter().any(|l| (l.0, l.1) == (a, b) || (l.0, l.1) == (b, a)) || t.chance(1, 4) {
            let f = [t.lattice(8, 0.25), t.lattice(8, 0.25)];
            if t.chance(1, 2) {
                m.line.push((b, a, f));
            } else {
                m.line.push((a, b, f));
            }
        }
        at = (at + 1 + t.usize(4)) % edges.len();
    }
}

impl Model {
    /// Element edges without repeats, grouped so that neighbours in the list share nodes.
    pub fn edges(&self) -> Vec<(usize, usize)> {
        let mut v: Vec<(usize, usize)> = Vec::new();
        for e in &self.els {
            for (a, b) in [(e[0], e[1]), (e[1], e[2]), (e[2], e[0])] {
                let k = (a.min(b), a.max(b));
                if !v.contains(&k) {
                    v.push(k);
                }
            }
        }
        v
    }

    pub fn edge_uses(&self, a: usize, b: usize) -> usize {
        self.els.iter().filter(|e| e.contains(&a) && e.contains(&b)).count()
    }

    pub fn bare(&self) -> ElementAssemblage {
        let mut e = ElementAssemblage::new(self.mat, self.cond);
        let pts: Vec<(f64, f64)> = self.nodes.iter().map(|p| (p[0], p[1])).collect();
        let ids = e.add_nodes(&pts);
        for (i, id) in ids.iter().enumerate() {
            assert_eq!(id.into_idx(), i, "node ids are not consecutive");
        }
        for t in &self.els {
            e.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
        }
        e
    }

    pub fn build(&self) -> ElementAssemblage {
        let mut e = self.bare();
        for &(n, c) in &self.sup {
            e.add_constraint(NodeId::new(n), c);
        }
        for &(n, f) in &self.conc {
            e.add_conc_force(NodeId::new(n), (f[0], f[1]).into());
        }
        for &(n, m, f) in &self.line {
            e.add_dist_line_force(NodeId::new(n), NodeId::new(m), (f[0], f[1]).into());
        }
        e
    }

    pub fn show(&self) -> String {
        let mut s = format!("material {} {:?}\n", self.mat.name, self.cond);
        s.push_str(&format!("nodes {:?}\n", self.nodes));
        s.push_str(&format!("elements {:?}\n", self.els));
        s.push_str(&format!("supports {:?}\n", self.sup));
        s.push_str(&format!("concentrated {:?}\n", self.conc));
        s.push_str(&format!("line {:?}", self.line));
        s
    }

    fn axi(&self) -> bool {
        matches!(self.cond, Condition::Axisymmetric)
    }

    fn c(&self) -> Mat {
        let (e, v) = (self.mat.youngs, self.mat.poisson);
        match self.cond {
            Condition::PlaneStress(_) => {
                let f = e / (1.0 - v * v);
                vec![vec![f, f * v, 0.0], vec![f * v, f, 0.0], vec![0.0, 0.0, f * (1.0 - v) / 2.0]]
            }
            _ => {
                // Lame form: lambda, mu
                let mu = e / (2.0 * (1.0 + v));
                let la = e * v / ((1.0 + v) * (1.0 - 2.0 * v));
                let d = la + 2.0 * mu;
                if self.axi() {
                    vec![
                        vec![d, la, 0.0, la],
                        vec![la, d, 0.0, la],
                        vec![0.0, 0.0, mu, 0.0],
                        vec![la, la, 0.0, d],
                    ]
                } else {
                    vec![vec![d, la, 0.0], vec![la, d, 0.0], vec![0.0, 0.0, mu]]
                }
            }
        }
    }

    /// Shape functions at barycentric h of an element: (B matrix, radius or thickness).
    fn b(&self, e: &[usize; 3], h: [f64; 3]) -> (Mat, f64, f64) {
        let p: Vec<[f64; 2]> = e.iter().map(|&i| self.nodes[i]).collect();
        let two_a = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1]);
        let rows = if self.axi() { 4 } else { 3 };
        let mut b = la::zeros(rows, 6);
        let r: f64 = (0..3).map(|i| h[i] * p[i][0]).sum();
        for i in 0..3 {
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            let gx = (p[j][1] - p[k][1]) / two_a;
            let gy = (p[k][0] - p[j][0]) / two_a;
            b[0][2 * i] = gx;
            b[1][2 * i + 1] = gy;
            b[2][2 * i] = gy;
            b[2][2 * i + 1] = gx;
            if rows == 4 {
                b[3][2 * i] = if r == 0.0 { gx } else { h[i] / r };
            }
        }
        let th = match self.cond {
            Condition::PlaneStress(t) | Condition::PlaneStrain(t) => t,
            Condition::Axisymmetric => r,
        };
        (b, th, two_a.abs())
    }

    pub fn k(&self) -> Mat {
        let n = 2 * self.nodes.len();
        let mut k = la::zeros(n, n);
        let c = self.c();
        for e in &self.els {
            for h in GP {
                let (b, th, det) = self.b(e, h);
                let cb = la::mul(&c, &b);
                let ke = la::mul(&la::transpose(&b), &cb);
                for i in 0..6 {
                    for j in 0..6 {
                        k[2 * e[i / 2] + i % 2][2 * e[j / 2] + j % 2] += ke[i][j] * th * det / 6.0;
                    }
                }
            }
        }
        k
    }

    pub fn m(&self) -> Mat {
        let n = 2 * self.nodes.len();
        let mut m = la::zeros(n, n);
        for e in &self.els {
            for h in GP {
                let (_, th, det) = self.b(e, h);
                for i in 0..3 {
                    for j in 0..3 {
                        let v = self.mat.density * h[i] * h[j] * th * det / 6.0;
                        for d in 0..2 {
                            m[2 * e[i] + d][2 * e[j] + d] += v;
                        }
                    }
                }
            }
        }
        m
    }

    pub fn load(&self) -> Vec<f64> {
        let mut f = vec![0.0; 2 * self.nodes.len()];
        for &(n, v) in &self.conc {
            f[2 * n] += v[0];
            f[2 * n + 1] += v[1];
        }
        for &(a, b, v) in &self.line {
            let (p, q) = (self.nodes[a], self.nodes[b]);
            let l = ((p[0] - q[0]).powi(2) + (p[1] - q[1]).powi(2)).sqrt();
            for i in [a, b] {
                f[2 * i] += v[0] * l / 2.0;
                f[2 * i + 1] += v[1] * l / 2.0;
            }
        }
        f
    }

    /// Final support of each node.
    pub fn merged(&self) -> Vec<Constraint> {
        use Constraint::*;
        let mut x = vec![false; self.nodes.len()];
        let mut y = vec![false; self.nodes.len()];
        let mut ang = vec![None; self.nodes.len()];
        for &(n, c) in &self.sup {
            match c {
                Free => {}
                XFixed => x[n] = true,
                YFixed => y[n] = true,
                XYFixed => {
                    x[n] = true;
                    y[n] = true
                }
                AngleFixed(a) => ang[n] = Some(a),
            }
        }
        (0..self.nodes.len())
            .map(|i| match (x[i], y[i], ang[i]) {
                (false, false, None) => Free,
                (false, false, Some(a)) => AngleFixed(a),
                (true, true, _) => XYFixed,
                (true, false, _) => XFixed,
                (false, true, _) => YFixed,
            })
            .collect()
    }

    /// Columns spanning the admissible displacements.
    pub fn basis(&self) -> Mat {
        let n = 2 * self.nodes.len();
        let mut cols: Vec<Vec<f64>> = Vec::new();
        let mut push = |i: usize, vx: f64, vy: f64| {
            let mut c = vec![0.0; n];
            c[2 * i] = vx;
            c[2 * i + 1] = vy;
            cols.push(c);
        };
        for (i, c) in self.merged().into_iter().enumerate() {
            match c {
                Constraint::Free => {
                    push(i, 1.0, 0.0);
                    push(i, 0.0, 1.0);
                }
                Constraint::XFixed => push(i, 0.0, 1.0),
                Constraint::YFixed => push(i, 1.0, 0.0),
                Constraint::XYFixed => {}
                Constraint::AngleFixed(a) => push(i, -a.sin(), a.cos()),
            }
        }
        if cols.is_empty() {
            return vec![Vec::new(); n];
        }
        la::transpose(&cols)
    }

    pub fn reduce(&self, k: &Mat, z: &Mat) -> Mat {
        la::mul(&la::transpose(z), &la::mul(k, z))
    }

    pub fn reference(&self) -> Reference {
        let z = self.basis();
        let free = if z.is_empty() { 0 } else { z[0].len() };
        if free == 0 {
            return Reference::Rigid;
        }
        let k = self.k();
        let kr = self.reduce(&k, &z);
        // scaled condition number
        let d: Vec<f64> = (0..free).map(|i| kr[i][i].max(1e-300).sqrt()).collect();
        let mut ks = kr.clone();
        for i in 0..free {
            for j in 0..free {
                ks[i][j] /= d[i] * d[j];
            }
        }
        let inv = match la::inverse(&ks) {
            Some(v) => v,
            None => return Reference::Singular,
        };
        let cond = la::norm_inf(&ks) * la::norm_inf(&inv);
        if !(cond < 1e7) || la::cholesky(&ks).is_none() {
            return Reference::Singular;
        }
        Reference::Good(Solved { z, kr, inv, d, cond, k })
    }

    pub fn reference_ok(&self) -> Option<Solved> {
        match self.reference() {
            Reference::Good(s) => Some(s),
            _ => None,
        }
    }

    pub fn stress_ref(&self, u: &[f64]) -> Vec<Option<([f64; 4], f64)>> {
        // average over elements of C B u at the node; with the magnitude of the terms
        let n = self.nodes.len();
        let c = self.c();
        let mut sum = vec![[0.0; 4]; n];
        let mut mag = vec![0.0f64; n];
        let mut cnt = vec![0usize; n];
        for e in &self.els {
            for (a, &i) in e.iter().enumerate() {
                let mut h = [0.0; 3];
                h[a] = 1.0;
                let (b, _, _) = self.b(e, h);
                let ue: Vec<f64> = e.iter().flat_map(|&j| vec![u[2 * j], u[2 * j + 1]]).collect();
                let s = la::mul_vec(&c, &la::mul_vec(&b, &ue));
                for q in 0..s.len() {
                    sum[i][q] += s[q];
                }
                mag[i] = mag[i].max(la::norm_inf(&la::mul(&c, &b)) * la::max_abs(&ue));
                cnt[i] += 1;
            }
        }
        (0..n)
            .map(|i| {
                if cnt[i] == 0 {
                    None
                } else {
                    let k = cnt[i] as f64;
                    Some(([sum[i][0] / k, sum[i][1] / k, sum[i][2] / k, sum[i][3] / k], mag[i]))
                }
            })
            .collect()
    }
}

const GP: [[f64; 3]; 3] = [
    [2.0 / 3.0, 1.0 / 6.0, 1.0 / 6.0],
    [1.0 / 6.0, 2.0 / 3.0, 1.0 / 6.0],
    [1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0],
];

pub enum Reference {
    Good(Solved),
    Singular,
    Rigid,
}

pub struct Solved {
    pub z: Mat,
    pub kr: Mat,
    inv: Mat,
    d: Vec<f64>,
    pub cond: f64,
    pub k: Mat,
}

impl Solved {
    /// Displacement magnitude below which the answer to a load is rounding noise times 1e5.
    pub fn floor(&self, f: &[f64]) -> f64 {
        let c = (0..self.d.len()).map(|i| self.inv[i][i].abs() / (self.d[i] * self.d[i])).fold(0.0, f64::max);
        1e-5 * c * la::max_abs(f) + 1e-100
    }

    pub fn displacements(&self, f: &[f64]) -> Vec<f64> {
        let zt = la::transpose(&self.z);
        let r = la::mul_vec(&zt, f);
        let solve = |r: &[f64]| -> Vec<f64> {
            let s: Vec<f64> = r.iter().zip(&self.d).map(|(a, b)| a / b).collect();
            la::mul_vec(&self.inv, &s).iter().zip(&self.d).map(|(a, b)| a / b).collect()
        };
        let mut x = solve(&r);
        for _ in 0..2 {
            let kx = la::mul_vec(&self.kr, &x);
            let res: Vec<f64> = r.iter().zip(&kx).map(|(a, b)| a - b).collect();
            let dx = solve(&res);
            for i in 0..x.len() {
                x[i] += dx[i];
            }
        }
        la::mul_vec(&self.z, &x)
    }
}

/// Runs code under test on a fresh simulated thread whose hash containers get the given keys.
pub fn on_thread<T: Send>(hash_seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    seams::set_hash_seed(hash_seed);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || simkit::guard(f))
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("thread died".into()))
    })
}

/// A plan of preemptions for a few threads: scattered ones, or many at about one distance.
pub fn preemptions(t: &mut Tape) -> Vec<(u64, u64)> {
    let np = t.usize(24);
    let mut plan: Vec<(u64, u64)> = (0..np)
        .map(|_| {
            let b = t.usize(14);
            (1 + t.draw(2 << b), t.usize(4) as u64)
        })
        .collect();
    if t.chance(1, 2) {
        let b = t.usize(14);
        let skip = 1 + t.draw(2 << b);
        let count = [50, 200, 600][t.usize(3)];
        let gap = 2u64 << t.usize(12);
        let w = t.word();
        plan.push((skip, w & 3));
        for i in 0..count {
            let h = simkit::splitmix(w ^ i);
            plan.push((1 + (h >> 8) % gap, h & 3));
        }
    }
    plan
}

/// Runs two pieces of work on two threads under a plan of preemptions; panics come back as `Err`.
pub fn beside<A: Send, B: Send>(
    hash_seed: u64,
    plan: Vec<(u64, u64)>,
    calls: (u64, u64),
    atomics: (u64, u64),
    a: impl FnOnce() -> A + Send,
    b: impl FnOnce() -> B + Send,
) -> (Result<A, String>, Result<B, String>) {
    seams::set_hash_seed(hash_seed);
    simkit::sched::set_plan(plan);
    simkit::sched::set_call_switches(calls.0, calls.1);
    simkit::sched::set_atomic_switches(atomics.0, atomics.1);
    let r = std::thread::scope(|s| {
        let x = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || simkit::guard(a)).unwrap();
        let y = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || simkit::guard(b)).unwrap();
        (
            x.join().unwrap_or_else(|_| Err("thread died".into())),
            y.join().unwrap_or_else(|_| Err("thread died".into())),
        )
    });
    simkit::sched::set_plan(vec![]);
    simkit::sched::set_call_switches(0, 1);
    simkit::sched::set_atomic_switches(0, 1);
    r
}

/// Whether and how closely threads are switched after calls of the system.
pub fn call_switches(t: &mut Tape) -> (u64, u64) {
    if t.chance(1, 2) {
        let b = t.usize(10);
        (t.word() | 1, 1 << b)
    } else {
        (0, 1)
    }
}

/// Whether and how often threads are switched before atomic operations.
pub fn atomic_switches(t: &mut Tape) -> (u64, u64) {
    if t.chance(1, 2) {
        (t.word() | 1, [2, 3, 8, 40][t.usize(4)])
    } else {
        (0, 1)
    }
}

/// Displacements of a deformation as a flat vector.
pub fn disp(d: &Deformation) -> Vec<f64> {
    let s = 2f64.powi(400);
    d.displaced_nodes(s).iter().flat_map(|p| vec![p[0] / s, p[1] / s]).collect()
}
