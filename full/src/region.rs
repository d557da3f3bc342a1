//! Generated plane regions with boundary conditions, and what the code under test made of them.
use crate::fem;
use bugi::element::constraint::Constraint;
use bugi::element::strain::Condition;
use bugi::sim_calls as calls;
use bugi::mesher::bounds::PlaneBoundary;
use simkit::Tape;

#[derive(Clone, Debug)]
pub struct Region {
    pub mat: &'static str,
    pub cond: (char, f64),
    /// outer polygons counterclockwise, holes clockwise
    pub polys: Vec<Vec<[f64; 2]>>,
    /// (polygon, side) -> load, side i from corner i to corner i+1; the flag says "named backwards"
    pub force: Vec<((usize, usize), bool, [f64; 2])>,
    pub support: Vec<((usize, usize), bool, Constraint)>,
    /// every corner has a label, whether it needs one or not
    pub named: bool,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub attributes: bool,
    pub holes: usize,
    pub angles: bool,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts { attributes: false, holes: 2, angles: true }
    }
}

/// What a loaded boundary holds, read through its interface.
pub struct Seen {
    pub sides: Vec<([f64; 2], [f64; 2])>,
    pub mat: Option<String>,
    pub cond: Option<(char, f64)>,
    pub force: Vec<([f64; 2], [f64; 2], [f64; 2])>,
    pub support: Vec<([f64; 2], Constraint)>,
}

pub enum Read {
    Bound(Seen),
    Refused(String),
    Panic(String),
}

pub fn merge(a: Option<Constraint>, b: Constraint) -> Constraint {
    use Constraint::*;
    match (a, b) {
        (None, c) | (Some(Free), c) => c,
        (Some(XFixed), YFixed) | (Some(YFixed), XFixed) | (Some(XYFixed), _) | (_, XYFixed) => XYFixed,
        (Some(AngleFixed(_)), c) => c,
        (Some(c), _) => c,
    }
}

pub fn see(b: &PlaneBoundary) -> Seen {
    let xy = |p: spacemath::two::Point| -> [f64; 2] { p.into() };
    let mut s = Seen {
        sides: Vec::new(),
        mat: b.material().map(|m| m.name.to_string()),
        cond: b.condition().map(|c| match c {
            Condition::PlaneStress(t) => ('s', t),
            Condition::PlaneStrain(t) => ('e', t),
            Condition::Axisymmetric => ('a', 0.0),
        }),
        force: Vec::new(),
        support: Vec::new(),
    };
    let mut at = Vec::new();
    if b.all_vertices().next().is_some() {
        for w in b.all_walls() {
            let (p, q) = w.get();
            s.sides.push((xy(p), xy(q)));
            at.push((w.0, xy(p)));
        }
    }
    for (g, f) in b.all_distributed_forces() {
        let (p, q) = g.get();
        s.force.push((xy(p), xy(q), xy(f)));
    }
    for (v, c) in b.all_constraints() {
        let p = at.iter().find(|a| a.0 == v).map_or([f64::NAN; 2], |a| a.1);
        // several supports of a vertex act together
        match s.support.iter_mut().find(|x| x.0 == p) {
            Some(x) => x.1 = merge(Some(x.1), c),
            None => s.support.push((p, c)),
        }
    }
    s
}

pub fn load(key: u64, path: &str) -> Read {
    let r = fem::on_thread(key, || match calls::read_to_bound(path) {
        Ok(b) => Ok(see(&b)),
        Err(e) => Err(e.to_string()),
    });
    match r {
        Ok(Ok(s)) => Read::Bound(s),
        Ok(Err(e)) => Read::Refused(e),
        Err(p) => Read::Panic(p),
    }
}

/// Outlines of a set of cells: columns and rows of drawn widths, some cells left out.
fn cells(t: &mut Tape) -> Vec<Vec<[f64; 2]>> {
    let mut lines = |n: usize| -> Vec<f64> {
        let mut x = vec![0.0];
        for _ in 0..n {
            let w = [1.0, 2.0, 0.5, 4.0, 0.25, 1.5][t.usize(6)];
            x.push(x[x.len() - 1] + w);
        }
        x
    };
    let (nx, ny) = {
        let a = lines(5);
        let b = lines(5);
        (a, b)
    };
    let (cx, cy) = (t.range(2, 5), t.range(2, 5));
    let (xs, ys) = (&nx[..=cx], &ny[..=cy]);
    let out = t.range(1, 3) as u64;
    let pieces = t.chance(1, 6);
    let mut full = vec![vec![false; cy]; cx];
    for c in full.iter_mut().flatten() {
        *c = !t.chance(out, 5);
    }
    full[0][0] = true;
    // cells that touch only at a corner are joined
    loop {
        let mut again = false;
        for i in 1..cx {
            for j in 1..cy {
                let (a, b, c, d) = (full[i - 1][j - 1], full[i][j - 1], full[i - 1][j], full[i][j]);
                if a == d && b == c && a != b {
                    full[i][j] = true;
                    full[i - 1][j] = true;
                    again = true;
                }
            }
        }
        if !again {
            break;
        }
    }
    if !pieces {
        // what hangs together with the first cell
        let mut seen = vec![vec![false; cy]; cx];
        let mut todo = vec![(0, 0)];
        while let Some((i, j)) = todo.pop() {
            if i < cx && j < cy && full[i][j] && !seen[i][j] {
                seen[i][j] = true;
                todo.extend([(i + 1, j), (i.wrapping_sub(1), j), (i, j + 1), (i, j.wrapping_sub(1))]);
            }
        }
        full = seen;
    }
    // walk around with the cells on the left
    let is = |i: i64, j: i64| i >= 0 && j >= 0 && i < cx as i64 && j < cy as i64 && full[i as usize][j as usize];
    let mut next = std::collections::BTreeMap::new();
    for i in 0..=cx as i64 {
        for j in 0..=cy as i64 {
            if is(i, j) && !is(i, j - 1) {
                next.insert((i, j), (i + 1, j));
            }
            if is(i - 1, j) && !is(i, j) {
                next.insert((i, j), (i, j + 1));
            }
            if is(i - 1, j - 1) && !is(i - 1, j) {
                next.insert((i, j), (i - 1, j));
            }
            if is(i, j - 1) && !is(i - 1, j - 1) {
                next.insert((i, j), (i, j - 1));
            }
        }
    }
    let mut polys = Vec::new();
    while let Some((&start, _)) = next.iter().next() {
        let mut walk = vec![start];
        let mut at = next.remove(&start).unwrap();
        while at != start {
            walk.push(at);
            at = next.remove(&at).unwrap();
        }
        let n = walk.len();
        let mut p = Vec::new();
        for k in 0..n {
            let (a, b, c) = (walk[(k + n - 1) % n], walk[k], walk[(k + 1) % n]);
            let straight = (b.0 - a.0, b.1 - a.1) == (c.0 - b.0, c.1 - b.1);
            // now and then a side is made of several
            if !straight || t.chance(1, 6) {
                p.push([xs[b.0 as usize], ys[b.1 as usize]]);
            }
        }
        polys.push(p);
    }
    let area = |p: &Vec<[f64; 2]>| -> f64 { (0..p.len()).map(|k| p[k][0] * p[(k + 1) % p.len()][1] - p[k][1] * p[(k + 1) % p.len()][0]).sum() };
    polys.sort_by(|a, b| area(b).total_cmp(&area(a)));
    polys
}

/// Polygon with well separated corners around a grid cell block, sides at least `h` long.
pub fn generate(t: &mut Tape, o: Opts) -> Region {
    let mut r = outline(t, o);
    attributes(t, &mut r, o);
    r
}

pub fn outline(t: &mut Tape, o: Opts) -> Region {
    let mat = if t.chance(1, 2) { "AL6061" } else { "TEST" };
    let cond = match t.usize(3) {
        0 => ('s', 0.25 * t.range(1, 8) as f64),
        1 => ('e', 0.125 * t.range(1, 8) as f64),
        _ => ('a', 0.0),
    };
    let unit = [1.0, 0.25, 3.0][t.usize(3)];
    let x0 = if cond.0 == 'a' { 0.5 } else { t.lattice(3, 1.0) };
    // outline: rectangle, chamfered, L, T or U shape on an 8 x 8 grid
    let shape: &[[f64; 2]] = match t.usize(6) {
        0 => &[[0.0, 0.0], [8.0, 0.0], [8.0, 8.0], [0.0, 8.0]],
        1 => &[[0.0, 0.0], [8.0, 0.0], [8.0, 4.0], [0.0, 4.0]],
        2 => &[[0.0, 0.0], [8.0, 0.0], [8.0, 4.0], [4.0, 8.0], [0.0, 8.0]],
        3 => &[[0.0, 0.0], [8.0, 0.0], [8.0, 4.0], [4.0, 4.0], [4.0, 8.0], [0.0, 8.0]],
        4 => &[[0.0, 0.0], [8.0, 0.0], [8.0, 8.0], [5.0, 8.0], [5.0, 3.0], [3.0, 3.0], [3.0, 8.0], [0.0, 8.0]],
        _ => &[[0.0, 0.0], [3.0, 0.0], [5.0, 0.0], [8.0, 0.0], [8.0, 3.0], [8.0, 8.0], [0.0, 8.0]],
    };
    let mut polys = vec![shape.to_vec()];
    let nh = if o.holes == 0 { 0 } else { t.usize(o.holes + 1) };
    let spots: &[[f64; 2]] = &[[1.0, 1.0], [5.5, 1.0], [1.0, 2.75]];
    for k in 0..nh.min(spots.len()) {
        let [x, y] = spots[k];
        let w = 1.0;
        polys.push(vec![[x, y], [x, y + w], [x + w, y + w], [x + w, y]]);
    }
    if t.chance(1, 3) {
        polys = cells(t);
    }
    for p in polys.iter_mut() {
        let r = t.usize(p.len());
        p.rotate_left(r);
        for c in p.iter_mut() {
            *c = [(c[0] + x0) * unit, c[1] * unit];
        }
    }
    Region { mat, cond, polys, force: vec![], support: vec![], named: false }
}

pub fn attributes(t: &mut Tape, r: &mut Region, o: Opts) {
    if o.attributes {
        for p in 0..r.polys.len() {
            for s in 0..r.polys[p].len() {
                let mut more = t.chance(1, 4);
                while more {
                    r.force.push(((p, s), t.chance(1, 3), [t.lattice(8, 250.5), t.lattice(8, 1e3)]));
                    more = t.chance(1, 8);
                }
                let mut more = t.chance(1, 3);
                while more {
                    let c = match t.usize(if o.angles { 4 } else { 3 }) {
                        0 => Constraint::XFixed,
                        1 => Constraint::YFixed,
                        2 => Constraint::XYFixed,
                        _ => Constraint::AngleFixed(t.lattice(30, 0.1)),
                    };
                    r.support.push(((p, s), t.chance(1, 3), c));
                    more = t.chance(1, 8);
                }
            }
        }
    }
    r.named = o.attributes && t.chance(1, 4);
    // an inclined support keeps to itself: no other support on its side and the sides next to it
    let around = |r: &Region, (p, s): (usize, usize)| {
        let n = r.polys[p].len();
        [(p, (s + 1) % n), (p, (s + n - 1) % n)]
    };
    let mut i = 0;
    while i < r.support.len() {
        let (at, _, c) = r.support[i];
        let near = around(r, at);
        let beside = |k: usize, x: &(usize, usize)| near.contains(x) || (*x == at && k != i);
        if matches!(c, Constraint::AngleFixed(_)) && r.support.iter().enumerate().any(|(k, x)| beside(k, &x.0)) {
            r.support.remove(i);
        } else {
            i += 1;
        }
    }
}

impl Region {
    pub fn corner(&self, p: usize, i: usize) -> [f64; 2] {
        self.polys[p][i % self.polys[p].len()]
    }

    fn label(&self, p: usize, i: usize) -> String {
        let k = i % self.polys[p].len();
        let used = |f: &(usize, usize)| f.0 == p && (f.1 == k || (f.1 + 1) % self.polys[p].len() == k);
        if self.named || self.force.iter().any(|x| used(&x.0)) || self.support.iter().any(|x| used(&x.0)) {
            format!("{}{}", (b'a' + p as u8) as char, k)
        } else {
            String::new()
        }
    }

    /// The labels at the ends of each side.
    pub fn side_names(&self) -> Vec<(String, String)> {
        let mut out = Vec::new();
        for p in 0..self.polys.len() {
            for i in 0..self.polys[p].len() {
                out.push((self.label(p, i), self.label(p, i + 1)));
            }
        }
        out
    }

    /// The boundary file, and its fields as (from, to, kind).
    pub fn write(&self, t: &mut Tape) -> (String, Vec<(usize, usize, char)>) {
        let mut items: Vec<Vec<(String, char)>> = Vec::new();
        let style = t.usize(3);
        let num = |x: f64| match style {
            0 => format!("{}", x),
            1 => format!("{:e}", x),
            _ => format!("{:?}", x),
        };
        for p in 0..self.polys.len() {
            let mut v = vec![("polygon".to_string(), 'k'), ("\n".into(), ' ')];
            for i in 0..self.polys[p].len() {
                let c = self.polys[p][i];
                v.push((num(c[0]), 'n'));
                v.push((" ".into(), ' '));
                v.push((num(c[1]), 'n'));
                let l = self.label(p, i);
                if !l.is_empty() {
                    v.push((" ".into(), ' '));
                    v.push((l, 'v'));
                }
                v.push(("\n".into(), ' '));
            }
            v.push(("end".into(), 'k'));
            items.push(v);
        }
        items.push(vec![("material".into(), 'k'), (" ".into(), ' '), (self.mat.into(), 'm')]);
        let c = match self.cond {
            ('s', t) => format!("planestress {}", num(t)),
            ('e', t) => format!("planestrain {}", num(t)),
            _ => "axisymmetric".to_string(),
        };
        items.push(vec![("condition".into(), 'k'), (" ".into(), ' '), (c, 'c')]);
        let ends = |f: (usize, usize), back: bool| {
            let (a, b) = (self.label(f.0, f.1), self.label(f.0, f.1 + 1));
            if back {
                (b, a)
            } else {
                (a, b)
            }
        };
        for &(f, back, v) in &self.force {
            let (a, b) = ends(f, back);
            items.push(vec![
                ("distributed_force".into(), 'k'),
                (" ".into(), ' '),
                (a, 'l'),
                (" ".into(), ' '),
                (b, 'l'),
                (" ".into(), ' '),
                (num(v[0]), 'n'),
                (" ".into(), ' '),
                (num(v[1]), 'n'),
            ]);
        }
        for &(f, back, c) in &self.support {
            let (a, b) = ends(f, back);
            items.push(vec![
                ("distributed_constraint".into(), 'k'),
                (" ".into(), ' '),
                (a, 'l'),
                (" ".into(), ' '),
                (b, 'l'),
                (" ".into(), ' '),
                (c.to_string(), 's'),
            ]);
        }
        let order = if t.chance(1, 3) { t.permutation(items.len()) } else { (0..items.len()).collect() };
        let mut out = String::new();
        let mut fields = Vec::new();
        for (k, &i) in order.iter().enumerate() {
            if k > 0 {
                out.push('\n');
            }
            let start = out.len();
            for (s, kind) in &items[i] {
                let f = out.len();
                out.push_str(s);
                if *kind != ' ' {
                    fields.push((f, out.len(), *kind));
                }
            }
            if i < self.polys.len() {
                fields.push((start, out.len(), 'p'));
            }
        }
        (out, fields)
    }

    /// The load of each side: all that are stated for it together.
    pub fn loads(&self) -> Vec<((usize, usize), [f64; 2])> {
        let mut out: Vec<((usize, usize), [f64; 2])> = Vec::new();
        for &(at, _, v) in &self.force {
            match out.iter_mut().find(|x| x.0 == at) {
                Some(x) => x.1 = [x.1[0] + v[0], x.1[1] + v[1]],
                None => out.push((at, v)),
            }
        }
        out
    }

    /// Support of each corner: both sides' supports combined.
    pub fn corner_supports(&self) -> Vec<([f64; 2], Constraint)> {
        let mut out: Vec<([f64; 2], Constraint)> = Vec::new();
        for &((p, s), _, c) in &self.support {
            for i in [s, s + 1] {
                let at = self.corner(p, i);
                match out.iter_mut().find(|x| x.0 == at) {
                    Some(x) => x.1 = merge(Some(x.1), c),
                    None => out.push((at, c)),
                }
            }
        }
        out
    }

    pub fn differs(&self, s: &Seen) -> Option<String> {
        let mut sides = Vec::new();
        for p in 0..self.polys.len() {
            for i in 0..self.polys[p].len() {
                sides.push((self.corner(p, i), self.corner(p, i + 1)));
            }
        }
        if s.sides.len() != sides.len() || !sides.iter().all(|x| s.sides.contains(x)) {
            return Some(format!("sides {:?} became {:?}", sides, s.sides));
        }
        if s.mat.as_deref() != Some(self.mat) || s.cond != Some(self.cond) {
            return Some(format!("{} {:?} became {:?} {:?}", self.mat, self.cond, s.mat, s.cond));
        }
        let loads = self.loads();
        if s.force.len() != loads.len() {
            return Some(format!("{} loads became {:?}", loads.len(), s.force));
        }
        for &((p, i), v) in &loads {
            let (a, b) = (self.corner(p, i), self.corner(p, i + 1));
            if !s.force.iter().any(|f| ((f.0 == a && f.1 == b) || (f.0 == b && f.1 == a)) && f.2 == v) {
                return Some(format!("load {:?} on {:?}-{:?} is missing: {:?}", v, a, b, s.force));
            }
        }
        let want = self.corner_supports();
        if s.support.len() != want.len() {
            return Some(format!("supports {:?} became {:?}", want, s.support));
        }
        for w in &want {
            if !s.support.iter().any(|x| same_support(x.0, x.1, w)) {
                return Some(format!("support {:?} is missing: {:?}", w, s.support));
            }
        }
        None
    }
}

fn same_support(p: [f64; 2], c: Constraint, w: &([f64; 2], Constraint)) -> bool {
    p == w.0
        && match (c, w.1) {
            // two inclined supports meeting at a corner combine to some direction between them
            (Constraint::AngleFixed(_), Constraint::AngleFixed(_)) => true,
            (a, b) => a == b,
        }
}
