//! What a mesh file says, written and read by hand, independently of the code under test.
use crate::fem::Model;
use bugi::element::constraint::Constraint;
use bugi::element::strain::Condition;
use bugi::element::ElementAssemblage;
use simkit::Tape;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Doc {
    pub mat: String,
    /// 's' plane stress, 'e' plane strain, 'a' axisymmetric
    pub cond: (char, f64),
    pub nodes: Vec<[f64; 2]>,
    pub els: Vec<[usize; 3]>,
    pub cons: BTreeMap<usize, Constraint>,
    pub conc: BTreeMap<usize, [f64; 2]>,
    pub line: BTreeMap<(usize, usize), [f64; 2]>,
}

fn cond(c: Condition) -> (char, f64) {
    match c {
        Condition::PlaneStress(t) => ('s', t),
        Condition::PlaneStrain(t) => ('e', t),
        Condition::Axisymmetric => ('a', 0.0),
    }
}

impl Doc {
    pub fn of_model(m: &Model) -> Doc {
        let cons = m.merged().into_iter().enumerate().filter(|c| c.1 != Constraint::Free).collect();
        // loads put on one node, or on one edge in one direction, add up
        let mut conc: BTreeMap<usize, [f64; 2]> = BTreeMap::new();
        for &(n, f) in &m.conc {
            conc.entry(n).and_modify(|s| *s = [s[0] + f[0], s[1] + f[1]]).or_insert(f);
        }
        let mut line: BTreeMap<(usize, usize), [f64; 2]> = BTreeMap::new();
        for &(a, b, f) in &m.line {
            line.entry((a, b)).and_modify(|s| *s = [s[0] + f[0], s[1] + f[1]]).or_insert(f);
        }
        Doc {
            mat: m.mat.name.to_string(),
            cond: cond(m.cond),
            nodes: m.nodes.clone(),
            els: m.els.clone(),
            cons,
            conc,
            line,
        }
    }

    /// What a loaded model holds, or why it cannot be described.
    pub fn of_elas(e: &ElementAssemblage) -> Result<Doc, String> {
        let m = e.material();
        let known = [bugi::element::material::AL6061, bugi::element::material::TEST];
        if !known.iter().any(|k| (k.name, k.youngs, k.poisson, k.density) == (m.name, m.youngs, m.poisson, m.density)) {
            return Err(format!("unknown material {:?}", m));
        }
        let mut d = Doc {
            mat: m.name.to_string(),
            cond: cond(e.condition()),
            nodes: Vec::new(),
            els: Vec::new(),
            cons: BTreeMap::new(),
            conc: BTreeMap::new(),
            line: BTreeMap::new(),
        };
        for p in e.nodes() {
            if p.dim() != 2 {
                return Err(format!("a node with {} coordinates", p.dim()));
            }
            d.nodes.push([p[0], p[1]]);
        }
        for x in e.element_descriptors() {
            let q = x.into_parts();
            d.els.push([q[0].into_idx(), q[1].into_idx(), q[2].into_idx()]);
        }
        for (n, c) in e.constraints() {
            if c != Constraint::Free && d.cons.insert(n.into_idx(), c).is_some() {
                return Err("two supports listed for one node".into());
            }
        }
        for (n, f) in e.conc_forces() {
            if f.dim() != 2 {
                return Err(format!("a force with {} components", f.dim()));
            }
            if d.conc.insert(n.into_idx(), [f[0], f[1]]).is_some() {
                return Err("two concentrated loads listed for one node".into());
            }
        }
        for ((a, b), f) in e.dist_forces() {
            if f.dim() != 2 {
                return Err(format!("a line load with {} components", f.dim()));
            }
            if d.line.insert((a.into_idx(), b.into_idx()), [f[0], f[1]]).is_some() {
                return Err("two line loads listed for one edge".into());
            }
        }
        Ok(d)
    }

    /// First difference beyond the printed precision, if any.
    pub fn differs(&self, o: &Doc, exact: bool) -> Option<String> {
        let near = |a: f64, b: f64, step: f64| {
            let tol = if exact { 0.0 } else { 0.5001 * step } + 4e-16 * a.abs().max(b.abs());
            (a - b).abs() <= tol
        };
        if self.mat != o.mat {
            return Some(format!("material {} became {}", self.mat, o.mat));
        }
        if self.cond.0 != o.cond.0 || !near(self.cond.1, o.cond.1, 1e-5) {
            return Some(format!("condition {:?} became {:?}", self.cond, o.cond));
        }
        if self.nodes.len() != o.nodes.len() {
            return Some(format!("{} nodes became {}", self.nodes.len(), o.nodes.len()));
        }
        for (i, (a, b)) in self.nodes.iter().zip(&o.nodes).enumerate() {
            if !near(a[0], b[0], 1e-6) || !near(a[1], b[1], 1e-6) {
                return Some(format!("node {} at {:?} became {:?}", i, a, b));
            }
        }
        if self.els != o.els {
            let i = (0..self.els.len().max(o.els.len())).find(|&i| self.els.get(i) != o.els.get(i));
            return Some(format!("elements differ at {:?}: {:?} became {:?}", i, i.map(|i| self.els.get(i)), i.map(|i| o.els.get(i))));
        }
        if self.cons != o.cons {
            return Some(format!("supports {:?} became {:?}", self.cons, o.cons));
        }
        let forces = |a: &[f64; 2], b: &[f64; 2]| near(a[0], b[0], 1e-3) && near(a[1], b[1], 1e-3);
        if !self.conc.keys().eq(o.conc.keys()) || !self.conc.values().zip(o.conc.values()).all(|(a, b)| forces(a, b)) {
            return Some(format!("concentrated loads {:?} became {:?}", self.conc, o.conc));
        }
        if !self.line.keys().eq(o.line.keys()) || !self.line.values().zip(o.line.values()).all(|(a, b)| forces(a, b)) {
            return Some(format!("line loads {:?} became {:?}", self.line, o.line));
        }
        None
    }

    /// Reads a complete mesh file; strict, also about what follows the last section.
    pub fn read(text: &str) -> Result<Doc, String> {
        let mut lines = text.split('\n').filter(|l| !l.is_empty() && !l.starts_with('#'));
        let mut next = move || lines.next().ok_or_else(|| "ends early".to_string());
        let word = |l: &str, w: &str| if l == w { Ok(()) } else { Err(format!("{:?} instead of {:?}", l, w)) };
        let rest = |l: &str, w: &str| l.strip_prefix(w).map(|s| s.to_string()).ok_or_else(|| format!("{:?} instead of {:?}...", l, w));
        let num = |s: &str| s.parse::<f64>().map_err(|_| format!("{:?} is no number", s));
        let idx = |s: &str| s.parse::<usize>().map_err(|_| format!("{:?} is no index", s));
        let pair = |s: &str| -> Result<[f64; 2], String> {
            let v: Vec<&str> = s.split('/').collect();
            if v.len() != 2 {
                return Err(format!("{:?} is no pair", s));
            }
            Ok([num(v[0])?, num(v[1])?])
        };
        word(next()?, "$Header")?;
        word(next()?, "version 1")?;
        let mat = rest(next()?, "material ")?;
        let c = rest(next()?, "condition ")?;
        let cond = if c == "axisymmetric" {
            ('a', 0.0)
        } else if let Some(t) = c.strip_prefix("planestress ") {
            ('s', num(t)?)
        } else if let Some(t) = c.strip_prefix("planestrain ") {
            ('e', num(t)?)
        } else {
            return Err(format!("condition {:?}", c));
        };
        word(next()?, "$EndHeader")?;
        let mut d = Doc { mat, cond, nodes: vec![], els: vec![], cons: BTreeMap::new(), conc: BTreeMap::new(), line: BTreeMap::new() };
        for sec in ["Nodes", "Elements", "Constraints", "Forces", "DistForces"] {
            word(next()?, &format!("${}", sec))?;
            let n = idx(&rest(next()?, "count ")?)?;
            for i in 0..n {
                let l = next()?;
                let (a, b) = l.split_once(' ').ok_or_else(|| format!("{:?}", l))?;
                let a = idx(a)?;
                if sec != "Nodes" && sec != "Elements" && a >= d.nodes.len() {
                    return Err(format!("node {} does not exist", a));
                }
                match sec {
                    "Nodes" | "Elements" if a != i => return Err(format!("entry {} listed as {}", i, a)),
                    "Nodes" => d.nodes.push(pair(b)?),
                    "Elements" => {
                        let v = b.split('/').map(idx).collect::<Result<Vec<_>, _>>()?;
                        if v.len() != 3 || v.iter().any(|&k| k >= d.nodes.len()) {
                            return Err(format!("element {:?}", b));
                        }
                        d.els.push([v[0], v[1], v[2]]);
                    }
                    "Constraints" => {
                        let c = match b {
                            "x" => Constraint::XFixed,
                            "y" => Constraint::YFixed,
                            "xy" => Constraint::XYFixed,
                            _ => Constraint::AngleFixed(num(&rest(b, "angle:")?)?),
                        };
                        if d.cons.insert(a, c).is_some() {
                            return Err("repeated support".into());
                        }
                    }
                    "Forces" => {
                        if d.conc.insert(a, pair(b)?).is_some() {
                            return Err("repeated load".into());
                        }
                    }
                    _ => {
                        let (m, f) = b.split_once(' ').ok_or_else(|| format!("{:?}", l))?;
                        let m = idx(m)?;
                        if m >= d.nodes.len() || d.line.insert((a, m), pair(f)?).is_some() {
                            return Err("line load".into());
                        }
                    }
                }
            }
            word(next()?, &format!("$End{}", sec))?;
        }
        match next() {
            Err(_) => Ok(d),
            Ok(l) => Err(format!("{:?} after the end", l)),
        }
    }

    /// Writes the file in one of the styles a person could use.
    pub fn write(&self, t: &mut Tape) -> String {
        let mut out = String::new();
        let style = t.usize(4);
        let num = move |x: f64| match style {
            0 => format!("{}", x),
            1 => format!("{:e}", x),
            2 if x.is_sign_positive() => format!("+{}", x),
            _ => format!("{:?}", x),
        };
        let decorate = t.chance(1, 2);
        let mut at = 0u64;
        let seed = t.word();
        let mut put = |s: String| {
            at += 1;
            if decorate {
                match simkit::splitmix(seed ^ at) % 8 {
                    0 => out.push('\n'),
                    1 => out.push_str("# a remark $Nodes 3/4\n"),
                    _ => {}
                }
            }
            out.push_str(&s);
            out.push('\n');
        };
        put("$Header".into());
        put("version 1".into());
        put(format!("material {}", self.mat));
        put(match self.cond {
            ('s', t) => format!("condition planestress {}", num(t)),
            ('e', t) => format!("condition planestrain {}", num(t)),
            _ => "condition axisymmetric".into(),
        });
        put("$EndHeader".into());
        let mut section = |name: &str, lines: Vec<String>| {
            put(format!("${}", name));
            put(format!("count {}", lines.len()));
            for l in lines {
                put(l);
            }
            put(format!("$End{}", name));
        };
        section("Nodes", self.nodes.iter().enumerate().map(|(i, p)| format!("{} {}/{}", i, num(p[0]), num(p[1]))).collect());
        section("Elements", self.els.iter().enumerate().map(|(i, e)| format!("{} {}/{}/{}", i, e[0], e[1], e[2])).collect());
        let mut cons = Vec::new();
        for (n, c) in &self.cons {
            match c {
                Constraint::XFixed => cons.push(format!("{} x", n)),
                Constraint::YFixed => cons.push(format!("{} y", n)),
                Constraint::XYFixed if t.chance(1, 3) => {
                    cons.push(format!("{} x", n));
                    cons.push(format!("{} y", n));
                }
                Constraint::XYFixed => cons.push(format!("{} xy", n)),
                Constraint::AngleFixed(a) => cons.push(format!("{} angle:{}", n, a)),
                Constraint::Free => {}
            }
        }
        let p = t.permutation(cons.len());
        section("Constraints", p.iter().map(|&i| cons[i].clone()).collect());
        let conc: Vec<String> = self.conc.iter().map(|(n, f)| format!("{} {}/{}", n, num(f[0]), num(f[1]))).collect();
        let p = t.permutation(conc.len());
        section("Forces", p.iter().map(|&i| conc[i].clone()).collect());
        let line: Vec<String> = self.line.iter().map(|((a, b), f)| format!("{} {} {}/{}", a, b, num(f[0]), num(f[1]))).collect();
        let p = t.permutation(line.len());
        section("DistForces", p.iter().map(|&i| line[i].clone()).collect());
        if t.chance(1, 2) {
            out.pop();
        }
        out
    }
}
