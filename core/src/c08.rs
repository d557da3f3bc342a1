//! C08: studies do not influence each other, across threads, repetitions or clock jumps.
use crate::c03::{self, Kind};
use crate::spectrum::{separated, slack};
use crate::fem::{self, Model, Opts};
use crate::la;
use bugi::element::constraint::Constraint;
use bugi::element::{Deformation, ElementAssemblage, NodeId};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::eigen::{DeterminantSearcher, EigenSystem};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::matrix::solve::{Solver, System};
use bugi::matrix::{CompressedRow, Dictionary, LowerRowEnvelope, MatrixLike};
use bugi::sim_calls as calls;
use bugi::visual::{color, VisOptions, Visualizer};
use simkit::{bad, discard, hit, sched, seams, shared, trivial, vfs, Property, Stop, Tape, Verdict};

#[derive(Clone, Debug)]
enum Extra {
    None,
    Load(usize, [f64; 2]),
    Support(usize),
}

#[derive(Clone, Debug)]
pub struct Scene {
    pub pts: Vec<[f64; 2]>,
    pub edges: Vec<(usize, usize)>,
    pub tris: Vec<(usize, usize, usize)>,
    pub vals: Option<Vec<f64>>,
    /// nodes painted in another colour, added after the first ones
    pub more: Vec<[f64; 2]>,
    pub size: Option<u32>,
    pub mesh: bool,
    pub map: usize,
}

#[derive(Clone, Debug)]
enum Job {
    /// a linear study repeated on one model, which is then loaded or supported further
    Linear { m: Model, extra: Extra, first: bool },
    Modal { m: Model, n: usize, again: usize },
    /// a linear study of a model that cannot stand
    Loose { m: Model },
    System { n: usize, c: Vec<(usize, usize, f64)>, r: Vec<f64>, solver: usize },
    Eigen { n: usize, k: Vec<(usize, usize, f64)>, d: Vec<f64>, steps: usize },
    Algebra { n: usize, a: Vec<(usize, usize, f64)>, b: Vec<(usize, usize, f64)> },
    Draw(Scene),
    /// reads of a deformation other threads read as well
    Shared { op: usize },
}

/// Numbers a job produced, in groups of one magnitude each.
type Out = Result<Vec<Vec<f64>>, String>;

fn nodes_of(pts: &[[f64; 2]]) -> ElementAssemblage {
    let mut e = ElementAssemblage::new(bugi::element::material::TEST, bugi::element::strain::Condition::PlaneStress(1.0));
    let p: Vec<(f64, f64)> = pts.iter().map(|p| (p[0], p[1])).collect();
    let _ = e.add_nodes(&p);
    e
}

pub fn visualizer(s: &Scene) -> (Visualizer, VisOptions) {
    let mut v: Visualizer = nodes_of(&s.pts).nodes().into();
    if !s.more.is_empty() {
        v.add_points(nodes_of(&s.more).nodes(), 2);
    }
    v.set_edges(s.edges.clone());
    v.set_triangles(s.tris.clone());
    if let Some(x) = &s.vals {
        v.set_vals(x.clone());
    }
    let mut o = VisOptions::new().show_mesh(s.mesh);
    if let Some(n) = s.size {
        o = o.im_size(n);
    }
    match s.map {
        1 => o = o.color_map(color::hot_map_boxed()),
        2 => o = o.color_map(color::rgb_map_boxed()),
        _ => {}
    }
    (v, o)
}

pub fn scene(t: &mut Tape) -> Scene {
    let k = t.range(2, 7);
    let mut pts: Vec<[f64; 2]> = vec![[0.0, 0.0], [1.0, 0.5]];
    while pts.len() < k {
        pts.push([t.lattice(6, 0.25), t.lattice(6, 0.25)]);
    }
    let mut edges = Vec::new();
    for _ in 0..t.usize(6) {
        edges.push((t.usize(k), t.usize(k)));
    }
    let mut tris = Vec::new();
    for _ in 0..t.usize(4) {
        let (a, b, c) = (t.usize(k), t.usize(k), t.usize(k));
        let area = (pts[b][0] - pts[a][0]) * (pts[c][1] - pts[a][1]) - (pts[c][0] - pts[a][0]) * (pts[b][1] - pts[a][1]);
        if area.abs() > 0.1 {
            tris.push((a, b, c));
        }
    }
    let more: Vec<[f64; 2]> = (0..t.usize(3)).map(|_| [t.lattice(4, 0.25), t.lattice(4, 0.25)]).collect();
    let n = k + more.len();
    let vals = if t.chance(2, 3) {
        let mut v: Vec<f64> = (0..n).map(|_| t.lattice(8, 0.5)).collect();
        v[0] = 7.0;
        Some(v)
    } else {
        None
    };
    let size = [Some(32), Some(16), Some(48), Some(97)][t.usize(4)];
    Scene { pts, edges, tris, vals, more, size, mesh: !t.chance(1, 5), map: t.usize(3) }
}

pub fn pixels(png: &[u8]) -> Result<(u32, u32, Vec<u8>), String> {
    match image::load_from_memory_with_format(png, image::ImageFormat::Png) {
        Ok(i) => {
            let i = i.to_rgb8();
            Ok((i.width(), i.height(), i.into_raw()))
        }
        Err(e) => Err(format!("{:?}", e)),
    }
}

fn flat(x: Vec<Option<bugi::element::stress::StressState>>) -> Vec<f64> {
    x.into_iter()
        .flat_map(|s| match s {
            Some(s) => {
                let c = s.to_cauchy();
                vec![c[(0, 0)], c[(1, 1)], c[(0, 1)]]
            }
            None => vec![0.0; 3],
        })
        .collect()
}

/// What a study must leave as it was.
fn content(e: &ElementAssemblage) -> String {
    let mut c: Vec<String> = e.conc_forces().iter().map(|(n, f)| format!("{:?} {:?} {:?}", n, f[0], f[1])).collect();
    c.sort();
    let mut d: Vec<String> = e.dist_forces().iter().map(|(n, f)| format!("{:?} {:?} {:?}", n, f[0], f[1])).collect();
    d.sort();
    let nodes: Vec<(f64, f64)> = e.nodes().iter().map(|p| (p[0], p[1])).collect();
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", nodes, e.constraints(), c, d, e.element_descriptors(), e.triangles(), e.edges(), e.condition())
}

fn moved(m: &Model, d: &Deformation) -> Vec<Vec<f64>> {
    let mut v = vec![fem::disp(d)];
    if !matches!(m.cond, bugi::element::strain::Condition::Axisymmetric) {
        v.push(flat(d.stresses()));
    }
    v
}

fn solve<S: Solver>(s: System) -> Out {
    S::new(s).solve().map(|x| vec![x]).map_err(|_| "Err".to_string())
}

fn work(j: &Job, name: &str, with: Option<&Deformation>) -> Out {
    match j {
        Job::Linear { m, extra, first } => {
            let mut e = m.build();
            let before = content(&e);
            let mut out = Vec::new();
            for g in [*first, !*first] {
                let d = calls::displacements(&mut e, !g as usize);
                out.extend(moved(m, &d));
            }
            if content(&e) != before {
                return Err(format!("!changed: the study changed its model from {} to {}", before, content(&e)));
            }
            match extra {
                Extra::None => {}
                Extra::Load(n, f) => e.add_conc_force(NodeId::new(*n), (f[0], f[1]).into()),
                Extra::Support(n) => e.add_constraint(NodeId::new(*n), Constraint::XYFixed),
            }
            let d = calls::displacements(&mut e, 1);
            out.extend(moved(m, &d));
            Ok(out)
        }
        Job::Modal { m, n, again } => {
            let mut e = m.build();
            let before = content(&e);
            let mut out = Vec::new();
            for k in [*n, *again] {
                let modes = e.calc_modes(k);
                let f: Vec<f64> = modes.iter().map(|d| d.frequency().unwrap_or(-1.0).powi(2)).collect();
                out.push(f);
                // a mode's sign is arbitrary
                for d in &modes {
                    let u = fem::disp(d);
                    out.push(u.iter().map(|x| x.abs()).collect());
                }
            }
            if content(&e) != before {
                return Err(format!("!changed: the study changed its model from {} to {}", before, content(&e)));
            }
            Ok(out)
        }
        Job::Loose { m } => {
            let mut e = m.build();
            let _ = calls::displacements(&mut e, 1);
            Ok(vec![])
        }
        Job::System { n, c, r, solver } => {
            let mut s = System::new(*n);
            for &(i, j, v) in c {
                s.add_k_coefficient((i, j), v);
            }
            for (i, &v) in r.iter().enumerate() {
                s.add_rhs_val(i, v);
            }
            match solver {
                0 => solve::<DenseGaussSolver>(s),
                1 => solve::<CholeskyEnvelopeSolver>(s),
                _ => solve::<GaussSeidelSolver>(s),
            }
        }
        Job::Eigen { n, k, d, steps } => {
            let mut s = System::new(*n);
            for &(i, j, v) in k {
                s.add_k_coefficient((i, j), v);
            }
            for (i, &v) in d.iter().enumerate() {
                s.add_m_coefficient((i, i), v);
            }
            let mut s = DeterminantSearcher::new(EigenSystem::new(s));
            for _ in 0..*steps {
                s.secant_iterate_one();
            }
            let a: Vec<f64> = s.find_eigens(*n).iter().map(|p| p.value()).collect();
            Ok(vec![a])
        }
        Job::Algebra { n, a, b } => {
            let mut x = Dictionary::zeros(*n);
            for &(i, j, v) in a {
                x[(i, j)] += v;
            }
            let mut y = Dictionary::zeros(*n);
            for &(i, j, v) in b {
                y[(i, j)] += v;
            }
            for i in 0..*n {
                x[(i, i)] += 200.0;
            }
            let p = x.mul_dict(&y.transposed());
            let mut out = Vec::new();
            let c = CompressedRow::from(p.clone());
            out.push((0..n * n).map(|q| *c.get((q / n, q % n)).unwrap_or(&0.0)).collect());
            // forward substitution with the lower triangle
            let l = LowerRowEnvelope::from(x);
            let mut z = vec![0.0; *n];
            let r: Vec<f64> = (0..*n).map(|i| 1.0 + i as f64).collect();
            l.solve(&r, &mut z);
            out.push(z);
            Ok(out)
        }
        Job::Draw(s) => {
            let (mut v, o) = visualizer(s);
            calls::draw(&mut v, name, o);
            let f = match vfs::get(name) {
                Some(f) => f,
                None => return Err("!image: nothing was written".into()),
            };
            let (w, h, p) = pixels(&f).map_err(|e| format!("!image: {}", e))?;
            Ok(vec![vec![w as f64, h as f64], p.into_iter().map(|x| x as f64).collect()])
        }
        Job::Shared { op } => {
            let d = with.unwrap();
            Ok(match op {
                0 => vec![fem::disp(d), d.displacement_norms()],
                1 => vec![flat(d.stresses())],
                2 => {
                    let mut v = d.visualize(1.0);
                    v.set_vals(d.displacement_norms().iter().enumerate().map(|(i, _)| i as f64).collect());
                    calls::draw(&mut v, name, VisOptions::new().im_size(24));
                    let f = vfs::get(name).unwrap_or_default();
                    let (w, h, p) = pixels(&f).map_err(|e| format!("!image: {}", e))?;
                    vec![vec![w as f64, h as f64], p.into_iter().map(|x| x as f64).collect()]
                }
                _ => vec![d.von_mises()],
            })
        }
    }
}

/// The keys the next hash container of this thread gets; asking uses one pair up.
fn keys() -> (u64, u64) {
    assert_eq!(std::mem::size_of::<std::hash::RandomState>(), 16);
    // the layout is two keys; were it another, no two studies would be taken for comparable
    unsafe { std::mem::transmute(std::hash::RandomState::new()) }
}

/// How many pairs were used up between two of them.
fn used(a: (u64, u64), b: (u64, u64)) -> u64 {
    let d = b.0.wrapping_sub(a.0);
    if d < 1 << 32 {
        d
    } else {
        b.1.wrapping_sub(a.1)
    }
}

fn pack(o: &[Result<Out, String>]) -> Vec<u8> {
    let mut v = Vec::new();
    let num = |v: &mut Vec<u8>, x: u64| v.extend_from_slice(&x.to_le_bytes());
    for o in o {
        let (tag, s) = match o {
            Ok(Ok(g)) => {
                num(&mut v, 0);
                num(&mut v, g.len() as u64);
                for r in g {
                    num(&mut v, r.len() as u64);
                    for x in r {
                        num(&mut v, x.to_bits());
                    }
                }
                continue;
            }
            Ok(Err(s)) => (1, s),
            Err(s) => (2, s),
        };
        num(&mut v, tag);
        num(&mut v, s.len() as u64);
        v.extend_from_slice(s.as_bytes());
    }
    v
}

fn unpack(v: &[u8], n: usize) -> Vec<Result<Out, String>> {
    let mut at = 0;
    let num = |at: &mut usize| {
        let x = u64::from_le_bytes(v[*at..*at + 8].try_into().unwrap());
        *at += 8;
        x
    };
    let mut out = Vec::new();
    for _ in 0..n {
        let tag = num(&mut at);
        if tag == 0 {
            let k = num(&mut at);
            let mut g = Vec::new();
            for _ in 0..k {
                let l = num(&mut at);
                g.push((0..l).map(|_| f64::from_bits(num(&mut at))).collect());
            }
            out.push(Ok(Ok(g)));
        } else {
            let l = num(&mut at) as usize;
            let s = String::from_utf8_lossy(&v[at..at + l]).into_owned();
            at += l;
            out.push(if tag == 1 { Ok(Err(s)) } else { Err(s) });
        }
    }
    out
}

fn stands(m: &Model) -> Option<fem::Solved> {
    m.reference_ok()
}

/// The answer a study has by the reference, where the harness knows one.
fn truth(j: &Job, got: &[Vec<f64>]) -> Verdict {
    match j {
        Job::Linear { m, extra, .. } => {
            let per = got.len() / 3;
            let mut later = m.clone();
            match extra {
                Extra::None => {}
                Extra::Load(n, f) => later.conc.push((*n, *f)),
                Extra::Support(n) => later.sup.push((*n, Constraint::XYFixed)),
            }
            for (k, m) in [m, m, &later].iter().enumerate() {
                let s = match stands(m) {
                    Some(s) => s,
                    None => return Ok(()),
                };
                let f = m.load();
                let want = s.displacements(&f);
                let scale = la::max_abs(&want).max(s.floor(&f));
                for (i, (a, b)) in got[k * per].iter().zip(&want).enumerate() {
                    if !((a - b).abs() <= 1e-6 * scale) {
                        let what = ["first study", "repeated study", "study after a change of the model"][k];
                        return bad("repeat", format!("{}: displacement component {} is {:e}, equilibrium needs {:e}", what, i, a, b));
                    }
                }
            }
        }
        Job::Modal { m, n, again } => {
            let z = m.basis();
            if let Some((vals, _)) = la::gen_eigen(&m.reduce(&m.k(), &z), &m.reduce(&m.m(), &z)) {
                for (k, g) in [(*n, &got[0]), (*again, &got[n + 1])] {
                    if g.len() != k {
                        return bad("repeat", format!("{} modes asked for, {} returned", k, g.len()));
                    }
                    for i in 0..k {
                        if !((g[i] - vals[i]).abs() <= slack(&vals, i)) {
                            return bad("repeat", format!("mode {} has squared frequency {:e}, should be {:e}", i, g[i], vals[i]));
                        }
                    }
                }
            }
        }
        Job::Eigen { n, k, d, .. } => {
            let mut mm = la::zeros(*n, *n);
            for i in 0..*n {
                mm[i][i] = d[i];
            }
            if let Some((vals, _)) = la::gen_eigen(&c03::sum(*n, k), &mm) {
                for i in 0..*n {
                    if got[0].len() != *n || !((got[0][i] - vals[i]).abs() <= slack(&vals, i)) {
                        return bad("repeat", format!("eigenvalues {:?}, should be {:?}", got[0], vals));
                    }
                }
            }
        }
        Job::System { n, c, r, solver } if *solver < 2 => {
            if let Some((_, inv)) = c03::conditioned(&c03::sum(*n, c)) {
                let want = la::mul_vec(&inv, r);
                let s = la::max_abs(&want);
                for i in 0..*n {
                    if got[0].len() != *n || !((got[0][i] - want[i]).abs() <= 1e-6 * s) {
                        return bad("repeat", format!("solution {:?}, should be {:?}", got[0], want));
                    }
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn same(who: &str, alone: &Result<Out, String>, got: &Result<Out, String>, tight: bool) -> Verdict {
    match (alone, got) {
        (Ok(Ok(a)), Ok(Ok(b))) => {
            if !tight {
                return Ok(());
            }
            if a.len() != b.len() {
                return bad("differs", format!("{}: {} groups of numbers, alone {}", who, b.len(), a.len()));
            }
            for (k, (x, y)) in a.iter().zip(b).enumerate() {
                let s = la::max_abs(x);
                if x.len() != y.len() {
                    return bad("differs", format!("{}: group {} has {} numbers, alone {}", who, k, y.len(), x.len()));
                }
                for i in 0..x.len() {
                    if x[i].to_bits() != y[i].to_bits() && !((x[i] - y[i]).abs() <= 1e-9 * s) {
                        return bad("differs", format!("{}: number {} of group {} is {:e}, alone it is {:e}", who, i, k, y[i], x[i]));
                    }
                }
            }
            Ok(())
        }
        (Ok(Ok(_)), Ok(Err(e))) | (Ok(Ok(_)), Err(e)) => bad("failed", format!("{}: succeeds alone, failed here: {}", who, e)),
        (_, Ok(Ok(_))) if tight => bad("succeeded", format!("{}: fails alone, succeeded here", who)),
        _ => Ok(()),
    }
}

struct W<T>(std::marker::PhantomData<T>);
trait NotSync {
    fn is_sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for &W<T> {}
trait IsSync {
    fn is_sync(&self) -> bool {
        true
    }
}
impl<T: Sync> IsSync for W<T> {}

/// Lets scenarios share what the type system allows them to share (checked before use).
struct Carry<'a>(Option<&'a Deformation<'a>>);
unsafe impl Send for Carry<'_> {}
unsafe impl Sync for Carry<'_> {}

/// Whether a study is one the code has to manage, and with one well defined answer.
fn fit(j: &Job) -> Verdict {
    match j {
        Job::Linear { m, extra, .. } => {
            if stands(m).is_none() {
                return discard("not well posed or ill conditioned");
            }
            if let Extra::Support(i) = extra {
                let mut l = m.clone();
                l.sup.push((*i, Constraint::XYFixed));
                // an inclined support gives way to a full one, but some displacement must stay free
                if l.basis().first().map_or(0, |r| r.len()) == 0 || stands(&l).is_none() {
                    return discard("further support leaves nothing free");
                }
            }
        }
        Job::Modal { m, n, again } => {
            if stands(m).is_none() {
                return discard("not well posed or ill conditioned");
            }
            let z = m.basis();
            if z[0].len() < *n.max(again) {
                return discard("fewer free displacements than modes");
            }
            match la::gen_eigen(&m.reduce(&m.k(), &z), &m.reduce(&m.m(), &z)) {
                Some((v, _)) if separated(&v) => {}
                _ => return discard("natural frequencies not well separated"),
            }
        }
        Job::Loose { m } => {
            if m.basis().first().map_or(0, |r| r.len()) == 0 {
                return discard("nothing free");
            }
        }
        Job::System { n, c, .. } => match c03::conditioned(&c03::sum(*n, c)) {
            Some((x, _)) if x < 1e5 => {}
            _ => return discard("ill conditioned system"),
        },
        Job::Eigen { n, k, d, .. } => {
            let km = c03::sum(*n, k);
            let mut mm = la::zeros(*n, *n);
            for i in 0..*n {
                mm[i][i] = d[i];
            }
            if la::cholesky(&km).is_none() {
                return discard("not positive definite");
            }
            match la::gen_eigen(&km, &mm) {
                Some((v, _)) if separated(&v) => {}
                _ => return discard("eigenvalues not well separated"),
            }
        }
        Job::Algebra { .. } | Job::Draw(_) | Job::Shared { .. } => {}
    }
    Ok(())
}

fn job(t: &mut Tape, shareable: bool) -> Result<Job, Stop> {
    let plain = |t: &mut Tape| {
        let cells = 1 + t.usize(2);
        let o = Opts { bodies: 1, cells, firm: !t.chance(1, 2), ..Opts::default() };
        fem::generate(t, o)
    };
    let j = match t.usize(if shareable { 9 } else { 8 }) {
        0 | 1 => {
            let m = plain(t);
            let n = m.nodes.len();
            let extra = match t.usize(3) {
                0 => Extra::None,
                1 => {
                    let i = t.usize(n);
                    Extra::Load(i, [t.lattice(8, 0.25), t.lattice(8, 0.25)])
                }
                _ => Extra::Support(t.usize(n)),
            };
            Job::Linear { m, extra, first: t.chance(1, 2) }
        }
        2 => {
            let m = plain(t);
            let w = [t.word(), t.word()];
            let free = m.basis().first().map_or(0, |r| r.len()).max(1);
            let n = (1 + w[0] as usize % free).min(3);
            let again = (1 + w[1] as usize % free).min(3);
            Job::Modal { m, n, again }
        }
        3 => {
            let mut m = plain(t);
            m.sup.truncate(t.usize(2));
            if m.conc.is_empty() {
                m.conc.push((0, [1.0, 0.5]));
            }
            Job::Loose { m }
        }
        4 => {
            let n = t.range(1, 8);
            let kind = [Kind::Dominant, Kind::Springs][t.usize(2)];
            let c = c03::contributions(t, n, kind);
            let r: Vec<f64> = (0..n).map(|_| 1.0 + t.lattice(3, 0.25)).collect();
            Job::System { n, c, r, solver: t.usize(3) }
        }
        5 => {
            let n = t.range(1, 6);
            let k = c03::contributions(t, n, Kind::Dominant);
            let d: Vec<f64> = (0..n).map(|_| 0.25 * t.range(1, 12) as f64).collect();
            Job::Eigen { n, k, d, steps: t.usize(3) }
        }
        6 => {
            let n = t.range(1, 7);
            let e = |t: &mut Tape| -> Vec<(usize, usize, f64)> { (0..t.range(1, 12)).map(|_| (t.usize(n), t.usize(n), t.lattice(6, 0.25))).collect() };
            Job::Algebra { n, a: e(t), b: e(t) }
        }
        7 => Job::Draw(scene(t)),
        _ => Job::Shared { op: t.usize(4) },
    };
    fit(&j)?;
    Ok(j)
}

/// A model of the same sizes that differs in some of what it is made of.
fn relative(t: &mut Tape, m: &Model) -> Model {
    use bugi::element::strain::Condition::*;
    let mut m = m.clone();
    let n = m.nodes.len();
    for _ in 0..t.range(1, 2) {
        match t.usize(8) {
            // supports: other directions, other nodes
            0 | 1 => {
                let by = 0.1 * t.range(1, 30) as f64;
                for s in m.sup.iter_mut() {
                    s.1 = match s.1 {
                        Constraint::AngleFixed(a) => Constraint::AngleFixed(a + by),
                        Constraint::XFixed => Constraint::YFixed,
                        Constraint::YFixed => Constraint::XFixed,
                        c => c,
                    };
                }
            }
            2 => {
                let by = t.range(1, n);
                for s in m.sup.iter_mut() {
                    s.0 = (s.0 + by) % n;
                }
            }
            // loads
            3 => {
                let by = [-1.0, 0.5, 3.0][t.usize(3)];
                for c in m.conc.iter_mut() {
                    c.1 = [by * c.1[1] + 0.25, c.1[0]];
                }
                for l in m.line.iter_mut() {
                    l.2 = [by * l.2[1], l.2[0] + 0.25];
                }
                if m.conc.is_empty() && m.line.is_empty() {
                    m.conc.push((t.usize(n), [by, 0.25]));
                }
            }
            4 => {
                let by = t.range(1, n);
                for c in m.conc.iter_mut() {
                    c.0 = (c.0 + by) % n;
                }
            }
            5 => {
                m.mat.youngs *= 2.0;
                m.mat.poisson = [0.3, 0.2, 0.0][t.usize(3)];
                m.mat.density = 2.0;
            }
            6 => {
                m.cond = match m.cond {
                    PlaneStress(h) => [PlaneStrain(h), PlaneStress(h * 3.0)][t.usize(2)],
                    PlaneStrain(h) => [PlaneStress(h), PlaneStrain(h * 3.0)][t.usize(2)],
                    Axisymmetric => Axisymmetric,
                };
            }
            _ => {
                let by = [2.0, 0.5, 1.25][t.usize(3)];
                for p in m.nodes.iter_mut() {
                    *p = [p[0] * by, p[1] * 2.0];
                }
            }
        }
    }
    m
}

/// Another study of the same kind and sizes.
fn sibling(t: &mut Tape, j: &Job) -> Option<Job> {
    let mut other = |c: &[(usize, usize, f64)]| -> Vec<(usize, usize, f64)> {
        let by = [2.0, 0.5, 1.5][t.usize(3)];
        c.iter().map(|&(i, j, v)| (i, j, v * by)).collect()
    };
    let j = match j {
        Job::Linear { m, extra, first } => Job::Linear { m: relative(t, m), extra: extra.clone(), first: *first },
        Job::Modal { m, n, again } => Job::Modal { m: relative(t, m), n: *n, again: *again },
        Job::Loose { m } => Job::Loose { m: relative(t, m) },
        Job::System { n, c, r, solver } => Job::System { n: *n, c: other(c), r: r.iter().map(|x| 3.0 - x).collect(), solver: *solver },
        Job::Eigen { n, k, d, steps } => Job::Eigen { n: *n, k: other(k), d: d.iter().rev().copied().collect(), steps: *steps },
        Job::Algebra { n, a, b } => Job::Algebra { n: *n, a: other(a), b: other(b) },
        Job::Draw(s) => {
            let mut s = s.clone();
            s.mesh = !s.mesh;
            s.map = t.usize(3);
            let by = [0.5, 2.0][t.usize(2)];
            for p in s.pts.iter_mut() {
                *p = [p[0] * by, p[1]];
            }
            for v in s.vals.iter_mut().flatten() {
                *v = 1.0 - *v;
            }
            // the size of the picture may be left open
            s.size = [None, s.size, Some(40)][t.usize(3)];
            Job::Draw(s)
        }
        Job::Shared { op } => Job::Shared { op: (op + 1) % 4 },
    };
    fit(&j).ok().map(|_| j)
}

fn kind(j: &Job) -> usize {
    match j {
        Job::Linear { .. } => 0,
        Job::Modal { .. } => 1,
        Job::Loose { .. } => 2,
        Job::System { .. } => 3,
        Job::Eigen { .. } => 4,
        Job::Algebra { .. } => 5,
        Job::Draw(_) => 6,
        Job::Shared { .. } => 7,
    }
}

fn run_c08(t: &mut Tape) -> Verdict {
    let sync = (&W::<Deformation<'static>>(std::marker::PhantomData)).is_sync();
    let base = if sync && t.chance(1, 3) {
        let m = fem::generate(t, Opts { bodies: 1, cells: 2, firm: true, axisym: false, isolated: false, ..Opts::default() });
        if stands(&m).is_none() {
            return discard("not well posed or ill conditioned");
        }
        Some(m)
    } else {
        None
    };
    let nt = t.range(1, 4);
    let mut jobs: Vec<Vec<Job>> = Vec::new();
    let mut kin = 0;
    for _ in 0..nt {
        let k = if nt == 1 { t.range(2, 4) } else { t.range(1, 2) };
        let mut v = Vec::new();
        for _ in 0..k {
            // now and then the very same study as another one, or one of the same sizes
            let x = t.usize(jobs.len() + 1);
            let old: Option<Job> = jobs.get(x).map_or(v.first(), |o| o.first()).cloned();
            match old {
                Some(o) if t.chance(1, 2) => {
                    let alike = if t.chance(1, 3) { None } else { sibling(t, &o) };
                    if alike.is_some() {
                        kin += 1;
                    }
                    v.push(alike.unwrap_or(o));
                }
                _ => v.push(job(t, base.is_some())?),
            }
        }
        jobs.push(v);
    }
    let key = t.word();
    let np = if nt > 1 { t.usize(48) } else { 0 };
    let mut plan: Vec<(u64, u64)> = (0..np)
        .map(|_| {
            let b = t.usize(16);
            (1 + t.draw(2 << b), t.usize(4) as u64)
        })
        .collect();
    // or many switches at about one distance, from some point on
    let mut lockstep = false;
    if nt > 1 && t.chance(1, 2) {
        lockstep = true;
        let b = t.usize(17);
        let skip = 1 + t.draw(2 << b);
        let count = [100, 400, 1500][t.usize(3)];
        let gap = 2u64 << t.usize(13);
        let w = t.word();
        plan.push((skip, w & 3));
        for i in 0..count {
            let h = simkit::splitmix(w ^ i);
            plan.push((1 + (h >> 8) % gap, h & 3));
        }
    }
    let np = plan.len();
    let atomics = if nt > 1 { fem::atomic_switches(t) } else { (0, 1) };
    let ns = t.usize(4);
    let stalls: Vec<(u64, u64, i64)> = (0..ns)
        .map(|_| {
            let at = t.usize(10) as u64;
            let stall = [0, 1_000, 2_000_000_000, 90_000_000_000_000, 9_000_000_000_000_000][t.usize(5)];
            let jump = [0, -1_000_000_000, -4_000_000_000_000_000, 3_000_000_000_000][t.usize(4)];
            (at, stall, jump)
        })
        .collect();
    shared::describe(|| {
        let mut s = format!("hash key {:#x}, {} preemptions planned, before atomics {:?}, clock (reading, stall ns, wall jump ns) {:?}\n", key, np, atomics, stalls);
        if let Some(m) = &base {
            s.push_str(&format!("shared deformation of\n{}\n", m.show()));
        }
        for (i, v) in jobs.iter().enumerate() {
            for (k, j) in v.iter().enumerate() {
                s.push_str(&format!("thread {} study {}: {:?}\n", i, k, j));
            }
        }
        s
    });
    for v in &jobs {
        for j in v {
            hit(kind(j));
        }
    }
    // the shared deformation comes from a study before everything else
    let mut model = base.as_ref().map(|m| m.build());
    let d = model.as_mut().map(|e| calls::displacements(e, 1));
    let d = Carry(d.as_ref());
    let d = &d;

    // every study alone, each in a fresh process
    let mut alone: Vec<Vec<((u64, u64), Result<Out, String>)>> = Vec::new();
    for v in &jobs {
        let mut a = Vec::new();
        let mut before = 0;
        for j in v {
            // with the hash keys it would see after the studies before it on its thread
            let b = simkit::fresh(|| {
                let d = d;
                let r = fem::on_thread(key, || {
                    for _ in 0..before {
                        std::hint::black_box(keys());
                    }
                    let at = keys();
                    let r = simkit::guard(|| work(j, "alone.png", (&d).0));
                    (at, r, keys())
                });
                let (at, r, end) = match r {
                    Ok(x) => x,
                    Err(e) => ((0, 0), Err(e), (0, 0)),
                };
                let mut b = Vec::new();
                for x in [at.0, at.1, used(at, end)] {
                    b.extend_from_slice(&x.to_le_bytes());
                }
                b.extend_from_slice(&pack(&[r]));
                b
            })?;
            let num = |i: usize| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
            let at = (num(0), num(1));
            before += (num(2) + 1).min(1 << 20);
            let r = unpack(&b[24..], 1).pop().unwrap();
            match &r {
                Ok(Ok(g)) => truth(j, g)?,
                Ok(Err(e)) if e.starts_with("!") => return bad(&e[1..e.find(':').unwrap()], e.clone()),
                Ok(Err(e)) | Err(e) => {
                    let gs = matches!(j, Job::System { solver: 2, .. });
                    if !matches!(j, Job::Loose { .. }) && !gs {
                        return bad("alone", format!("a study fails even alone: {:?}: {}", j, e));
                    }
                }
            }
            a.push((at, r));
        }
        alone.push(a);
    }
    // now together
    let at = seams::clock_calls();
    seams::set_stalls(stalls.iter().map(|s| (at + s.0, s.1, s.2)).collect());
    seams::set_hash_seed(key);
    sched::set_plan(plan);
    sched::set_atomic_switches(atomics.0, atomics.1);
    let got: Vec<Result<Vec<((u64, u64), Result<Out, String>)>, String>> = std::thread::scope(|s| {
        let mut h = Vec::new();
        for (i, v) in jobs.iter().enumerate() {
            let f = move || -> Vec<((u64, u64), Result<Out, String>)> {
                let d = d;
                let one = |k: usize, j: &Job| {
                    let at = keys();
                    let r = simkit::guard(|| work(j, &format!("t{}-{}.png", i, k), (&d).0));
                    std::hint::black_box(keys());
                    (at, r)
                };
                v.iter().enumerate().map(|(k, j)| one(k, j)).collect()
            };
            h.push(std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).unwrap());
        }
        h.into_iter().map(|h| h.join().map_err(|_| "thread died".to_string())).collect()
    });
    sched::set_plan(vec![]);
    sched::set_atomic_switches(0, 1);
    use std::sync::atomic::Ordering::Relaxed;
    for _ in 0..seams::STALLS_FIRED.load(Relaxed) {
        hit(9);
    }
    for _ in 0..seams::BACKJUMPS_FIRED.load(Relaxed) {
        hit(10);
    }
    if np > 0 {
        hit(8);
    }
    if lockstep {
        hit(14);
    }
    if kin > 0 {
        hit(15);
    }
    if nt == 1 {
        hit(11);
    }
    if jobs.iter().all(|v| v.len() == 1) && nt == 1 {
        trivial();
    }
    for (i, g) in got.iter().enumerate() {
        let g = match g {
            Ok(g) => g,
            Err(e) => return bad("thread", format!("thread {}: {}", i, e)),
        };
        for (k, (at, r)) in g.iter().enumerate() {
            let j = &jobs[i][k];
            let who = format!("study {} of thread {} ({})", k, i, PROBES[kind(j)]);
            if let Ok(Err(e)) = r {
                if e.starts_with("!") {
                    return bad(&e[1..e.find(':').unwrap()], format!("{}: {}", who, e));
                }
            }
            // a study that sees the hash keys it saw alone does the very same thing
            let exact = *at == alone[i][k].0 || matches!(j, Job::Draw(_) | Job::Shared { .. } | Job::Algebra { .. });
            if k > 0 {
                hit(if exact { 12 } else { 13 });
            }
            if !(matches!(j, Job::System { solver: 2, .. }) && !exact) {
                same(&who, &alone[i][k].1, r, exact)?;
            }
            if let Ok(Ok(g)) = r {
                truth(j, g)?;
            }
        }
    }
    Ok(())
}

const PROBES: &[&str] = &[
    "linear studies", "modal study", "study of a loose model", "system solution", "eigenvalue search", "sparse algebra", "drawing",
    "reads of a shared deformation", "fault: planned preemptions", "fault: clock stall", "fault: wall clock jumped back", "one thread, repetition only",
    "later studies with the keys they saw alone", "later studies with other keys", "fault: many preemptions in a row",
    "another study of the same sizes",
];

pub const C08: Property = Property {
    id: "C08",
    run: run_c08,
    probes: PROBES,
    quick: 30_000,
    thorough: 400_000,
    fuel: 1_500_000_000,
    rule: "a run draws one to four simulated threads with one to four studies each (linear studies repeated on a model that is then changed, modal, failing, systems, eigen searches, sparse algebra, drawing, reads of a shared deformation), hash keys, studies repeated or of the same sizes as others, a preemption plan at the granularity of basic blocks and atomic operations, and clock stalls and jumps; every study is first done alone in a fresh process, then all together; non-trivial: more than one study",
    real: &["element", "matrix", "visual", "image encoding", "std threads, locks and hash containers under the simulator"],
    stub: &["disk (in memory)", "clock", "crate spacemath, file, mesher and the command line are not part of this build"],
    assumptions: &[
        "a study that sees the hash keys it saw alone must return the same numbers to 1e-9; one that sees other keys (counted under probes) is held to the reference within C01/C04 tolerances",
        "models as in C01/C04",
    ],
};
