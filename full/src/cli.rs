//! C15: the command line reports success only when its results are right and stored.
use crate::c10::{hard, read_fault, write_fault};
use crate::c11;
use crate::doc::Doc;
use crate::fem::{self, Model, Opts};
use crate::la;
use crate::mesh;
use crate::region::{self, Region};
use crate::spectrum::{separated, slack};
use bugi::element::constraint::Constraint;
use bugi::element::material::{AL6061, TEST};
use bugi::element::strain::Condition;
use bugi::sim_calls as calls;
use bugi::visual::{color, VisOptions};
use simkit::process::{self, Done};
use simkit::vfs::{self, Fault, Kind, Op};
use simkit::{bad, discard, hit, libc, shared, Property, Tape, Verdict};

const RECOVERED: usize = 3;
const MESHED: usize = 4;
const LINEAR: usize = 5;
const MODAL: usize = 6;
const REFUSED_ARGS: usize = 7;
const REFUSED_INPUT: usize = 8;
const WITH_FAULT: usize = 9;
const LOUD: usize = 10;
const CRASH: usize = 11;
const PICTURE: usize = 12;
const OF_MESH: usize = 13;
const NUMBERS: usize = 14;

#[derive(Clone, Debug)]
struct Draw {
    size: u32,
    map: usize,
    mesh: bool,
    scale: f64,
}

#[derive(Clone, Debug)]
enum Ask {
    Mesh { h: f64, chew: bool, image: String, out: String, size: u32 },
    Linear { solver: usize, value: usize, out: String, draw: Draw },
    Modal { n: usize, draw: Draw },
}

const SOLVERS: [&str; 3] = ["densegauss", "cholesky", "gaussseidel"];

fn cmd(t: &mut Tape, v: &mut Vec<String>, short: &str, long: &str, value: &str) {
    match t.usize(if short.is_empty() { 2 } else { 3 }) {
        0 => v.extend([format!("--{}", long), value.to_string()]),
        1 => v.push(format!("--{}={}", long, value)),
        _ => v.extend([format!("-{}", short), value.to_string()]),
    }
}

fn size(t: &mut Tape, v: &mut Vec<String>) -> u32 {
    if t.chance(1, 40) {
        return 1024;
    }
    let n = [32, 48, 16, 65][t.usize(4)];
    cmd(t, v, "i", "imsize", &n.to_string());
    n
}

fn draw(t: &mut Tape, v: &mut Vec<String>) -> Draw {
    let size = size(t, v);
    let map = t.usize(3);
    if map > 0 {
        cmd(t, v, "c", "colormap", ["hot", "rgb"][map - 1]);
    }
    let mut mesh = true;
    if t.chance(1, 3) {
        mesh = t.chance(1, 2);
        cmd(t, v, "", "showmesh", &mesh.to_string());
    }
    let mut scale = 50.0;
    if t.chance(1, 2) {
        scale = [1.0, 0.0, 1000.0, 7.5, -20.0, 0.125][t.usize(6)];
        if scale < 0.0 {
            v.push(format!("--scale={}", scale));
        } else {
            cmd(t, v, "x", "scale", &scale.to_string());
        }
    }
    Draw { size, map, mesh, scale }
}

/// Flags in any order around the positional arguments.
fn shuffle(t: &mut Tape, sub: &str, positional: Vec<String>, flags: Vec<Vec<String>>) -> Vec<String> {
    let order = t.permutation(flags.len());
    let mut v = vec!["bugi".to_string(), sub.to_string()];
    let split = if t.chance(1, 2) { 0 } else { flags.len() };
    for (k, &i) in order.iter().enumerate() {
        if k == split {
            v.extend(positional.iter().cloned());
        }
        v.extend(flags[i].iter().cloned());
    }
    if split >= flags.len() {
        v.extend(positional);
    }
    v
}

fn flags(v: Vec<String>) -> Vec<Vec<String>> {
    // an option and its value stay together
    let mut out: Vec<Vec<String>> = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if v[i].contains('=') {
            out.push(vec![v[i].clone()]);
            i += 1;
        } else {
            out.push(vec![v[i].clone(), v[i + 1].clone()]);
            i += 2;
        }
    }
    out
}

fn linear(t: &mut Tape, input: &str) -> (Ask, Vec<String>) {
    let mut f = Vec::new();
    let d = draw(t, &mut f);
    let solver = t.usize(4);
    if solver > 0 {
        cmd(t, &mut f, "s", "solver", SOLVERS[solver - 1]);
    }
    let value = t.usize(3);
    if value > 0 {
        cmd(t, &mut f, "n", "nodevalue", ["displacement", "vonmises"][value - 1]);
    }
    let mut out = "out.png".to_string();
    if t.chance(1, 2) {
        out = ["result.png", "/sim/results/a b.png"][t.usize(2)].to_string();
        cmd(t, &mut f, "o", "out", &out);
    }
    let args = shuffle(t, "linear", vec![input.to_string()], flags(f));
    (Ask::Linear { solver: solver.max(1) - 1, value: value.max(1) - 1, out, draw: d }, args)
}

fn modal(t: &mut Tape, input: &str, most: usize) -> (Ask, Vec<String>) {
    let mut f = Vec::new();
    let d = draw(t, &mut f);
    let n = t.range(1, most.clamp(1, 4));
    let args = shuffle(t, "modal", vec![input.to_string(), n.to_string()], flags(f));
    (Ask::Modal { n, draw: d }, args)
}

fn meshing(t: &mut Tape, input: &str, h: f64, chew: bool) -> (Ask, Vec<String>) {
    let mut f = Vec::new();
    let size = size(t, &mut f);
    cmd(t, &mut f, "s", "elementsize", &h.to_string());
    if !chew {
        cmd(t, &mut f, "m", "mesher", "ruppert");
    } else if t.chance(1, 2) {
        cmd(t, &mut f, "m", "mesher", "chew");
    }
    let mut image = "out.png".to_string();
    if t.chance(1, 2) {
        image = "plate mesh.png".to_string();
        cmd(t, &mut f, "I", "imageout", &image);
    }
    let mut out = "out.bmsh".to_string();
    if t.chance(1, 2) {
        out = "/sim/meshes/plate.v2.bmsh".to_string();
        cmd(t, &mut f, "M", "meshout", &out);
    }
    let args = shuffle(t, "mesh", vec![input.to_string()], flags(f));
    (Ask::Mesh { h, chew, image, out, size }, args)
}

impl Ask {
    fn outputs(&self) -> Vec<String> {
        match self {
            Ask::Mesh { image, out, .. } => vec![image.clone(), out.clone()],
            Ask::Linear { out, .. } => vec![out.clone()],
            Ask::Modal { n, .. } => (0..*n).map(|i| format!("out_{:02}.png", i)).collect(),
        }
    }
}

fn model_of(d: &Doc) -> Model {
    Model {
        cond: match d.cond {
            ('s', t) => Condition::PlaneStress(t),
            ('e', t) => Condition::PlaneStrain(t),
            _ => Condition::Axisymmetric,
        },
        mat: if d.mat == "TEST" { TEST } else { AL6061 },
        nodes: d.nodes.clone(),
        els: d.els.clone(),
        sup: d.cons.iter().map(|(n, c)| (*n, *c)).collect(),
        conc: d.conc.iter().map(|(n, f)| (*n, *f)).collect(),
        line: d.line.iter().map(|(e, f)| (e.0, e.1, *f)).collect(),
        body: vec![0; d.nodes.len()],
        unit: 1.0,
    }
}

fn wrong(class: &str, msg: String) -> simkit::Stop {
    bad::<()>(class, msg).unwrap_err()
}

type Snapshot = Vec<(String, Vec<u8>)>;

fn snapshot() -> Snapshot {
    let mut v: Snapshot = vfs::list().into_iter().filter(|n| !n.is_empty()).map(|n| (n.clone(), vfs::get(&n).unwrap())).collect();
    v.sort();
    v
}

fn restore(s: &Snapshot) {
    vfs::clear();
    vfs::disarm();
    for (n, b) in s {
        vfs::put(n, b);
    }
}

fn held<'a>(s: &'a Snapshot, name: &str) -> Option<&'a Vec<u8>> {
    s.iter().find(|f| f.0 == name).map(|f| &f.1)
}

fn picture(png: &[u8], size: u32, who: &str) -> Result<Vec<u8>, simkit::Stop> {
    match image::load_from_memory_with_format(png, image::ImageFormat::Png) {
        Ok(i) => {
            let i = i.to_rgb8();
            if i.width() != size || i.height() != size {
                return bad("size", format!("{}: the picture has {} x {} pixels instead of {}", who, i.width(), i.height(), size));
            }
            Ok(i.into_raw())
        }
        Err(e) => bad("picture", format!("{}: success reported and the picture is not complete: {:?}", who, e)),
    }
}

/// Share of pixels of `a` with nothing like them nearby in `b`.
fn unlike(a: &[u8], b: &[u8], size: u32) -> f64 {
    let n = size as i64;
    let at = |v: &[u8], x: i64, y: i64| -> [i32; 3] {
        let i = 3 * (y * n + x) as usize;
        [v[i] as i32, v[i + 1] as i32, v[i + 2] as i32]
    };
    let mut miss = 0;
    for y in 0..n {
        for x in 0..n {
            let p = at(a, x, y);
            let near = (-1i64..=1).any(|dy| {
                (-1i64..=1).any(|dx| {
                    let (u, v) = (x + dx, y + dy);
                    u >= 0 && v >= 0 && u < n && v < n && {
                        let q = at(b, u, v);
                        (0..3).all(|k| (p[k] - q[k]).abs() <= 12)
                    }
                })
            });
            if !near {
                miss += 1;
            }
        }
    }
    miss as f64 / (n * n) as f64
}

struct Own {
    /// largest equivalent stress and displacement, or frequencies
    numbers: Vec<f64>,
    pictures: Vec<Vec<u8>>,
}

/// What the library makes of the model when asked directly, in a process of its own.
fn direct(m: &Model, ask: &Ask, key: u64, flip: bool) -> Result<Result<Own, String>, simkit::Stop> {
    let bytes = simkit::fresh(|| {
        let r = fem::on_thread(key, || {
            let mut e = m.build();
            let options = |d: &Draw| {
                let o = VisOptions::new().im_size(d.size).show_mesh(d.mesh);
                match d.map {
                    0 => o,
                    1 => o.color_map(Box::new(|x| color::hot_map(x))),
                    _ => o.color_map(Box::new(|x| color::rgb_map(x))),
                }
            };
            let mut numbers = Vec::new();
            let mut pictures = 0;
            match ask {
                Ask::Linear { solver, value, draw, .. } => {
                    let d = calls::displacements(&mut e, *solver as usize);
                    numbers.push(d.von_mises().iter().cloned().fold(0.0, f64::max));
                    numbers.push(d.displacement_norms().iter().cloned().fold(0.0, f64::max));
                    let mut v = d.visualize(draw.scale);
                    v.set_vals(if *value == 0 { d.displacement_norms() } else { d.von_mises() });
                    calls::draw(&mut v, "direct-0.png", options(draw));
                    pictures = 1;
                }
                Ask::Modal { n, draw } => {
                    for (i, d) in e.calc_modes(*n).iter().enumerate() {
                        numbers.push(d.frequency().unwrap());
                        let mut v = d.visualize(if flip { -draw.scale } else { draw.scale });
                        v.set_vals(d.displacement_norms());
                        calls::draw(&mut v, &format!("direct-{}.png", i), options(draw));
                        pictures += 1;
                    }
                }
                _ => {}
            }
            (numbers, pictures)
        });
        let mut out = Vec::new();
        match r {
            Err(e) => {
                out.push(1);
                out.extend_from_slice(e.as_bytes());
            }
            Ok((numbers, pictures)) => {
                out.push(0);
                out.push(numbers.len() as u8);
                for x in numbers {
                    out.extend_from_slice(&x.to_le_bytes());
                }
                for i in 0..pictures {
                    let p = vfs::get(&format!("direct-{}.png", i)).unwrap_or_default();
                    out.extend_from_slice(&(p.len() as u32).to_le_bytes());
                    out.extend_from_slice(&p);
                }
            }
        }
        out
    })?;
    if bytes[0] == 1 {
        return Ok(Err(String::from_utf8_lossy(&bytes[1..]).into_owned()));
    }
    let n = bytes[1] as usize;
    let mut at = 2;
    let mut own = Own { numbers: vec![], pictures: vec![] };
    for _ in 0..n {
        own.numbers.push(f64::from_le_bytes(bytes[at..at + 8].try_into().unwrap()));
        at += 8;
    }
    while at < bytes.len() {
        let n = u32::from_le_bytes(bytes[at..at + 4].try_into().unwrap()) as usize;
        own.pictures.push(bytes[at + 4..at + 4 + n].to_vec());
        at += 4 + n;
    }
    Ok(Ok(own))
}

fn line<'a>(out: &'a str, label: &str) -> Result<&'a str, simkit::Stop> {
    let v: Vec<&str> = out.lines().filter_map(|l| l.strip_prefix(label)).collect();
    match v.len() {
        1 => Ok(v[0].trim()),
        n => bad("report", format!("success reported and {:?} printed {} times: {:?}", label.trim(), n, out)),
    }
}

fn number(s: &str) -> Result<f64, simkit::Stop> {
    s.parse().map_err(|_| wrong("report", format!("success reported and the number printed is {:?}", s)))
}

/// What is known about the input of a command.
enum Truth {
    Model(Model),
    Region(Region),
    /// nothing a study could be made of
    Nothing,
}

/// A command that reported success did what it was asked for.
fn right(ask: &Ask, truth: &Truth, stdout: &[u8], disk: &Snapshot, key: u64) -> Verdict {
    let text = String::from_utf8_lossy(stdout).into_owned();
    let file = |name: &str| -> Result<&Vec<u8>, simkit::Stop> {
        held(disk, name).ok_or_else(|| wrong("missing", format!("success reported and there is no file {:?}", name)))
    };
    match (ask, truth) {
        (_, Truth::Nothing) => bad("invented", format!("success reported on an input that is no such thing, printing {:?}", text)),
        (Ask::Mesh { h, chew, image, out, size }, Truth::Region(r)) => {
            let p = picture(file(image)?, *size, "mesh")?;
            if p.chunks(3).all(|c| c == &p[..3]) {
                return bad("picture", "the picture of the mesh is blank");
            }
            let doc = match Doc::read(&String::from_utf8_lossy(file(out)?)) {
                Ok(d) => d,
                Err(e) => return bad("incomplete", format!("success reported and the mesh file is not complete: {}", e)),
            };
            let m = mesh_of(&doc);
            let slop = 2e-6;
            mesh::conditions(&m, r, &[], slop)?;
            for e in &m.els {
                let q = [m.nodes[e[0]], m.nodes[e[1]], m.nodes[e[2]]];
                let cr = mesh::circumradius(q);
                if cr > h * 1.001 {
                    return bad("coarse", format!("element at {:?} has circumradius {} above the size {} (Chew: {})", q, cr, h, chew));
                }
            }
            hit(MESHED);
            Ok(())
        }
        (Ask::Linear { solver, out, draw, .. }, Truth::Model(m)) => {
            let p = picture(file(out)?, draw.size, "linear study")?;
            let vm = number(line(&text, "max von mises: ")?)?;
            let disp = number(line(&text, "max displacement: ")?)?;
            hit(LINEAR);
            let small = m.nodes.len() <= 70;
            let solved = if small { m.reference_ok() } else { None };
            if small && solved.is_none() {
                return Ok(());
            }
            let own = match direct(m, ask, key, false)? {
                Ok(o) => o,
                Err(e) => return bad("direct", format!("the command succeeded; asked directly the study fails: {}", e)),
            };
            if *solver == 2 {
                // iterated until a tolerance is met, from which rounding and order of unknowns lead elsewhere
                if !((disp - own.numbers[1]).abs() <= 0.05 * own.numbers[1]) || !((vm - own.numbers[0]).abs() <= 0.2 * own.numbers[0]) {
                    return bad("numbers", format!("reported {:e} and {:e}, the study asked for directly yields {:?}", vm, disp, own.numbers));
                }
                return Ok(());
            }
            let mut floor = 0.0;
            let mut reliable = true;
            if let Some(s) = &solved {
                let f = m.load();
                floor = s.floor(&f);
                let u = s.displacements(&f);
                let want = (0..m.nodes.len()).map(|i| (u[2 * i].powi(2) + u[2 * i + 1].powi(2)).sqrt()).fold(0.0, f64::max);
                if !((disp - want).abs() <= 2e-6 * want.max(floor)) {
                    return bad("numbers", format!("reported largest displacement {:e}, equilibrium has {:e}", disp, want));
                }
                reliable = want > 1e3 * floor;
            }
            if !((disp - own.numbers[1]).abs() <= 2e-6 * own.numbers[1].max(floor)) {
                return bad("numbers", format!("reported largest displacement {:e}, the study asked for directly has {:e}", disp, own.numbers[1]));
            }
            let shortest = m.els.iter().flat_map(|e| (0..3).map(move |k| (e[k], e[(k + 1) % 3]))).map(|(a, b)| mesh::dist(m.nodes[a], m.nodes[b])).fold(f64::INFINITY, f64::min);
            let unit = m.mat.youngs * disp.max(floor) / shortest;
            if !((vm - own.numbers[0]).abs() <= 1e-6 * own.numbers[0] + 1e-7 * unit) {
                return bad("numbers", format!("reported largest equivalent stress {:e}, the study asked for directly has {:e}", vm, own.numbers[0]));
            }
            hit(NUMBERS);
            reliable &= own.numbers[0] > 1e-4 * unit;
            if reliable {
                let q = picture(&own.pictures[0], draw.size, "direct")?;
                let d = unlike(&p, &q, draw.size).max(unlike(&q, &p, draw.size));
                if d > 0.02 {
                    return bad("picture", format!("{:.1} % of the picture differ from the one of the same study asked for directly", 100.0 * d));
                }
                hit(PICTURE);
            }
            Ok(())
        }
        (Ask::Modal { n, draw }, Truth::Model(m)) => {
            let pics: Vec<Vec<u8>> = ask.outputs().iter().map(|f| file(f).and_then(|b| picture(b, draw.size, "modal study"))).collect::<Result<_, _>>()?;
            let lines: Vec<&str> = text.lines().filter(|l| !l.is_empty()).collect();
            if lines.len() != *n {
                return bad("report", format!("{} modes asked for and reported {:?}", n, text));
            }
            let mut got = Vec::new();
            for (i, l) in lines.iter().enumerate() {
                match l.strip_prefix(&format!("mode {:02} frequency (rad/s): ", i)) {
                    Some(x) => got.push(number(x.trim())?),
                    None => return bad("report", format!("mode {} reported as {:?}", i, l)),
                }
            }
            hit(MODAL);
            let vals = match spectrum(m) {
                Some(v) if *n <= v.len() => v,
                _ => return Ok(()),
            };
            for i in 0..*n {
                let w = vals[i].sqrt();
                let tol = slack(&vals, i) / (2.0 * w) * 1.01 + 6e-6;
                if !((got[i] - w).abs() <= tol) {
                    return bad("numbers", format!("mode {} reported with {} rad/s, it has {}", i, got[i], w));
                }
            }
            hit(NUMBERS);
            let mut own = Vec::new();
            for flip in [false, true] {
                match direct(m, ask, key, flip)? {
                    Ok(o) => own.push(o),
                    Err(e) => return bad("direct", format!("the command succeeded; asked directly the study fails: {}", e)),
                }
            }
            // a mode next to another one is only found up to some of its neighbour
            let clear = vals.windows(2).take(*n).all(|w| w[1] > 1.2 * w[0]) && vals[0] > 0.0;
            if clear {
                for i in 0..*n {
                    let mut best = 1f64;
                    for o in &own {
                        let q = picture(&o.pictures[i], draw.size, "direct")?;
                        best = best.min(unlike(&pics[i], &q, draw.size).max(unlike(&q, &pics[i], draw.size)));
                    }
                    if best > 0.03 {
                        return bad("picture", format!("{:.1} % of the picture of mode {} differ from the one of the same study asked for directly", 100.0 * best, i));
                    }
                }
                hit(PICTURE);
            }
            Ok(())
        }
        _ => bad("invented", format!("success reported on an input of another kind, printing {:?}", text)),
    }
}

fn spectrum(m: &Model) -> Option<Vec<f64>> {
    if m.nodes.len() > 60 {
        return None;
    }
    m.reference_ok()?;
    let z = m.basis();
    let (vals, _) = la::gen_eigen(&m.reduce(&m.k(), &z), &m.reduce(&m.m(), &z))?;
    if separated(&vals) {
        Some(vals)
    } else {
        None
    }
}

fn mesh_of(d: &Doc) -> mesh::Mesh {
    mesh::Mesh {
        state: Ok((d.mat.clone(), d.cond)),
        nodes: d.nodes.clone(),
        els: d.els.clone(),
        cons: (0..d.nodes.len()).map(|i| (i, d.cons.get(&i).cloned().unwrap_or(Constraint::Free))).collect(),
        line: d.line.iter().map(|(e, f)| (*e, *f)).collect(),
        conc: d.conc.len(),
    }
}

/// Would the command succeed on healthy ground?
fn must_succeed(ask: &Ask, truth: &Truth) -> bool {
    match (ask, truth) {
        (Ask::Mesh { .. }, Truth::Region(_)) => true,
        (Ask::Linear { solver, .. }, Truth::Model(m)) => *solver != 2 && m.nodes.len() <= 70 && m.reference_ok().is_some(),
        (Ask::Modal { n, .. }, Truth::Model(m)) => spectrum(m).map_or(false, |v| *n <= v.len()),
        _ => false,
    }
}

fn bad_args(t: &mut Tape) -> Vec<String> {
    let v: &[&str] = match t.usize(20) {
        0 => &["linear"],
        1 => &["mesh", "plate.bbnd"],
        2 => &["modal", "part.bmsh"],
        3 => &["linear", "part.bmsh", "-s", "qr"],
        4 => &["linear", "part.bmsh", "-c", "blue"],
        5 => &["linear", "part.bmsh", "-n", "strain"],
        6 => &["linear", "part.bmsh", "-i", "big"],
        7 => &["linear", "part.bmsh", "-x", "fifty"],
        8 => &["linear", "part.bmsh", "--showmesh", "maybe"],
        9 => &["mesh", "plate.bbnd", "-s", "small"],
        10 => &["mesh", "plate.bbnd", "-s", "1", "-m", "delaunay"],
        11 => &["modal", "part.bmsh", "one"],
        12 => &["modal", "part.bmsh", "-1"],
        13 => &["modal", "part.bmsh", "1", "-c", "blue"],
        14 => &["modal", "part.bmsh", "1", "-i", "1.5"],
        15 => &["linear", "part.bmsh", "--nosuch", "1"],
        16 => &["study", "part.bmsh"],
        17 => &["mesh", "plate.bbnd", "-s", "1", "-i", "-3"],
        18 => &["linear", "part.bmsh", "other.bmsh"],
        _ => &["modal", "part.bmsh", "1", "--showmesh", "2"],
    };
    std::iter::once("bugi").chain(v.iter().cloned()).map(String::from).collect()
}

fn fault(t: &mut Tape) -> Fault {
    match t.usize(5) {
        0 | 1 => write_fault(t, 900),
        2 => read_fault(t, 900),
        3 => {
            let nth = t.usize(3) as u64;
            let kind = match t.usize(4) {
                0 => Kind::Eintr,
                1 => Kind::Short(1 + t.usize(30)),
                2 => Kind::Fail([libc::EIO, libc::ENOSPC, libc::EPIPE][t.usize(3)]),
                _ => Kind::Crash(t.usize(40)),
            };
            Fault { op: Op::Stdout, nth, kind }
        }
        _ => {
            let (op, n) = [(Op::Write, 900), (Op::OpenWrite, 2), (Op::Close, 1), (Op::Read, 1)][t.usize(4)];
            Fault { op, nth: t.usize(4) as u64, kind: Kind::Crash(t.usize(n)) }
        }
    }
}

fn run(args: &[String], key: u64, faults: Vec<Fault>, capacity: Option<usize>) -> Result<Done, simkit::Stop> {
    process::command(args, key, faults, capacity, bugi_cli::sim_main)
}

fn run_c15(t: &mut Tape) -> Verdict {
    // a model file written by hand
    let bodies = 1 + t.usize(2);
    let mut m = fem::generate(t, Opts { cells: 2, bodies, ..Opts::default() });
    m.mat = if t.chance(1, 2) { AL6061 } else { TEST };
    let doc = Doc::of_model(&m);
    let part = doc.write(t);
    // a region that meshes into few elements
    let mut r = region::generate(t, region::Opts { attributes: true, ..Default::default() });
    if t.chance(2, 3) && !r.support.iter().any(|s| s.2 == Constraint::XYFixed) {
        r.support.clear();
        r.support.push(((0, 0), false, Constraint::XYFixed));
    }
    let (plate, fields) = r.write(t);
    let feature = r.shortest().min(r.gap());
    // a few meshes are large, and only looked at; the others are studied as well
    let most = if t.chance(1, 25) { 700.0 } else { 110.0 };
    let mut h = None;
    for _ in 0..6 {
        let x = feature * (60 + t.usize(41)) as f64 / if most > 110.0 { 200.0 } else { 100.0 };
        if h.is_none() && r.area() / (x * x) < most && r.admits(x) && r.sharpest() > 61.0 {
            h = Some(x);
        }
    }
    let coarse = r.size() * [10.0, 0.5, 0.3][t.usize(3)];
    let stale = t.chance(1, 3);
    let steps = t.range(1, 4);
    let mut plan = Vec::new();
    for i in 0..steps {
        let what = if i == 0 && steps > 1 && t.chance(1, 2) { 0 } else { t.usize(8) };
        plan.push((what, t.word(), t.word(), t.usize(12)));
    }
    vfs::clear();
    vfs::disarm();
    vfs::put("part.bmsh", part.as_bytes());
    vfs::put("plate.bbnd", plate.as_bytes());
    vfs::put("notes.txt", b"keep me");
    if stale {
        for f in ["out.png", "result.png", "out.bmsh", "out_00.png"] {
            vfs::put(f, &vec![b'7'; 70_000]);
        }
    }
    shared::describe(|| format!("{}\n{:?}", m.show(), r));
    if m.reference_ok().is_none() {
        return discard("not well posed or ill conditioned");
    }
    let mut meshes: Vec<String> = Vec::new();
    for (what, key, other, trouble) in plan {
        if what == 7 && trouble < 8 {
            let args = bad_args(t);
            let before = snapshot();
            shared::describe(|| args.join(" "));
            let d = run(&args, key, vec![], None)?;
            if d.status == 0 {
                return bad("arguments", format!("success reported for {:?}, printing {:?}", args, String::from_utf8_lossy(&d.stdout)));
            }
            hit(REFUSED_ARGS);
            for f in ["part.bmsh", "plate.bbnd", "notes.txt"] {
                if held(&snapshot(), f) != held(&before, f) {
                    return bad("touched", format!("{:?} changed {}", args, f));
                }
            }
            continue;
        }
        // what is asked, of which file
        let (input, truth) = match what {
            0 | 1 => ("plate.bbnd".to_string(), Truth::Region(r.clone())),
            2..=5 => ("part.bmsh".to_string(), Truth::Model(m.clone())),
            _ => match meshes.last() {
                None => ("part.bmsh".to_string(), Truth::Model(m.clone())),
                Some(f) => {
                    let b = vfs::get(f).unwrap_or_default();
                    match std::str::from_utf8(&b).ok().and_then(|s| Doc::read(s).ok()) {
                        Some(d) => (f.clone(), Truth::Model(model_of(&d))),
                        None => (f.clone(), Truth::Nothing),
                    }
                }
            },
        };
        let (ask, mut args) = match what {
            0 | 1 => {
                let chew = h.is_some() && t.chance(2, 3);
                if !chew && r.sharpest() < 61.0 {
                    continue;
                }
                meshing(t, &input, if chew { h.unwrap() } else { coarse }, chew)
            }
            2 | 3 => linear(t, &input),
            6 | 7 if t.chance(2, 3) => linear(t, &input),
            _ => match &truth {
                Truth::Model(x) if spectrum(x).is_some() => modal(t, &input, spectrum(x).unwrap().len()),
                _ => linear(t, &input),
            },
        };
        if what >= 6 && !meshes.is_empty() {
            hit(OF_MESH);
        }
        let before = snapshot();
        let outputs = ask.outputs();
        // trouble with the input
        let mut sound = true;
        let mut truth = truth;
        let mut given = input.clone();
        if trouble == 0 {
            let b = vfs::get(&input).unwrap_or_default();
            let (why, bytes) = match (&truth, t.usize(4)) {
                (_, 0) => ("not there".to_string(), None),
                (_, 1) => {
                    given = ["part.txt", "part", "part.bbnds", ".bmsh"][t.usize(4)].to_string();
                    ("not named like one".to_string(), Some(b))
                }
                (Truth::Region(_), k) => {
                    let (w, b) = if k == 2 { c11::cut_bound(t, &plate, &fields) } else { c11::spoil_bound(t, &r, &plate, &fields) };
                    (w, Some(b))
                }
                (Truth::Model(mm), _) => {
                    let d = Doc::of_model(mm);
                    let mut x = c11::damage_mesh(t, &b, &d);
                    if !x.refuse {
                        x = c11::Damage { what: "cut in half".into(), bytes: b[..b.len() / 2].to_vec(), refuse: true };
                    }
                    (x.what, Some(x.bytes))
                }
                (Truth::Nothing, _) => ("as it was".to_string(), Some(b)),
            };
            sound = false;
            truth = Truth::Nothing;
            shared::describe(|| format!("input {} is {}", given, why));
            let mut s = before.clone();
            s.retain(|f| f.0 != given && f.0 != input);
            if let Some(b) = bytes {
                s.push((given.clone(), b));
            }
            restore(&s);
            for a in args.iter_mut() {
                if *a == input {
                    *a = given.clone();
                }
            }
        }
        let start = snapshot();
        let others = |now: &Snapshot| -> Option<String> {
            for (n, b) in &start {
                if !outputs.contains(n) && held(now, n) != Some(b) {
                    return Some(format!("{} changed", n));
                }
            }
            now.iter().find(|f| held(&start, &f.0).is_none() && !outputs.contains(&f.0)).map(|f| format!("{} appeared", f.0))
        };
        shared::describe(|| format!("{} (hash keys {:x})", args.join(" "), key));
        let done = run(&args, key, vec![], None)?;
        let after = snapshot();
        if let Some(w) = others(&after) {
            return bad("touched", format!("{:?}: {}", args, w));
        }
        if done.status == 0 {
            right(&ask, &truth, &done.stdout, &after, other)?;
        } else if sound && must_succeed(&ask, &truth) {
            return bad("failed", format!("{:?} failed with status {} on a sound input and a healthy disk", args, done.status));
        } else if !sound {
            hit(REFUSED_INPUT);
        }
        let healthy = after;
        let mut end = healthy.clone();
        // the same again with faults
        if trouble > 5 {
            let faults: Vec<Fault> = (0..t.range(1, 3)).map(|_| fault(t)).collect();
            let used: usize = start.iter().map(|f| f.1.len()).sum();
            let capacity = if t.chance(1, 6) { Some(used + t.usize(4000)) } else { None };
            shared::describe(|| format!("again with faults {:?}, capacity {:?}", faults, capacity));
            restore(&start);
            let again = run(&args, key, faults, capacity)?;
            let now = snapshot();
            if let Some(w) = others(&now) {
                return bad("touched", format!("{:?} with faults {:?}: {}", args, again.log, w));
            }
            if !again.log.is_empty() {
                hit(WITH_FAULT);
            }
            if again.status == 0 {
                if done.status != 0 {
                    return bad("success", format!("{:?} fails on a healthy disk and succeeds with faults {:?}", args, again.log));
                }
                for f in &outputs {
                    if held(&now, f) != held(&healthy, f) {
                        let len = |s: &Snapshot| held(s, f).map(|b| b.len());
                        return bad("stored", format!("{:?} reports success with faults {:?} and left {} with {:?} bytes; on a healthy disk it has {:?} (or the same number, others)", args, again.log, f, len(&now), len(&healthy)));
                    }
                }
                if again.stdout != done.stdout {
                    return bad("report", format!("{:?} reports success with faults {:?} and printed {:?}, on a healthy disk {:?}", args, again.log, String::from_utf8_lossy(&again.stdout), String::from_utf8_lossy(&done.stdout)));
                }
            } else {
                if again.status == process::CRASHED {
                    hit(CRASH);
                } else {
                    hit(LOUD);
                }
                if done.status == 0 && !hard(&again.log) && again.status != process::CRASHED {
                    return bad("failed", format!("{:?} failed with status {} although nothing went wrong for good (faults {:?})", args, again.status, again.log));
                }
            }
            end = now;
            // and once more, the trouble over
            if t.chance(1, 3) {
                restore(&end);
                let last = run(&args, key, vec![], None)?;
                let now = snapshot();
                if last.status != done.status || last.stdout != done.stdout {
                    return bad("again", format!("{:?} after a run with faults {:?} ends with {} printing {:?}, where it ended with {} printing {:?} before", args, again.log, last.status, String::from_utf8_lossy(&last.stdout), done.status, String::from_utf8_lossy(&done.stdout)));
                }
                for f in &outputs {
                    if done.status == 0 && held(&now, f) != held(&healthy, f) {
                        return bad("again", format!("{:?} after a run with faults {:?} leaves another {}", args, again.log, f));
                    }
                }
                hit(RECOVERED);
                end = now;
            }
        }
        // the files go on as they are, the input as it was
        end.retain(|f| f.0 != given && f.0 != input);
        if let Some(b) = held(&before, &input) {
            end.push((input.clone(), b.clone()));
        }
        restore(&end);
        if let Ask::Mesh { out, .. } = &ask {
            if vfs::get(out).map_or(false, |b| b.len() < 20_000) {
                meshes.push(out.clone());
            }
        }
    }
    Ok(())
}

pub const C15: Property = Property {
    id: "C15",
    run: run_c15,
    probes: &[
        "supported mesh node checked",
        "loaded mesh edge checked",
        "region with two or more supported sides",
        "command repeated after faults, files whole again",
        "mesh command succeeded, mesh checked",
        "linear study succeeded",
        "modal study succeeded",
        "wrong arguments refused",
        "wrong input refused",
        "command with faults",
        "command failed loudly under faults",
        "command crashed at an injected point",
        "picture compared with the library's",
        "study of a file the mesh command wrote",
        "reported numbers compared",
    ],
    quick: 8_000,
    thorough: 100_000,
    fuel: 2_000_000_000,
    rule: "a run draws a model file, a boundary file and what is on the disk, then one to four command lines (mesh, linear, modal, on these files or on meshes made before) with drawn options, hash keys, damaged or missing inputs and faults of disk and standard output, crashes among them; each command is a process of its own; non-trivial: the model is well posed",
    real: &["main (the program)", "clap", "file", "mesher", "element", "matrix", "visual", "image encoding", "std file and output handling"],
    stub: &["disk and standard output (in memory, faults at the system call boundary)", "crate spacemath (absent from this environment; a stand-in written for these checks)", "process start and exit (a forked copy of the simulator calling main)"],
    assumptions: &[
        "equivalent stresses are compared with the library's own",
        "the iterative solver may give up, and agrees within its tolerance only",
        "close errors and power loss are not injected",
    ],
};
