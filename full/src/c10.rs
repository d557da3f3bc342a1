//! C10: a saved mesh file is complete and reloads as the same model, or saving fails.
use crate::doc::Doc;
use crate::fem::{self, Model, Opts};
use bugi::element::material::{AL6061, TEST};
use bugi::element::strain::Condition;
use bugi::sim_calls as calls;
use simkit::libc;
use simkit::vfs::{self, Fault, Kind, Op};
use simkit::{bad, hit, shared, Property, Tape, Verdict};

/// A model with coordinates, loads and thickness that need rounding to be printed.
pub fn model(t: &mut Tape) -> Model {
    // now and then too large for one write of a buffered writer
    let cells = if t.chance(1, 30) {
        let k = if t.chance(1, 10) { 16 } else { 10 };
        6 + t.usize(k)
    } else {
        3
    };
    let mut m = fem::generate(t, Opts { cells, ..Opts::default() });
    m.mat = if t.chance(1, 2) { AL6061 } else { TEST };
    if t.chance(1, 4) {
        // loads along both directions of an edge are different entries
        let e = m.edges();
        let (a, b) = e[t.usize(e.len())];
        m.line.retain(|l| (l.0, l.1) != (a, b) && (l.0, l.1) != (b, a));
        m.line.push((a, b, [1.5, -2.0]));
        m.line.push((b, a, [0.25, 7.0]));
    }
    if t.chance(1, 8) {
        m.sup.clear();
    }
    if t.chance(1, 2) {
        let big = [1.0, 1e6, 2e8, 1e-2][t.usize(4)];
        for f in m.conc.iter_mut().map(|c| &mut c.1).chain(m.line.iter_mut().map(|l| &mut l.2)) {
            for x in f.iter_mut() {
                *x = (*x + t.lattice(500, 1.0 / 3.0)) * big;
            }
        }
    }
    if t.chance(1, 2) {
        for p in m.nodes.iter_mut() {
            for x in p.iter_mut() {
                *x += t.lattice(100, 1e-6 / 7.0);
            }
        }
    }
    let far = [0.0, 0.0, 1e4, -300.0][t.usize(4)];
    if far != 0.0 && !matches!(m.cond, Condition::Axisymmetric) {
        for p in m.nodes.iter_mut() {
            p[0] += far;
            p[1] -= far;
        }
    }
    if t.chance(1, 3) {
        let th = t.range(1, 900_000) as f64 * 1e-5 / 3.0 + 1e-2;
        m.cond = match m.cond {
            Condition::PlaneStress(_) => Condition::PlaneStress(th),
            Condition::PlaneStrain(_) => Condition::PlaneStrain(th),
            c => c,
        };
    }
    m
}

#[derive(Clone, Debug)]
enum Held {
    Missing,
    /// content that is no mesh file
    Foreign,
    Model(usize),
    /// saves that failed since it last held something certain; the models it may hold
    Torn(Vec<usize>),
}

pub fn write_fault(t: &mut Tape, len: usize) -> Fault {
    let errs = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG];
    let at = |t: &mut Tape| if t.chance(1, 4) { len.saturating_sub(t.usize(40)) } else { t.usize(len.max(1)) };
    let nth = t.usize(4) as u64;
    match t.usize(6) {
        0 => Fault { op: Op::Write, nth, kind: Kind::Eintr },
        1 => Fault { op: Op::Write, nth, kind: Kind::Short(1 + at(t)) },
        2 => Fault { op: Op::Write, nth, kind: Kind::Fail(errs[t.usize(4)]) },
        3 => Fault { op: Op::Write, nth: t.usize(2) as u64, kind: Kind::Torn(at(t), errs[t.usize(4)]) },
        4 => Fault { op: Op::OpenWrite, nth: t.usize(2) as u64, kind: Kind::Eintr },
        _ => Fault { op: Op::OpenWrite, nth: 0, kind: Kind::Fail([libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ENOSPC][t.usize(4)]) },
    }
}

pub fn read_fault(t: &mut Tape, len: usize) -> Fault {
    let nth = t.usize(4) as u64;
    match t.usize(6) {
        0 => Fault { op: Op::Read, nth, kind: Kind::Eintr },
        1 | 2 => Fault { op: Op::Read, nth, kind: Kind::Short(1 + t.usize(len.max(1))) },
        3 => Fault { op: Op::Read, nth, kind: Kind::Fail(libc::EIO) },
        4 => Fault { op: Op::OpenRead, nth: t.usize(2) as u64, kind: Kind::Eintr },
        _ => Fault { op: Op::OpenRead, nth: 0, kind: Kind::Fail([libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EIO][t.usize(4)]) },
    }
}

pub fn hard(log: &[String]) -> bool {
    log.iter().any(|l| l.contains("Fail") || l.contains("Torn") || l.contains("disk full"))
}

/// Loads a file on a fresh thread: `Err(Err(message))` for a refusal, `Err(Ok(message))` for a panic.
pub fn load(key: u64, path: &str) -> Result<Doc, Result<String, String>> {
    let r = fem::on_thread(key, || match calls::read_to_elas(path) {
        Ok(e) => Doc::of_elas(&e).map_err(|m| Ok(format!("holds {}", m))),
        Err(e) => Err(Err(e.to_string())),
    });
    match r {
        Ok(x) => x,
        Err(m) => Err(Ok(format!("panicked: {}", m))),
    }
}

const OTHER: &[u8] = b"someone else's file";

fn run_c10(t: &mut Tape) -> Verdict {
    let at_once = t.chance(1, 3);
    let count = if at_once { 2 } else { t.range(1, 2) };
    let models: Vec<Model> = (0..count).map(|_| model(t)).collect();
    let docs: Vec<Doc> = models.iter().map(Doc::of_model).collect();
    let names = ["part.bmsh", "/sim/deep/copy.two.bmsh"];
    vfs::clear();
    vfs::disarm();
    vfs::put("notes.bmsh", OTHER);
    let mut held = [Held::Missing, Held::Missing];
    match t.usize(5) {
        0 => {}
        1 => vfs::put(names[0], b""),
        2 => vfs::put(names[0], &vec![b'7'; 60_000]),
        3 => vfs::put(names[0], b"$Header\nversion 1\n"),
        _ => vfs::put(names[0], &vec![0xff; t.range(1, 9000)]),
    }
    if vfs::get(names[0]).is_some() {
        held[0] = Held::Foreign;
    }
    shared::describe(|| models.iter().map(|m| m.show()).collect::<Vec<_>>().join("\n--\n"));
    let mut story: Vec<String> = Vec::new();
    let mut failed = false;
    let steps = t.range(1, 6);
    for step in 0..=steps {
        let w = t.usize(2);
        let name = names[w];
        let len = vfs::get(name).map_or(1000, |b| b.len());
        let key = t.word();
        // the last step always reads back
        let save = step == 0 || (step < steps && t.chance(1, 2));
        if save {
            let i = t.usize(models.len());
            let nf = t.usize(4);
            let faults: Vec<Fault> = (0..nf).map(|_| write_fault(t, len)).collect();
            let used: usize = vfs::list().iter().filter_map(|p| vfs::get(p)).map(|b| b.len()).sum();
            let own = vfs::get(name).map_or(0, |b| b.len());
            let capacity = if t.chance(1, 5) { Some(used - own + t.usize(len + 2)) } else { None };
            story.push(format!("save model {} as {} (hash keys {:x}, faults {:?}, capacity {:?})", i, name, key, faults, capacity));
            shared::describe(|| story.last().unwrap().clone());
            vfs::arm(faults, capacity);
            let r = fem::on_thread(key, || calls::save_elas(name, models[i].build()));
            let log = vfs::log();
            vfs::disarm();
            if log.is_empty() {
                hit(0);
            } else {
                hit(1);
            }
            match r {
                Ok(()) => {
                    held[w] = Held::Model(i);
                    let bytes = match vfs::get(name) {
                        Some(b) => b,
                        None => return bad("missing", format!("saving returned normally and there is no file (faults {:?})", log)),
                    };
                    let text = match String::from_utf8(bytes) {
                        Ok(s) => s,
                        Err(_) => return bad("incomplete", "saving returned normally; the file is not text"),
                    };
                    match Doc::read(&text) {
                        Err(e) => return bad("incomplete", format!("saving returned normally; its file of {} bytes is no complete mesh file: {} (faults {:?})", text.len(), e, log)),
                        Ok(d) => {
                            if let Some(x) = docs[i].differs(&d, false) {
                                return bad("content", format!("the saved file describes another model: {}", x));
                            }
                        }
                    }
                }
                Err(e) => {
                    hit(2);
                    failed = true;
                    if !hard(&log) {
                        return bad("failed", format!("saving failed although nothing went wrong for good (faults {:?}): {}", log, e));
                    }
                    let mut may = match &held[w] {
                        Held::Model(o) => vec![*o],
                        Held::Torn(v) => v.clone(),
                        _ => vec![],
                    };
                    may.push(i);
                    if vfs::get(name).is_some() {
                        held[w] = Held::Torn(may);
                    }
                }
            }
        } else {
            let nf = if step == steps { 0 } else { t.usize(4) };
            let faults: Vec<Fault> = (0..nf).map(|_| read_fault(t, len)).collect();
            story.push(format!("load {} (hash keys {:x}, faults {:?})", name, key, faults));
            shared::describe(|| story.last().unwrap().clone());
            let before = vfs::get(name);
            vfs::arm(faults, None);
            let r = load(key, name);
            let log = vfs::log();
            vfs::disarm();
            if vfs::get(name) != before {
                return bad("touched", format!("loading {} changed it", name));
            }
            if !log.is_empty() {
                hit(3);
            }
            match r {
                Err(Ok(p)) => return bad("panic", format!("loading {} {}", name, p)),
                Err(Err(e)) => {
                    if let (Held::Model(i), false) = (&held[w], hard(&log)) {
                        return bad("refused", format!("the file saved from model {} is refused: {} (faults {:?})", i, e, log));
                    }
                    if matches!(held[w], Held::Torn(..)) {
                        hit(5);
                    }
                }
                Ok(d) => {
                    let ok: Vec<usize> = match &held[w] {
                        Held::Missing => return bad("invented", "a model was loaded from a file that does not exist"),
                        Held::Foreign => return bad("invented", "a model was loaded from a file that is no mesh file"),
                        Held::Model(i) => vec![*i],
                        Held::Torn(v) => v.clone(),
                    };
                    hit(4);
                    let why: Vec<String> = ok.iter().filter_map(|&i| docs[i].differs(&d, false)).collect();
                    if why.len() == ok.len() {
                        return bad("differs", format!("{} loads as another model ({:?}): {} (faults {:?})", name, held[w], why.join("; or "), log));
                    }
                }
            }
        }
        if vfs::get("notes.bmsh").as_deref() != Some(OTHER) {
            return bad("other", "another file changed");
        }
        if vfs::open_handles() > 0 {
            return bad("handles", format!("{} files left open", vfs::open_handles()));
        }
        let extra: Vec<String> = vfs::list().into_iter().filter(|p| !p.is_empty() && p != "notes.bmsh" && !names.contains(&p.as_str())).collect();
        if !extra.is_empty() && !failed {
            return bad("litter", format!("files left behind: {:?}", extra));
        }
    }
    if at_once {
        let near = t.chance(1, 2);
        both(t, &models, &docs, if near { ["part.bmsh", "copy.bmsh"] } else { names })?;
    }
    Ok(())
}

/// Two threads saving or loading different files at once.
fn both(t: &mut Tape, models: &[Model], docs: &[Doc], names: [&str; 2]) -> Verdict {
    let key = t.word();
    let i = t.usize(models.len());
    let j = if t.chance(5, 6) { 1 - i } else { i };
    let held = [i, j];
    vfs::clear();
    for w in 0..2 {
        if let Err(e) = fem::on_thread(key, || calls::save_elas(names[w], models[held[w]].build())) {
            return bad("failed", format!("saving on a healthy disk failed: {}", e));
        }
    }
    // what each thread does: save this model, or load (0 both load)
    let w = [0, 3, 1, 2][t.usize(4)];
    let what: Vec<Option<usize>> = (0..2).map(|k| if w >> k & 1 == 1 { Some(if t.chance(1, 2) { held[1 - k] } else { held[k] }) } else { None }).collect();
    let n = t.usize(4);
    let faults: Vec<Fault> = (0..n)
        .map(|_| {
            let nth = t.usize(4) as u64;
            let op = if t.chance(1, 2) { Op::Write } else { Op::Read };
            Fault { op, nth, kind: if t.chance(1, 2) { Kind::Eintr } else { Kind::Short(1 + t.usize(2000)) } }
        })
        .collect();
    let plan = fem::preemptions(t);
    let calls = fem::call_switches(t);
    let atomics = fem::atomic_switches(t);
    shared::describe(|| format!("two threads at once (hash keys {:x}, faults {:?}, {} preemptions planned, after calls {:?}, before atomics {:?}): {:?} on {:?}, files of models {:?}", key, faults, plan.len(), calls, atomics, what, names, held));
    hit(6);
    let mut built = Vec::new();
    for m in &what {
        built.push(match m {
            Some(m) => match fem::on_thread(key, || models[*m].build()) {
                Ok(e) => Some(e),
                Err(e) => return bad("failed", format!("building a model failed: {}", e)),
            },
            None => None,
        });
    }
    let second = built.pop().unwrap();
    let first = built.pop().unwrap();
    vfs::arm(faults, None);
    let work = |w: usize, built: Option<bugi::element::ElementAssemblage>| -> Option<Result<Doc, Result<String, String>>> {
        match built {
            Some(e) => {
                calls::save_elas(names[w], e);
                None
            }
            None => Some(match calls::read_to_elas(names[w]) {
                Ok(e) => Doc::of_elas(&e).map_err(|m| Ok(format!("holds {}", m))),
                Err(e) => Err(Err(e.to_string())),
            }),
        }
    };
    let (a, b) = fem::beside(key, plan, calls, atomics, || work(0, first), || work(1, second));
    let log = vfs::log();
    vfs::disarm();
    for (w, r) in [a, b].into_iter().enumerate() {
        match r {
            Err(e) => return bad("failed", format!("{} beside another thread failed although nothing went wrong for good (faults {:?}): {}", names[w], log, e)),
            Ok(Some(Err(Ok(e)))) | Ok(Some(Err(Err(e)))) => return bad("refused", format!("{} loaded beside another thread is refused (faults {:?}): {}", names[w], log, e)),
            Ok(Some(Ok(d))) => {
                if let Some(x) = docs[held[w]].differs(&d, false) {
                    return bad("differs", format!("{} loaded beside another thread is another model: {}", names[w], x));
                }
            }
            Ok(None) => {}
        }
        let want = &docs[what[w].unwrap_or(held[w])];
        let text = vfs::get(names[w]).and_then(|b| String::from_utf8(b).ok());
        match text.as_deref().map(Doc::read) {
            Some(Ok(d)) => {
                if let Some(x) = want.differs(&d, false) {
                    return bad("content", format!("{} describes another model after two threads worked at once: {}", names[w], x));
                }
            }
            Some(Err(e)) => return bad("incomplete", format!("{} is no complete mesh file after two threads worked at once: {}", names[w], e)),
            None => return bad("missing", format!("{} is missing or no text after two threads worked at once", names[w])),
        }
    }
    if vfs::open_handles() > 0 {
        return bad("handles", format!("{} files left open", vfs::open_handles()));
    }
    let extra: Vec<String> = vfs::list().into_iter().filter(|p| !p.is_empty() && !names.contains(&p.as_str())).collect();
    if !extra.is_empty() {
        return bad("litter", format!("files left behind: {:?}", extra));
    }
    Ok(())
}

pub const C10: Property = Property {
    id: "C10",
    run: run_c10,
    probes: &["save without fault", "save with a fault", "save failed loudly", "load with a fault", "model loaded", "torn file refused", "two threads at once"],
    quick: 100_000,
    thorough: 600_000,
    fuel: 200_000_000,
    rule: "a run draws one or two models, what a file held before and up to seven saves and loads of two files, each under its own hash keys and plan of interrupted, short, failing and torn transfers, failing opens and a disk capacity, then perhaps two threads saving or loading at once under a preemption plan; every run is non-trivial: it saves and reads back",
    real: &["file (serialiser, parser)", "element", "spatial", "nom", "std file handling"],
    stub: &["disk (in memory, faults at the system call boundary)", "crate spacemath (absent from this environment; a stand-in written for these checks)"],
    assumptions: &[
        "materials are the two the file format can name; coordinates, loads and thickness are compared to the printed number of decimals",
        "what counts is what a reader of the file sees when saving has returned; loss of unsynchronised data in a power cut is not claimed",
    ],
};
