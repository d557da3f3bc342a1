//! C09: a drawn image is complete and correct on disk, or the draw fails loudly.
use crate::c08::{scene, visualizer, Scene};
use crate::fem;
use bugi::visual::Visualizer;
use simkit::libc;
use simkit::vfs::{self, Fault, Kind, Op};
use simkit::{bad, hit, seams, shared, trivial, Property, Tape, Verdict};

/// File names; the first `EXACT` name formats that store every pixel as it is.
const NAMES: [&str; 14] = [
    "picture.png",
    "picture.bmp",
    "/sim/deep/two.pictures.PNG",
    "picture.tga",
    "picture.tif",
    "picture.ppm",
    "picture.pam",
    "picture.tiff",
    // not exact
    "picture.gif",
    "picture.jpg",
    "picture.ico",
    // no format
    "picture.txt",
    "picture",
    "/sim/deep.png/picture",
];
const EXACT: usize = 8;
const KNOWN: usize = 11;
const OTHER: &[u8] = b"someone else's file";

type Pixels = (u32, u32, Vec<u8>);

fn decode(b: &[u8], name: usize) -> Result<Pixels, String> {
    use image::ImageFormat::*;
    let f = [Png, Bmp, Png, Tga, Tiff, Pnm, Pnm, Tiff, Gif, Jpeg, Ico][name];
    // (a tga has no mark at its start)
    if name != 3 && !matches!(image::guess_format(b), Ok(x) if x == f) {
        return Err(format!("it does not start like a {:?}", f));
    }
    if name == 5 && !b.starts_with(b"P6") {
        return Err("it is no pixmap".into());
    }
    match image::load_from_memory_with_format(b, f) {
        Ok(i) => {
            let i = i.to_rgb8();
            Ok((i.width(), i.height(), i.into_raw()))
        }
        Err(e) => Err(format!("{:?}", e)),
    }
}

/// The file a draw leaves on a healthy, empty disk of a fresh process, and its number of writes.
fn clean(s: &Scene, key: u64, name: usize) -> Result<(u64, Vec<u8>), simkit::Stop> {
    let mut b = simkit::fresh(|| {
        vfs::disarm();
        let r = fem::on_thread(key, || {
            let (mut v, o) = visualizer(s);
            bugi::sim_calls::draw(&mut v, NAMES[name], o);
        });
        if let Err(e) = r {
            shared::die("alone", &format!("drawing {} on a healthy disk panicked: {}", NAMES[name], e));
        }
        let mut b = vfs::count(Op::Write).to_le_bytes().to_vec();
        b.extend(vfs::get(NAMES[name]).unwrap_or_default());
        b
    })?;
    let rest = b.split_off(8);
    Ok((u64::from_le_bytes(b[..8].try_into().unwrap()), rest))
}

fn fault(t: &mut Tape, writes: u64) -> Fault {
    let errs = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG];
    let nth = if t.chance(1, 3) { writes.saturating_sub(1 + t.usize(2) as u64) } else { t.usize(writes as usize + 1) as u64 };
    match t.usize(6) {
        0 => Fault { op: Op::Write, nth, kind: Kind::Eintr },
        1 => Fault { op: Op::Write, nth, kind: Kind::Short(1 + t.usize(300)) },
        2 => Fault { op: Op::Write, nth, kind: Kind::Fail(errs[t.usize(4)]) },
        3 => Fault { op: Op::Write, nth, kind: Kind::Torn(t.usize(400), errs[t.usize(4)]) },
        4 => Fault { op: Op::OpenWrite, nth: t.usize(2) as u64, kind: Kind::Eintr },
        _ => Fault { op: Op::OpenWrite, nth: t.usize(2) as u64, kind: Kind::Fail([libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ENOSPC][t.usize(4)]) },
    }
}

type Rgb = [f64; 3];

fn paint(map: usize, v: f64) -> Rgb {
    let c = |x: f64| (x * 255.0).clamp(0.0, 255.0);
    let peak = |top: f64| c(1.5 - 4.0 * (v - top).abs());
    if map == 2 {
        [peak(0.75), peak(0.5), peak(0.25)]
    } else {
        let v = v.clamp(0.0, 1.0);
        [c(3.0 * v), c(3.0 * v - 1.0), c(3.0 * v - 2.0)]
    }
}

/// Whether everything the scene holds is to be seen, as far as this can be said without repeating
/// the scan conversion: a mark on each node, along each edge and inside each element.
fn shows(s: &Scene, p: &Pixels) -> Result<(), String> {
    let n = p.0 as i64;
    let at = |x: i64, y: i64| -> [u8; 3] {
        let i = 3 * (y.clamp(0, n - 1) * n + x.clamp(0, n - 1)) as usize;
        [p.2[i], p.2[i + 1], p.2[i + 2]]
    };
    const BACK: [u8; 3] = [50, 50, 50];
    const GREEN: [u8; 3] = [0, 255, 0];
    const RED: [u8; 3] = [255, 0, 0];
    const BLUE: [u8; 3] = [0, 0, 255];
    let pts: Vec<[f64; 2]> = s.pts.iter().chain(&s.more).copied().collect();
    let ext = |k: usize| {
        let lo = pts.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min);
        let hi = pts.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max);
        (lo, hi)
    };
    let (x, y) = (ext(0), ext(1));
    let scale = 0.8 * n as f64 / (x.1 - x.0).max(y.1 - y.0);
    let pix: Vec<[f64; 2]> = pts
        .iter()
        .map(|q| [(q[0] - (x.0 + x.1) / 2.0) * scale + n as f64 / 2.0, n as f64 / 2.0 - (q[1] - (y.0 + y.1) / 2.0) * scale])
        .collect();
    // the margin, unless the picture is so small that marks reach into it
    if n >= 32 {
        for i in 0..n {
            for (a, b) in [(i, 0), (i, n - 1), (0, i), (n - 1, i)] {
                if at(a, b) != BACK {
                    return Err(format!("the margin is painted at {} {}", a, b));
                }
            }
        }
    }
    let near = |q: [f64; 2], r: i64, c: &[[u8; 3]]| {
        let (a, b) = (q[0].round() as i64, q[1].round() as i64);
        (a - r..=a + r).any(|i| (b - r..=b + r).any(|j| c.contains(&at(i, j))))
    };
    let painted = s.vals.is_some() && !s.tris.is_empty();
    if !s.mesh && !painted {
        return if p.2.chunks(3).all(|c| c == BACK) { Ok(()) } else { Err("something is painted though nothing was to be shown".into()) };
    }
    if s.mesh {
        for (i, q) in pix.iter().enumerate() {
            let c = if i < s.pts.len() { RED } else { BLUE };
            let hidden = pix[i + 1..].iter().any(|r| (r[0] - q[0]).abs() < 5.0 && (r[1] - q[1]).abs() < 5.0);
            if !hidden && !near(*q, 1, &[c]) {
                return Err(format!("node {} is not to be seen", i));
            }
        }
        for &(a, b) in &s.edges {
            let len = (pix[a][0] - pix[b][0]).abs().max((pix[a][1] - pix[b][1]).abs());
            let k = (len as usize).max(1);
            for i in 0..=k {
                let f = i as f64 / k as f64;
                let q = [pix[a][0] + f * (pix[b][0] - pix[a][0]), pix[a][1] + f * (pix[b][1] - pix[a][1])];
                if !near(q, 2, &[GREEN, RED, BLUE]) {
                    return Err(format!("the edge from node {} to node {} is not to be seen at {:?}", a, b, q));
                }
            }
        }
    }
    if let Some(v) = s.vals.as_ref().filter(|_| painted) {
        let lo = v.iter().copied().fold(f64::INFINITY, f64::min);
        let hi = v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
        let v: Vec<f64> = v.iter().map(|x| (x - lo) / (hi - lo)).collect();
        let bary = |t: &(usize, usize, usize), q: [f64; 2]| {
            let (a, b, c) = (pix[t.0], pix[t.1], pix[t.2]);
            let cr = |o: [f64; 2], p: [f64; 2], q: [f64; 2]| (p[0] - o[0]) * (q[1] - o[1]) - (p[1] - o[1]) * (q[0] - o[0]);
            let w = cr(a, b, c);
            let long = [(a, b), (b, c), (c, a)].iter().map(|(p, q)| (p[0] - q[0]).hypot(p[1] - q[1])).fold(0.0, f64::max);
            ([cr(q, b, c) / w, cr(q, c, a) / w, cr(q, a, b) / w], w.abs() / long)
        };
        for t in &s.tris {
            for w in [[1.0, 1.0, 1.0], [2.0, 1.0, 1.0], [1.0, 2.0, 1.0], [1.0, 1.0, 2.0]] {
                let sum: f64 = w.iter().sum();
                let mut q = [0.0; 2];
                for (i, node) in [t.0, t.1, t.2].iter().enumerate() {
                    for k in 0..2 {
                        q[k] += pix[*node][k] * w[i] / sum;
                    }
                }
                let q = [q[0].round(), q[1].round()];
                if bary(t, q).1 < 10.0 {
                    continue; // too narrow to say
                }
                let got = at(q[0] as i64, q[1] as i64);
                if s.mesh && [GREEN, RED, BLUE].contains(&got) {
                    continue;
                }
                // any element there may be on top
                let fits = s.tris.iter().any(|u| {
                    let (b, height) = bary(u, q);
                    let slack = 2.5 / height;
                    if b.iter().any(|x| *x < -slack) {
                        return false;
                    }
                    let mid = b[0] * v[u.0] + b[1] * v[u.1] + b[2] * v[u.2];
                    let d = 2.0 * slack;
                    (0..=40).any(|i| {
                        let c = paint(s.map, mid - d + i as f64 * d / 20.0);
                        (0..3).all(|k| (c[k] - got[k] as f64).abs() <= 4.0 + 255.0 * 4.0 * d / 20.0)
                    })
                });
                if !fits {
                    return Err(format!("the element of nodes {:?} is painted {:?} at {:?}", t, got, q));
                }
            }
        }
    }
    Ok(())
}

/// The picture of a scene, drawn on a healthy disk and looked at.
struct Want {
    writes: u64,
    file: Vec<u8>,
    pixels: Option<Pixels>,
}

fn want(s: &Scene, key: u64, name: usize) -> Result<Want, simkit::Stop> {
    let (writes, file) = clean(s, key, name)?;
    let mut pixels = None;
    if name < EXACT {
        let p = match decode(&file, name) {
            Ok(p) => p,
            Err(e) => return bad("broken", format!("{} drawn on a healthy disk cannot be decoded: {} ({:?})", NAMES[name], e, s)),
        };
        let n = s.size.unwrap_or(256);
        if (p.0, p.1) != (n, n) {
            return bad("size", format!("asked for {0} x {0} pixels, the file has {1} x {2} ({3:?})", n, p.0, p.1, s));
        }
        if let Err(e) = shows(s, &p) {
            return bad("shows", format!("{} ({:?})", e, s));
        }
        pixels = Some(p);
    } else if file.is_empty() {
        return bad("missing", format!("drawing {} returned normally and there is no file", NAMES[name]));
    }
    Ok(Want { writes, file, pixels })
}

/// Compares what a draw that returned normally left with what it should be.
fn compare(name: usize, want: &Want, log: &[String]) -> Verdict {
    let f = match vfs::get(NAMES[name]) {
        Some(f) => f,
        None => return bad("missing", format!("drawing {} returned normally and there is no file (faults {:?})", NAMES[name], log)),
    };
    match &want.pixels {
        Some(pix) => {
            let p = match decode(&f, name) {
                Ok(p) => p,
                Err(e) => return bad("incomplete", format!("the draw returned normally; its file {} of {} bytes cannot be decoded: {} (faults {:?})", NAMES[name], f.len(), e, log)),
            };
            if (p.0, p.1) != (pix.0, pix.1) {
                return bad("size", format!("the file has {} x {} pixels instead of {} x {}", p.0, p.1, pix.0, pix.1));
            }
            if p.2 != pix.2 {
                let d = p.2.iter().zip(&pix.2).filter(|(a, b)| a != b).count();
                return bad("pixels", format!("{} of {} channel values differ from the picture drawn on a healthy disk (faults {:?})", d, p.2.len(), log));
            }
            // a reader that does not stop at the end mark must see nothing else either
            if f.len() != want.file.len() {
                return bad("leftover", format!("the file has {} bytes, the picture {}", f.len(), want.file.len()));
            }
        }
        None => {
            if f != want.file {
                return bad("pixels", format!("{} differs from the file drawn on a healthy disk ({} and {} bytes, faults {:?})", NAMES[name], f.len(), want.file.len(), log));
            }
        }
    }
    Ok(())
}

struct Carry(Visualizer);
unsafe impl Send for Carry {}

fn any_name(t: &mut Tape) -> usize {
    if t.chance(1, 2) {
        t.usize(NAMES.len())
    } else {
        0
    }
}

/// Now and then a scene with many nodes, in a larger picture.
fn any_scene(t: &mut Tape) -> Scene {
    let mut s = scene(t);
    if t.chance(1, 40) {
        let (w, h) = (2 + t.usize(12), 2 + t.usize(12));
        let turn = t.lattice(3, 0.1);
        s.pts = (0..w * h).map(|i| ((i % w) as f64, (i / w) as f64)).map(|(x, y)| [x - turn * y, y + turn * x]).collect();
        s.edges = (0..w * h).filter(|i| i % w > 0).map(|i| (i - 1, i)).chain((w..w * h).map(|i| (i, i - w))).collect();
        s.tris = (w..w * h).filter(|i| i % w > 0).flat_map(|i| [(i - w - 1, i - w, i), (i - w - 1, i, i - 1)]).collect();
        let n = s.pts.len() + s.more.len();
        s.vals = s.vals.map(|_| {
            let mut v: Vec<f64> = (0..n).map(|_| t.lattice(8, 0.5)).collect();
            v[0] = 7.0;
            v
        });
        s.size = Some(100 + t.usize(150) as u32);
    }
    // the size left open, for a new object: whatever others in the process asked for before
    if t.chance(1, 10) {
        s.size = None;
        hit(6);
    }
    s
}

fn run_c09(t: &mut Tape) -> Verdict {
    // one or two scenes, drawn over one another in up to three draws
    let mut scenes: Vec<Scene> = (0..t.range(1, 2)).map(|_| any_scene(t)).collect();
    let key = t.word();
    let main_name = any_name(t);
    let before: Option<Vec<u8>> = match t.usize(5) {
        0 => None,
        1 => Some(vec![0x41; t.usize(5000)]),
        2 => Some(vec![0x00; 200_000]),
        3 => Some(b"\x89PNG\r\n\x1a\n".to_vec()),
        _ => Some(vec![]),
    };
    vfs::clear();
    if let Some(b) = &before {
        vfs::put(NAMES[main_name], b);
    }
    vfs::put("other.png", OTHER);
    let mut kept: Vec<Option<Carry>> = scenes.iter().map(|_| None).collect();
    let draws = t.range(1, 3);
    for k in 0..draws {
        let w = t.usize(scenes.len());
        let name = if k == 0 || t.chance(2, 3) { main_name } else { any_name(t) };
        // the same scene object again, asked for in another way or changed
        let again = kept[w].is_some() && t.chance(2, 3);
        let (mut new_vals, mut new_edges) = (false, false);
        if again {
            let other = scene(t);
            let s = &mut scenes[w];
            if t.chance(1, 2) {
                s.size = other.size;
            }
            if t.chance(1, 2) {
                s.map = other.map;
            }
            if t.chance(1, 2) {
                s.mesh = other.mesh;
            }
            if t.chance(1, 3) && s.vals.is_some() {
                let n = s.pts.len() + s.more.len();
                let mut v: Vec<f64> = (0..n).map(|_| t.lattice(8, 0.5)).collect();
                v[n - 1] = -9.0;
                s.vals = Some(v);
                new_vals = true;
            }
            if t.chance(1, 3) {
                new_edges = true;
                let n = s.pts.len();
                s.edges = (0..t.usize(5)).map(|_| (t.usize(n), t.usize(n))).collect();
            }
            hit(4);
        } else {
            kept[w] = None;
        }
        let s = &scenes[w];
        let want = if name < KNOWN { Some(want(s, key, name)?) } else { None };
        let writes = want.as_ref().map_or(1, |x| x.writes);
        let len = want.as_ref().map_or(0, |x| x.file.len());
        let n = t.usize(4);
        let faults: Vec<Fault> = (0..n).map(|_| fault(t, writes)).collect();
        let held: usize = vfs::list().iter().filter_map(|p| vfs::get(p)).map(|b| b.len()).sum();
        let own = vfs::get(NAMES[name]).map_or(0, |x| x.len());
        let capacity = if t.chance(1, 4) {
            // room for some prefix of the picture; what was there before is given back on truncation
            Some(held - own + match t.usize(3) {
                0 => t.usize(len + 2),
                1 => len.saturating_sub(t.usize(20)),
                _ => t.usize((own + OTHER.len()).max(1)),
            })
        } else {
            None
        };
        shared::describe(|| {
            format!(
                "draw {} as {}{} of {:?}\nover {:?} bytes\nfaults {:?} disk capacity {:?}",
                k,
                NAMES[name],
                if again { " (with the same visualizer)" } else { "" },
                s,
                vfs::get(NAMES[name]).map(|b| b.len()),
                faults,
                capacity
            )
        });
        if n == 0 && capacity.is_none() {
            hit(0);
        }
        let mut vis = kept[w].take();
        vfs::arm(faults.clone(), capacity);
        seams::set_hash_seed(key);
        let r = {
            let vis = &mut vis;
            fem::on_thread(key, move || {
                let (v, o) = visualizer(s);
                match vis {
                    Some(Carry(v)) => {
                        if new_edges {
                            v.set_edges(s.edges.clone());
                        }
                        if let (true, Some(x)) = (new_vals, &s.vals) {
                            v.set_vals(x.clone());
                        }
                    }
                    None => *vis = Some(Carry(v)),
                }
                if let Some(Carry(v)) = vis {
                    bugi::sim_calls::draw(v, NAMES[name], o);
                }
            })
        };
        kept[w] = vis;
        let log = vfs::log();
        let hard = log.iter().any(|l| l.contains("Fail") || l.contains("Torn") || l.contains("disk full"));
        vfs::disarm();
        if !log.is_empty() {
            hit(1);
        } else if draws == 1 && name == 0 {
            trivial();
        }
        match (r, &want) {
            (Ok(()), None) => return bad("format", format!("drawing {} returned normally, a name that says no format", NAMES[name])),
            (Ok(()), Some(want)) => {
                if hard {
                    hit(2);
                }
                compare(name, want, &log)?;
            }
            (Err(_), None) => {}
            (Err(e), Some(_)) => {
                hit(3);
                if !hard {
                    return bad("failed", format!("the draw failed although nothing went wrong for good (faults {:?}): {}", log, e));
                }
            }
        }
        if vfs::get("other.png").as_deref() != Some(OTHER) {
            return bad("other", "drawing changed another file");
        }
        if vfs::open_handles() > 0 {
            return bad("handles", format!("{} files left open after the draw", vfs::open_handles()));
        }
    }
    // two threads drawing at once
    if t.chance(1, 4) {
        let (a, b) = (t.usize(scenes.len()), t.usize(scenes.len()));
        let i = if t.chance(1, 2) { t.usize(KNOWN) } else { 0 };
        let j = if t.chance(1, 2) { t.usize(KNOWN) } else { 1 };
        let j = if i == j { (i + 1) % KNOWN } else { j };
        let (x, y) = (want(&scenes[a], key, i)?, want(&scenes[b], key, j)?);
        let n = t.usize(4);
        let faults: Vec<Fault> = (0..n)
            .map(|_| {
                let nth = t.usize(4) as u64;
                if t.chance(1, 2) {
                    Fault { op: Op::Write, nth, kind: Kind::Eintr }
                } else {
                    Fault { op: Op::Write, nth, kind: Kind::Short(1 + t.usize(300)) }
                }
            })
            .collect();
        let plan = fem::preemptions(t);
        let calls = fem::call_switches(t);
        let atomics = fem::atomic_switches(t);
        shared::describe(|| format!("{} of {:?}\nbeside {} of {:?}\nfaults {:?}, {} preemptions planned, after calls {:?}, before atomics {:?}", NAMES[i], scenes[a], NAMES[j], scenes[b], faults, plan.len(), calls, atomics));
        hit(5);
        vfs::clear();
        vfs::arm(faults, None);
        let draw = |s: &Scene, name: usize| {
            let (mut v, o) = visualizer(s);
            bugi::sim_calls::draw(&mut v, NAMES[name], o);
        };
        let (r, q) = fem::beside(key, plan, calls, atomics, || draw(&scenes[a], i), || draw(&scenes[b], j));
        let log = vfs::log();
        vfs::disarm();
        for r in [r, q] {
            if let Err(e) = r {
                return bad("failed", format!("a draw beside another one failed although nothing went wrong for good (faults {:?}): {}", log, e));
            }
        }
        compare(i, &x, &log)?;
        compare(j, &y, &log)?;
        let extra: Vec<String> = vfs::list().into_iter().filter(|p| !p.is_empty() && p != NAMES[i] && p != NAMES[j]).collect();
        if !extra.is_empty() {
            return bad("litter", format!("files left behind: {:?}", extra));
        }
    }
    Ok(())
}

pub const C09: Property = Property {
    id: "C09",
    run: run_c09,
    probes: &["draw without fault", "draw with a fault", "draw succeeded in spite of an error", "draw failed loudly", "same scene object drawn again", "two threads drawing at once", "size of the picture left open"],
    quick: 60_000,
    thorough: 400_000,
    fuel: 400_000_000,
    rule: "a run draws one or two scenes, a file name (its ending asks for a format), what the file held before and up to three draws, each of a new or a used and changed scene object and under its own plan of interrupted, short, failing and torn writes, failing opens and a disk capacity; then perhaps two threads drawing at once under a preemption plan; each picture is first drawn in a fresh process on a healthy disk and looked at: nodes, edges and elements must be seen; non-trivial: a fault fired or the file is drawn over",
    real: &["visual", "image and its encoders", "std file handling"],
    stub: &["disk (in memory, faults at the system call boundary)", "crate spacemath, file, mesher and the command line are not part of this build"],
    assumptions: &[
        "errors are reported by write and open; std does not report errors of close, so none are injected there",
        "what counts is what a reader of the file sees when the draw has returned; loss of unsynchronised data in a power cut is not claimed",
        "pictures in formats that do not store pixels exactly (gif, jpeg, ico) are compared byte by byte with the one drawn on a healthy disk and not looked at",
    ],
};
