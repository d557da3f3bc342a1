//! C11: a torn or corrupted input file is refused, never loaded as another model.
use crate::c10::{self, hard, load, read_fault, write_fault};
use crate::doc::Doc;
use crate::fem;
use crate::region::{self, Read};
use bugi::sim_calls as calls;
use simkit::vfs::{self, Op};
use simkit::{bad, hit, shared, Property, Tape, Verdict};

/// What was done to a file, and what a reader may still make of it.
pub struct Damage {
    pub what: String,
    pub bytes: Vec<u8>,
    /// the file must be refused
    pub refuse: bool,
}

fn line_bounds(b: &[u8]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut s = 0;
    for i in 0..=b.len() {
        if i == b.len() || b[i] == b'\n' {
            if i > s {
                v.push((s, i));
            }
            s = i + 1;
        }
    }
    v
}

fn splice(b: &[u8], from: usize, to: usize, with: &[u8]) -> Vec<u8> {
    let mut v = b[..from].to_vec();
    v.extend_from_slice(with);
    v.extend_from_slice(&b[to..]);
    v
}

const JUNK: [&str; 24] = ["nan", "-inf", "1e999", "Infinity", "2#", "1 # mm", "3;", "4 ", "", "x7", "-", "/", "..", "1.5.2", "0x10", "1e", "--3", "angle:", "angle:x", "xx", "?", "1,5", "\u{e9}", "12 3/4"];

/// Damage that cannot leave a valid mesh file behind, and damage after which only a crash is wrong.
pub fn damage_mesh(t: &mut Tape, b: &[u8], d: &Doc) -> Damage {
    let lines = line_bounds(b);
    let text = |l: (usize, usize)| String::from_utf8_lossy(&b[l.0..l.1]).into_owned();
    let remark = |l: (usize, usize)| b[l.0] == b'#';
    let any = |t: &mut Tape, b: &[u8]| {
        let real: Vec<(usize, usize)> = lines.iter().cloned().filter(|l| b[l.0] != b'#').collect();
        real[t.usize(real.len())]
    };
    let mk = |what: String, bytes: Vec<u8>, refuse: bool| Damage { what, bytes, refuse };
    let n = d.nodes.len();
    // section of each line
    let mut section = String::new();
    let mut in_sec: Vec<((usize, usize), String)> = Vec::new();
    for &l in &lines {
        if remark(l) {
            continue;
        }
        let s = text(l);
        if s.starts_with("$End") {
            in_sec.push((l, "end".into()));
        } else if s.starts_with('$') {
            section = s[1..].to_string();
            in_sec.push((l, "start".into()));
        } else if s.starts_with("count ") {
            in_sec.push((l, "count".into()));
        } else {
            in_sec.push((l, section.clone()));
        }
    }
    let of = |names: &[&str]| -> Vec<(usize, usize)> { in_sec.iter().filter(|x| names.contains(&x.1.as_str())).map(|x| x.0).collect() };
    match t.usize(13) {
        0 => {
            let at = if t.chance(1, 3) { b.len() - 1 - t.usize(20.min(b.len() - 1)) } else { t.usize(b.len()) };
            // (nothing is lost behind the end of the last section)
            let end = String::from_utf8_lossy(b).rfind("$EndDistForces").map_or(0, |x| x + 14);
            mk(format!("cut off after {} of {} bytes", at, b.len()), b[..at].to_vec(), at < end)
        }
        1 => {
            let ls = of(&["count"]);
            let l = ls[t.usize(ls.len())];
            let c: i64 = text(l)[6..].parse().unwrap();
            let w = match t.usize(6) {
                0 => format!("{}", c + 1 + t.usize(3) as i64),
                1 => format!("{}", c - 1 - t.usize(3) as i64),
                2 => "18446744073709551615".into(),
                3 => "99999999999999999999999".into(),
                4 => "1000000000000".into(),
                _ => JUNK[t.usize(JUNK.len())].into(),
            };
            mk(format!("count {} became {:?}", c, w), splice(b, l.0 + 6, l.1, w.as_bytes()), true)
        }
        2 => {
            // an index that does not exist
            let ls = of(&["Elements", "Constraints", "Forces", "DistForces"]);
            if ls.is_empty() {
                return mk("nothing".into(), b.to_vec(), false);
            }
            let l = ls[t.usize(ls.len())];
            let s = text(l);
            let el = in_sec.iter().any(|x| x.0 == l && x.1 == "Elements");
            let w = match t.usize(4) {
                0 => format!("{}", n),
                1 => format!("{}", n + 1 + t.usize(1000)),
                2 => "18446744073709551615".into(),
                _ => "-1".into(),
            };
            let (from, to) = if el {
                let start = s.find(' ').unwrap() + 1;
                let parts: Vec<&str> = s[start..].split('/').collect();
                let k = t.usize(parts.len());
                let f = start + parts[..k].iter().map(|p| p.len() + 1).sum::<usize>();
                (f, f + parts[k].len())
            } else {
                let words: Vec<&str> = s.split(' ').collect();
                let k = if words.len() == 3 { t.usize(2) } else { 0 };
                let f: usize = words[..k].iter().map(|p| p.len() + 1).sum();
                (f, f + words[k].len())
            };
            mk(format!("index {:?} of line {:?} became {:?}", &s[from..to], s, w), splice(b, l.0 + from, l.0 + to, w.as_bytes()), true)
        }
        3 => {
            // the number of an entry
            let ls = of(&["Nodes", "Elements"]);
            let l = ls[t.usize(ls.len())];
            let s = text(l);
            let to = s.find(' ').unwrap();
            let i: usize = s[..to].parse().unwrap();
            let w = format!("{}", if t.chance(1, 2) { i + 1 + t.usize(3) } else { (i + 7) * 11 });
            mk(format!("entry number {} became {}", i, w), splice(b, l.0, l.0 + to, w.as_bytes()), true)
        }
        4 => {
            // a keyword
            let ls: Vec<(usize, usize)> = in_sec
                .iter()
                .filter(|x| ["start", "end", "Header"].contains(&x.1.as_str()))
                .map(|x| x.0)
                .collect();
            let l = ls[t.usize(ls.len())];
            let s = text(l);
            let mut c = s.clone().into_bytes();
            let first = s.find(' ').unwrap_or(s.len());
            let k = t.usize(first);
            c[k] = if c[k] == b'Z' { b'q' } else { b'Z' };
            let c = String::from_utf8(c).unwrap();
            mk(format!("{:?} became {:?}", s, c), splice(b, l.0, l.1, c.as_bytes()), true)
        }
        5 => {
            // header values and support words
            let ls: Vec<(usize, usize)> = in_sec.iter().filter(|x| x.1 == "Header" || x.1 == "Constraints").map(|x| x.0).collect();
            let l = ls[t.usize(ls.len())];
            let s = text(l);
            let from = s.find(' ').unwrap() + 1;
            let w = if s.starts_with("version") {
                ["2", "0", "11", "300", "one", "-1", "1.0"][t.usize(7)]
            } else if s.starts_with("material") {
                ["AL606", "AL60611", "STEEL", "", "test", "?"][t.usize(6)]
            } else if s.starts_with("condition") {
                ["planestres 1", "planestress", "planestress x", "planestrain ", "axisymmetri", "axial", "", "planestress nan", "planestrain inf", "planestress 1e999"][t.usize(10)]
            } else {
                ["z", "yx", "xyz", "", "X", "angle:", "angle:q", "angle", "fixed", "free1", "x y", "angle:nan", "angle:-inf", "angle:1e400"][t.usize(14)]
            };
            mk(format!("{:?} became {:?}", s, format!("{}{}", &s[..from], w)), splice(b, l.0 + from, l.1, w.as_bytes()), true)
        }
        6 => {
            // a number that is none
            let ls = of(&["Nodes", "Forces", "DistForces"]);
            let l = ls[t.usize(ls.len())];
            let s = text(l);
            let start = s.rfind(' ').unwrap() + 1;
            let slash = s.rfind('/').unwrap();
            let w = JUNK[t.usize(JUNK.len())];
            let (f, to) = if t.chance(1, 2) { (start, slash) } else { (slash + 1, s.len()) };
            // junk that starts like a number is one followed by something that is none
            mk(format!("number {:?} of line {:?} became {:?}", &s[f..to], s, w), splice(b, l.0 + f, l.0 + to, w.as_bytes()), true)
        }
        7 => {
            // a wrong number of components
            let ls = of(&["Nodes", "Forces", "DistForces", "Elements"]);
            let l = ls[t.usize(ls.len())];
            let s = text(l);
            let slash = s.rfind('/').unwrap();
            let (w, f) = match t.usize(3) {
                0 => ("", slash),
                1 => ("/1", s.len()),
                _ => ("/1/1", s.len()),
            };
            mk(format!("{:?} became {:?}", s, format!("{}{}", &s[..f], w)), splice(b, l.0 + f, l.1, w.as_bytes()), true)
        }
        8 => {
            // a line lost or doubled
            let l = any(t, b);
            let end = (l.1 + 1).min(b.len());
            if t.chance(1, 2) {
                mk(format!("line {:?} lost", text(l)), splice(b, l.0, end, b""), true)
            } else {
                let mut twice = b[l.0..l.1].to_vec();
                twice.push(b'\n');
                let last = l.1 == b.len() || text(l) == "$EndDistForces";
                mk(format!("line {:?} doubled", text(l)), splice(b, l.0, l.0, &twice), !last)
            }
        }
        9 => {
            // a stretch that reads back as zeros or as bytes that are no text
            let l = any(t, b);
            let at = l.0 + t.usize(l.1 - l.0);
            let most = if t.chance(1, 2) { 4 } else { 600 };
            let len = (1 + t.usize(most)).min(b.len() - at);
            let fill = if t.chance(1, 2) { 0u8 } else { 0x80 | t.usize(64) as u8 };
            let mut v = b.to_vec();
            for x in &mut v[at..at + len] {
                *x = fill;
            }
            mk(format!("{} bytes at {} read as {:#x}", len, at, fill), v, true)
        }
        10 => {
            // two damages of any kind, or a swap of sections: no crash
            let a = damage_mesh(t, b, d);
            let at = t.usize(a.bytes.len().max(1));
            let cut: Vec<u8> = a.bytes[..at.min(a.bytes.len())].to_vec();
            mk(format!("{}, then cut at {}", a.what, at), cut, a.refuse)
        }
        11 => {
            // single bytes changed: only a crash is wrong
            let mut v = b.to_vec();
            let k = t.range(1, 4);
            let mut what = String::new();
            for _ in 0..k {
                let at = t.usize(v.len());
                let alphabet = b"0123456789./-+e$ \n#xy:aE";
                let c = if t.chance(1, 4) { v[at] ^ (1 << t.usize(7)) } else { alphabet[t.usize(alphabet.len())] };
                what.push_str(&format!("byte {} {:?} became {:?}; ", at, v[at] as char, c as char));
                v[at] = c;
            }
            mk(what, v, false)
        }
        _ => {
            // entries exchanged for others of the file: only a crash is wrong
            let ls = of(&["Nodes", "Elements", "Constraints", "Forces", "DistForces"]);
            let l = ls[t.usize(ls.len())];
            let s = text(l);
            let w = match t.usize(4) {
                0 => {
                    // coinciding or repeated nodes in an element
                    let e = of(&["Elements"]);
                    let l = e[t.usize(e.len())];
                    let s = text(l);
                    let first = &s[..s.find(' ').unwrap()];
                    let k = t.usize(n);
                    let w = match t.usize(3) {
                        0 => format!("{} {}/{}/{}", first, k, k, k),
                        1 => format!("{} {}/{}/{}", first, k, (k + 1) % n, k),
                        _ => format!("{} {}/{}/{}", first, k, (k + 1) % n, (k + 2) % n),
                    };
                    return mk(format!("{:?} became {:?}", s, w), splice(b, l.0, l.1, w.as_bytes()), false);
                }
                1 => ["1e999", "nan", "inf", "1e308", "-1e308", "1e-320"][t.usize(6)].to_string(),
                2 => format!("{}", t.lattice(1000, 1e3)),
                _ => "0".to_string(),
            };
            let from = s.rfind(['/', ' ']).unwrap() + 1;
            mk(format!("last field of {:?} became {:?}", s, w), splice(b, l.0 + from, l.1, w.as_bytes()), false)
        }
    }
}

fn mesh(t: &mut Tape) -> Verdict {
    let m = c10::model(t);
    let d = Doc::of_model(&m);
    let name = "part.bmsh";
    vfs::clear();
    vfs::disarm();
    // a file the program saved or one a person wrote
    let saved = t.chance(1, 2);
    let key = t.word();
    if saved {
        if let Err(e) = fem::on_thread(key, || calls::save_elas(name, m.build())) {
            return bad("failed", format!("saving on a healthy disk failed: {}", e));
        }
    } else {
        let s = d.write(t);
        vfs::put(name, s.as_bytes());
    }
    let bytes = vfs::get(name).unwrap();
    shared::describe(|| format!("{}\nfile {:?}", m.show(), String::from_utf8_lossy(&bytes)));
    let key = t.word();
    match load(key, name) {
        Ok(x) => {
            if let Some(w) = d.differs(&x, !saved) {
                return bad("differs", format!("the undamaged file loads as another model: {}", w));
            }
        }
        Err(Err(e)) => return bad("refused", format!("the undamaged file is refused: {}", e)),
        Err(Ok(p)) => return bad("panic", format!("loading the undamaged file {}", p)),
    }
    for _ in 0..t.range(1, 4) {
        let key = t.word();
        match t.usize(5) {
            0 => {
                // a read that fails
                let f = (0..t.range(1, 3)).map(|_| read_fault(t, bytes.len())).collect::<Vec<_>>();
                vfs::put(name, &bytes);
                shared::describe(|| format!("read with faults {:?}", f));
                vfs::arm(f, None);
                let r = load(key, name);
                let log = vfs::log();
                let short = vfs::count(Op::Read);
                vfs::disarm();
                hit(2);
                match r {
                    Err(Ok(p)) => return bad("panic", format!("loading {} (faults {:?})", p, log)),
                    Err(Err(e)) if !hard(&log) => return bad("refused", format!("refused although nothing went wrong for good: {} (faults {:?})", e, log)),
                    Err(Err(_)) => hit(3),
                    Ok(x) => {
                        if let Some(w) = d.differs(&x, !saved) {
                            return bad("differs", format!("loads as another model after {} reads: {} (faults {:?})", short, w, log));
                        }
                    }
                }
            }
            1 => {
                // a crash while the file is being saved again
                vfs::put(name, &bytes);
                let f = write_fault(t, bytes.len());
                shared::describe(|| format!("saved again with fault {:?}", f));
                vfs::arm(vec![f], None);
                let r = fem::on_thread(key, || calls::save_elas(name, m.build()));
                let log = vfs::log();
                vfs::disarm();
                if r.is_err() {
                    hit(4);
                }
                match load(key, name) {
                    Err(Ok(p)) => return bad("panic", format!("loading the torn file {} (faults {:?})", p, log)),
                    Err(Err(_)) => {
                        if r.is_ok() {
                            return bad("refused", "the file saved again is refused");
                        }
                    }
                    Ok(x) => {
                        if let Some(w) = d.differs(&x, false) {
                            return bad("torn", format!("the torn file loads as another model: {} (faults {:?})", w, log));
                        }
                    }
                }
            }
            _ => {
                let x = damage_mesh(t, &bytes, &d);
                vfs::put(name, &x.bytes);
                shared::describe(|| x.what.clone());
                hit(if x.refuse { 0 } else { 1 });
                match load(key, name) {
                    Err(Ok(p)) => return bad("panic", format!("loading the file with {} {}", x.what, p)),
                    Err(Err(_)) => {}
                    Ok(y) => {
                        if x.refuse {
                            let w = d.differs(&y, !saved).unwrap_or("(no difference)".into());
                            return bad("accepted", format!("the file with {} is not refused, it loads as another model: {}", x.what, w));
                        }
                    }
                }
            }
        }
        if vfs::open_handles() > 0 {
            return bad("handles", "files left open");
        }
    }
    Ok(())
}

/// Cut inside a polygon.
pub fn cut_bound(t: &mut Tape, text: &str, fields: &[(usize, usize, char)]) -> (String, Vec<u8>) {
    let polys: Vec<(usize, usize)> = fields.iter().filter(|f| f.2 == 'p').map(|f| (f.0, f.1)).collect();
    let (a, e) = polys[t.usize(polys.len())];
    let at = a + 1 + t.usize(e - a - 1);
    (format!("cut off after {} of {} bytes", at, text.len()), text.as_bytes()[..at].to_vec())
}

/// A field replaced by something that cannot be right there.
pub fn spoil_bound(t: &mut Tape, r: &region::Region, text: &str, fields: &[(usize, usize, char)]) -> (String, Vec<u8>) {
    // k keyword, m material, c condition, l label, s support, n number
    let fs: Vec<_> = fields.iter().filter(|f| f.2 != 'p' && f.2 != 'v').collect();
    let sides = r.side_names();
    let corners: Vec<_> = fields.iter().filter(|f| f.2 == 'v').collect();
    if corners.len() > 1 && t.chance(1, 6) {
        // two corners of one name
        let a = t.usize(corners.len());
        let b = (a + 1 + t.usize(corners.len() - 1)) % corners.len();
        let (&&(f, e, _), &&(g, h, _)) = (&corners[a], &corners[b]);
        return (format!("label {:?} at {} became {:?}", &text[f..e], f, &text[g..h]), splice(text.as_bytes(), f, e, text[g..h].as_bytes()));
    }
    let &&(f, e, kind) = &fs[t.usize(fs.len())];
    let was = &text[f..e];
    let w: &str = match kind {
        'k' => ["polygo", "Polygon", "loads", "distributed_forces", "?", "endd"][t.usize(6)],
        'm' => ["AL606", "STEEL", "", "al6061", "?"][t.usize(5)],
        'c' => ["planestres 1", "planestress", "planestrain x", "axisymmetri", "", "planestrain nan", "planestress infinity", "planestress 2e308"][t.usize(8)],
        'l' if corners.len() > 1 && t.chance(1, 2) => {
            // another corner, that no side joins to this entry's other one (or the damage is none)
            let other = fs.iter().find(|x| x.2 == 'l' && (x.0 == e + 1 || x.1 + 1 == f)).map_or("", |x| &text[x.0..x.1]);
            let &&(g, h, _) = &corners[t.usize(corners.len())];
            if sides.contains(&(other.into(), text[g..h].into())) || sides.contains(&(text[g..h].into(), other.into())) {
                "nolabel"
            } else {
                &text[g..h]
            }
        }
        'l' => ["nolabel", "", "?", "zz9"][t.usize(4)],
        's' => ["z", "yx", "", "angle:", "angle:q", "X", "free", "angle:NaN", "angle:inf", "angle:-1e999"][t.usize(10)],
        _ => ["", "q", "-", "..", "1.5.2", "0x", "--3", "1,5", "?", "nan", "-inf", "1e309"][t.usize(12)],
    };
    (format!("field {:?} at {} became {:?}", was, f, w), splice(text.as_bytes(), f, e, w.as_bytes()))
}

fn boundary(t: &mut Tape) -> Verdict {
    let r = region::generate(t, region::Opts { attributes: true, ..Default::default() });
    let (text, fields) = r.write(t);
    let name = "plate.bbnd";
    vfs::clear();
    vfs::disarm();
    vfs::put(name, text.as_bytes());
    shared::describe(|| format!("{:?}\nfile {:?}", r, text));
    let key = t.word();
    match region::load(key, name) {
        Read::Bound(s) => {
            if let Some(w) = r.differs(&s) {
                return bad("differs", format!("the undamaged file loads as another region: {}", w));
            }
        }
        Read::Refused(e) => return bad("refused", format!("the undamaged file is refused: {}", e)),
        Read::Panic(p) => return bad("panic", format!("loading the undamaged file panicked: {}", p)),
    }
    for _ in 0..t.range(1, 4) {
        let key = t.word();
        let b = text.as_bytes();
        let (what, bytes, refuse) = match t.usize(6) {
            0 => {
                // a read that fails
                vfs::put(name, b);
                let f = (0..t.range(1, 3)).map(|_| read_fault(t, b.len())).collect::<Vec<_>>();
                shared::describe(|| format!("read with faults {:?}", f));
                vfs::arm(f, None);
                let x = region::load(key, name);
                let log = vfs::log();
                vfs::disarm();
                hit(2);
                match x {
                    Read::Panic(p) => return bad("panic", format!("loading panicked: {} (faults {:?})", p, log)),
                    Read::Refused(e) if !hard(&log) => return bad("refused", format!("refused although nothing went wrong for good: {} (faults {:?})", e, log)),
                    Read::Refused(_) => hit(3),
                    Read::Bound(s) => {
                        if let Some(w) = r.differs(&s) {
                            return bad("differs", format!("loads as another region: {} (faults {:?})", w, log));
                        }
                    }
                }
                continue;
            }
            1 => {
                let (w, b) = cut_bound(t, &text, &fields);
                (w, b, true)
            }
            2 => {
                let at = t.usize(b.len());
                (format!("cut off after {} of {} bytes", at, b.len()), b[..at].to_vec(), false)
            }
            3 | 4 => {
                let (w, b) = spoil_bound(t, &r, &text, &fields);
                (w, b, true)
            }
            _ => {
                let mut v = b.to_vec();
                let mut what = String::new();
                for _ in 0..t.range(1, 3) {
                    let at = t.usize(v.len());
                    let alphabet = b"0123456789.- \nexyabn";
                    let c = if t.chance(1, 4) { v[at] ^ (1 << t.usize(8)) } else { alphabet[t.usize(alphabet.len())] };
                    what.push_str(&format!("byte {} {:?} became {:?}; ", at, v[at] as char, c as char));
                    v[at] = c;
                }
                (what, v, false)
            }
        };
        vfs::put(name, &bytes);
        shared::describe(|| what.clone());
        hit(if refuse { 5 } else { 6 });
        match region::load(key, name) {
            Read::Panic(p) => return bad("panic", format!("loading the file with {} panicked: {}", what, p)),
            Read::Refused(_) => {}
            Read::Bound(s) => {
                if refuse {
                    let w = r.differs(&s).unwrap_or("(no difference)".into());
                    return bad("accepted", format!("the file with {} is not refused, it loads as another region: {}", what, w));
                }
            }
        }
    }
    Ok(())
}

fn run_c11(t: &mut Tape) -> Verdict {
    if t.chance(1, 3) {
        boundary(t)
    } else {
        mesh(t)
    }
}

pub const C11: Property = Property {
    id: "C11",
    run: run_c11,
    probes: &[
        "fault: mesh file damaged beyond validity",
        "fault: mesh file damaged arbitrarily",
        "read with faults",
        "read error reported",
        "fault: crash during a save left a torn file",
        "fault: boundary file damaged beyond validity",
        "fault: boundary file damaged arbitrarily",
    ],
    quick: 80_000,
    thorough: 600_000,
    fuel: 200_000_000,
    rule: "a run draws a model or region, writes its file (saved by the program or in a hand-written style), reads it undamaged, then up to four times damaged, torn by a failing save, or through failing reads; every run is non-trivial",
    real: &["file (serialiser, both parsers)", "element", "mesher boundary storage", "nom", "std file handling"],
    stub: &["disk (in memory, faults at the system call boundary)", "crate spacemath (absent from this environment; a stand-in written for these checks)"],
    assumptions: &[
        "the formats carry no checksum: damage that leaves a well-formed file (a digit changed, a boundary file cut between entries) is only required not to crash",
    ],
};
