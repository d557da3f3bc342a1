//! Seeded search over many simulated runs, each in its own process; minimisation; replay; evidence.
use crate::json::{obj, J};
use crate::shared::{self, Shared};
use crate::tape::Tape;
use crate::{sched, seams, vfs};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub const PROBE0: usize = 32;

/// How a run ended when it did not end well.
pub enum Stop {
    /// the generated case is outside the property's domain
    Discard(String),
    /// class (identity of the failure, used by minimisation and the known-findings file), message
    Bad(String, String),
}

pub type Verdict = Result<(), Stop>;

pub fn bad<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Bad(class.into(), msg.into()))
}

pub fn discard<T>(why: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Discard(why.into()))
}

/// Marks the run as one whose case decides nothing (counted, but not as non-trivial).
pub fn trivial() {
    shared::get().trivial.store(1, Relaxed);
}

pub struct Property {
    pub id: &'static str,
    pub run: fn(&mut Tape) -> Verdict,
    /// names of the property's own probes, reported as reached counts; index i is probe PROBE0+i
    pub probes: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    /// steps after which a run counts as hanging
    pub fuel: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const KIT_PROBES: [&str; 12] = [
    "short write",
    "short read",
    "interrupted call (EINTR)",
    "write error",
    "read error",
    "disk full (ENOSPC)",
    "open error",
    "close error",
    "torn write then persistent error",
    "stat/seek/sync/rename error",
    "process crash",
    "standard output fault",
];

fn run_seed(id: &str, seed: u64, index: u64) -> u64 {
    let mut h = crate::splitmix(seed ^ 0xB061);
    for b in id.bytes() {
        h = crate::splitmix(h ^ b as u64);
    }
    crate::splitmix(h ^ index)
}

enum Src {
    Seed(u64),
    Tape(Vec<u64>),
}

/// Executes one run in the current process; never returns.
fn child(p: &Property, src: Src) -> ! {
    unsafe {
        let lim = |what, v| {
            let r = libc::rlimit { rlim_cur: v, rlim_max: v };
            libc::setrlimit(what, &r);
        };
        lim(libc::RLIMIT_AS, 2 << 30);
        lim(libc::RLIMIT_CPU, 100);
        lim(libc::RLIMIT_CORE, 0);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let run = p.run;
    sched::begin(p.fuel);
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let mut tape = match src {
            Src::Seed(s) => Tape::seeded(s),
            Src::Tape(t) => Tape::replay(t),
        };
        crate::guard(|| run(&mut tape))
    });
    let r = h.unwrap().join().unwrap();
    sched::flush();
    let s = shared::get();
    match r {
        Ok(Ok(())) => s.state.store(shared::OK, Relaxed),
        Ok(Err(Stop::Discard(why))) => {
            s.set_verdict(&why, "");
            s.state.store(shared::DISCARD, Relaxed);
        }
        Ok(Err(Stop::Bad(c, m))) => s.set_verdict(&c, &m),
        Err(m) => s.set_verdict("panic", &format!("unexpected panic: {}", m)),
    }
    if s.state.load(Relaxed) == shared::VIOLATION {
        sched::describe_trace();
        for l in vfs::log() {
            shared::describe(|| format!("fault: {}", l));
        }
    }
    unsafe { libc::_exit(0) }
}

#[derive(Clone, Debug, PartialEq)]
struct Res {
    state: u64,
    class: String,
    msg: String,
    path: u64,
    trivial: bool,
}

fn exec(p: &Property, sh: *mut Shared, src: Src, want_desc: bool) -> Res {
    unsafe {
        shared::install(sh);
        shared::get().reset(want_desc);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            child(p, src);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            assert!(*libc::__errno_location() == libc::EINTR, "waitpid failed");
        }
        let s = shared::get();
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            match sig {
                libc::SIGXCPU => s.set_verdict("hang", "no result within 100 s of processor time"),
                libc::SIGKILL if s.state.load(Relaxed) == shared::RUNNING => {
                    // CPU hard limit or memory pressure
                    s.set_verdict("killed", "the run's process was killed (resource limit)")
                }
                _ => s.set_verdict("crash", &format!("the process died of signal {}", sig)),
            }
        } else if s.state.load(Relaxed) == shared::RUNNING {
            let code = libc::WEXITSTATUS(st);
            s.set_verdict("exit", &format!("the process exited (status {}) in mid-run", code));
        }
        Res {
            state: s.state.load(Relaxed),
            class: s.class(),
            msg: s.msg(),
            path: s.path.load(Relaxed),
            trivial: s.trivial.load(Relaxed) != 0,
        }
    }
}

#[derive(Clone, Debug)]
struct Known {
    class: String,
    replay: String,
    text: String,
}

/// Lines `known: property=<id> class=<class> replay=<file> <text>`; `fixed:` lines suppress nothing.
fn known(root: &str, id: &str) -> Vec<Known> {
    let mut v = Vec::new();
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", root)).unwrap_or_default();
    for l in text.lines() {
        let mut w = l.split_whitespace();
        if w.next() != Some("known:") {
            continue;
        }
        let mut k = Known { class: String::new(), replay: String::new(), text: String::new() };
        let mut mine = false;
        for x in w {
            if let Some(p) = x.strip_prefix("property=") {
                mine = p == id;
            } else if let Some(c) = x.strip_prefix("class=") {
                k.class = c.to_string();
            } else if let Some(c) = x.strip_prefix("replay=") {
                k.replay = c.to_string();
            } else {
                k.text.push_str(x);
                k.text.push(' ');
            }
        }
        if mine {
            v.push(k);
        }
    }
    v
}

struct Tally {
    runs: u64,
    ok: u64,
    discards: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    first: Option<(u64, String)>,
    steps: u64,
    sim_us: u64,
    switches: u64,
    probes: Vec<u64>,
    paths: HashSet<u64>,
    cov: HashSet<u32>,
    rechecked: u64,
    mismatched: u64,
    violations: u64,
}

impl Tally {
    fn new() -> Tally {
        Tally {
            runs: 0,
            ok: 0,
            discards: BTreeMap::new(),
            known: BTreeMap::new(),
            first: None,
            steps: 0,
            sim_us: 0,
            switches: 0,
            probes: vec![0; shared::NPROBE],
            paths: HashSet::new(),
            cov: HashSet::new(),
            rechecked: 0,
            mismatched: 0,
            violations: 0,
        }
    }

    fn send(&self, out: &mut impl Write) -> std::io::Result<()> {
        writeln!(out, "runs {}", self.runs)?;
        writeln!(out, "ok {}", self.ok)?;
        writeln!(out, "steps {}", self.steps)?;
        writeln!(out, "sim {}", self.sim_us)?;
        writeln!(out, "switches {}", self.switches)?;
        writeln!(out, "rechecked {}", self.rechecked)?;
        writeln!(out, "mismatched {}", self.mismatched)?;
        writeln!(out, "violations {}", self.violations)?;
        for (k, v) in &self.discards {
            writeln!(out, "discard {} {}", v, k)?;
        }
        for (k, v) in &self.known {
            writeln!(out, "known {} {}", v, k)?;
        }
        if let Some((i, c)) = &self.first {
            writeln!(out, "first {} {}", i, c.replace('\n', " "))?;
        }
        for (i, v) in self.probes.iter().enumerate() {
            if *v > 0 {
                writeln!(out, "probe {} {}", i, v)?;
            }
        }
        for p in &self.paths {
            writeln!(out, "path {}", p)?;
        }
        for c in &self.cov {
            writeln!(out, "cov {}", c)?;
        }
        writeln!(out, "end 0")
    }

    fn absorb(&mut self, text: &str) -> bool {
        let mut ended = false;
        for l in text.lines() {
            let mut w = l.splitn(3, ' ');
            let (k, a, b) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
            let n: u64 = a.parse().unwrap_or(0);
            match k {
                "runs" => self.runs += n,
                "ok" => self.ok += n,
                "steps" => self.steps += n,
                "sim" => self.sim_us += n,
                "switches" => self.switches += n,
                "rechecked" => self.rechecked += n,
                "mismatched" => self.mismatched += n,
                "violations" => self.violations += n,
                "discard" => *self.discards.entry(b.to_string()).or_insert(0) += n,
                "known" => *self.known.entry(b.to_string()).or_insert(0) += n,
                "first" => {
                    if self.first.as_ref().map_or(true, |f| n < f.0) {
                        self.first = Some((n, b.to_string()))
                    }
                }
                "probe" => self.probes[n as usize] += b.parse::<u64>().unwrap_or(0),
                "path" => {
                    self.paths.insert(n);
                }
                "cov" => {
                    self.cov.insert(n as u32);
                }
                "end" => ended = true,
                _ => {}
            }
        }
        ended
    }
}

fn worker(
    p: &Property,
    seed: u64,
    first: u64,
    stride: u64,
    total: u64,
    deadline: Instant,
    lowest: &AtomicU64,
    known: &[Known],
) -> Tally {
    let sh = shared::alloc();
    // a worker may have nothing to do: others may have found a violation already
    shared::install(sh);
    let mut t = Tally::new();
    let mut i = first;
    while i < total && Instant::now() < deadline {
        // Runs past a found violation are not needed, earlier ones are: the report is the lowest.
        if i > lowest.load(Relaxed) {
            break;
        }
        let s = run_seed(p.id, seed, i);
        let mut r = exec(p, sh, Src::Seed(s), false);
        if r.state == shared::VIOLATION && r.class == "killed" {
            // the machine may have run short of memory: the same run again decides
            r = exec(p, sh, Src::Seed(s), false);
        }
        let g = shared::get();
        t.runs += 1;
        t.steps += g.steps.load(Relaxed);
        t.sim_us += g.sim_ns.load(Relaxed) / 1000;
        t.switches += g.switches.load(Relaxed);
        for (a, b) in t.probes.iter_mut().zip(g.probes.iter()) {
            *a += b.load(Relaxed);
        }
        match r.state {
            shared::OK => {
                t.ok += 1;
                if !r.trivial {
                    t.paths.insert(r.path);
                }
            }
            shared::DISCARD => *t.discards.entry(r.class.clone()).or_insert(0) += 1,
            _ => {
                if known.iter().any(|k| k.class == r.class) {
                    *t.known.entry(r.class.clone()).or_insert(0) += 1;
                } else {
                    t.violations += 1;
                    t.first = Some((i, r.class.clone()));
                    lowest.fetch_min(i, Relaxed);
                }
            }
        }
        if (i / stride) % 64 == 3 {
            t.rechecked += 1;
            let r2 = exec(p, sh, Src::Seed(s), false);
            if r2 != r {
                t.mismatched += 1;
            }
        }
        i += stride;
    }
    let g = shared::get();
    for (k, c) in g.cov.iter().enumerate() {
        if *c != 0 {
            t.cov.insert(k as u32);
        }
    }
    t
}

fn search(p: &Property, seed: u64, total: u64, cap: Duration, known: &[Known], workers: u64) -> Tally {
    let deadline = Instant::now() + cap;
    let lowest: &AtomicU64 = unsafe { &*(shared::map(4096) as *const AtomicU64) };
    lowest.store(u64::MAX, Relaxed);
    let mut pipes = Vec::new();
    for w in 0..workers {
        let mut fds = [0; 2];
        unsafe {
            assert!(libc::pipe(fds.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let t = worker(p, seed, w, workers, total, deadline, lowest, known);
                let mut f = std::io::BufWriter::new(std::fs::File::from_raw_fd(fds[1]));
                let ok = t.send(&mut f).is_ok() && f.flush().is_ok();
                libc::_exit(!ok as i32);
            }
            libc::close(fds[1]);
            pipes.push((pid, fds[0]));
        }
    }
    let mut all = Tally::new();
    for (pid, fd) in pipes {
        let mut text = String::new();
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        f.read_to_string(&mut text).expect("worker pipe");
        let ended = all.absorb(&text);
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        if !ended {
            eprintln!("harness error: a worker died");
            std::process::exit(2);
        }
    }
    all
}

/// Minimises a failing tape: drop chunks, zero values, lower values; the class must stay.
fn shrink(p: &Property, sh: *mut Shared, tape: Vec<u64>, class: &str, budget: Duration) -> (Vec<u64>, u64) {
    let end = Instant::now() + budget;
    let mut best = tape;
    let mut evals = 0u64;
    let mut attempt = |cand: &Vec<u64>, best: &mut Vec<u64>| -> bool {
        if Instant::now() >= end || evals >= 6000 {
            return false;
        }
        evals += 1;
        let r = exec(p, sh, Src::Tape(cand.clone()), false);
        if r.state == shared::VIOLATION && r.class == class {
            // keep what the run really consumed
            let used = shared::get().tape();
            let shorter = used.len() < cand.len();
            *best = if shorter { used } else { cand.clone() };
            while best.last() == Some(&0) {
                best.pop();
            }
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut at = 0;
            while at < best.len() {
                let mut c = best.clone();
                c.drain(at..(at + size).min(c.len()));
                if !attempt(&c, &mut best) {
                    at += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut at = 0;
            while at < best.len() {
                let e = (at + size).min(best.len());
                if best[at..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[at..e].iter_mut().for_each(|x| *x = 0);
                    attempt(&c, &mut best);
                }
                at += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(&c, &mut best) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        // delete an element while lowering an earlier count
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                for n in 1..=4usize {
                    for d in 1..=3usize {
                        if i + d + n > best.len() {
                            continue;
                        }
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + d..i + d + n);
                        if attempt(&c, &mut best) {
                            break;
                        }
                        if i >= best.len() || best[i] == 0 {
                            break;
                        }
                    }
                    if i >= best.len() || best[i] == 0 {
                        break;
                    }
                }
            }
            i += 1;
        }
        if best == before || Instant::now() >= end {
            break;
        }
    }
    (best, evals)
}

fn lines(s: &str) -> J {
    J::Arr(s.lines().map(J::from).collect())
}

fn tier_name(thorough: bool) -> &'static str {
    if thorough {
        "thorough"
    } else {
        "quick"
    }
}

pub fn main(props: &[Property]) -> ! {
    no_aslr();
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} <property> <quick|thorough|replay|desc> [replay file | index]", args[0]);
        std::process::exit(2);
    }
    let root = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
    let p = match props.iter().find(|p| p.id == args[1]) {
        Some(p) => p,
        None => {
            eprintln!("no such property here: {}", args[1]);
            std::process::exit(2);
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    match args[2].as_str() {
        "quick" => check(p, &root, seed, false),
        "thorough" => check(p, &root, seed, true),
        "replay" => replay(p, &args[3]),
        "desc" => {
            let i: u64 = args[3].parse().unwrap();
            let sh = shared::alloc();
            let r = exec(p, sh, Src::Seed(run_seed(p.id, seed, i)), true);
            println!("{}{:?}", shared::get().desc(), r);
            std::process::exit(0)
        }
        "log" => {
            // determinism log: one line per run
            let n: u64 = args[3].parse().unwrap();
            let sh = shared::alloc();
            for i in 0..n {
                let r = exec(p, sh, Src::Seed(run_seed(p.id, seed, i)), true);
                let g = shared::get();
                let mut h = 0;
                for b in g.desc().bytes() {
                    h = crate::splitmix(h ^ b as u64);
                }
                println!("{} {} {} {:x} {} {:x}", i, r.state, r.class, r.path, g.steps.load(Relaxed), h);
            }
            std::process::exit(0)
        }
        x => {
            eprintln!("unknown mode {}", x);
            std::process::exit(2);
        }
    }
}

fn no_aslr() {
    unsafe {
        if std::env::var_os("SIMKIT_FIXED").is_some() {
            return;
        }
        std::env::set_var("SIMKIT_FIXED", "1");
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 {
            libc::personality(cur as u64 | libc::ADDR_NO_RANDOMIZE as u64);
        }
        use std::os::unix::process::CommandExt;
        let mut a: Vec<_> = std::env::args_os().skip(1).collect();
        while a.len() < crate::process::ARGS {
            a.push("-".into());
        }
        let _ = std::process::Command::new("/proc/self/exe").args(a).exec();
    }
}

fn workers() -> u64 {
    if let Some(n) = std::env::var("VERIF_WORKERS").ok().and_then(|x| x.parse().ok()) {
        return n;
    }
    std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16)
}

fn replay(p: &Property, path: &str) -> ! {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {}", path, e);
        std::process::exit(2)
    });
    let j = J::parse(&text).unwrap_or_else(|| {
        eprintln!("not a replay file: {}", path);
        std::process::exit(2)
    });
    let tape: Vec<u64> =
        j.get("tape").and_then(|t| t.arr()).unwrap_or(&[]).iter().filter_map(|x| x.u64()).collect();
    let sh = shared::alloc();
    let r = exec(p, sh, Src::Tape(tape), true);
    print!("{}", shared::get().desc());
    if r.state == shared::VIOLATION {
        println!("class: {}\n{}", r.class, r.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        std::process::exit(1);
    }
    println!("no violation on replay (state {})", r.state);
    std::process::exit(0)
}

fn check(p: &Property, root: &str, seed: u64, thorough: bool) -> ! {
    let t0 = Instant::now();
    let w = workers();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let total = ((if thorough { p.thorough } else { p.quick }) as f64 * scale) as u64;
    let cap = if thorough { Duration::from_secs(660) } else { Duration::from_secs(150) };
    println!("property={} tier={} seed={} runs={} workers={}", p.id, tier_name(thorough), seed, total, w);
    let known = known(root, p.id);
    let tally = search(p, seed, total, cap, &known, w);
    let search_s = t0.elapsed().as_secs_f64();

    let sh = shared::alloc();
    let mut verdict = None;
    if let Some((index, class)) = &tally.first {
        let r = exec(p, sh, Src::Seed(run_seed(p.id, seed, *index)), false);
        let tape = shared::get().tape();
        let reproduced = r.state == shared::VIOLATION && r.class == *class;
        let (tape, evals) = if reproduced && tape.len() < shared::TAPE_MAX {
            shrink(p, sh, tape, class, Duration::from_secs(if thorough { 60 } else { 25 }))
        } else {
            (tape, 0)
        };
        let r = exec(p, sh, Src::Tape(tape.clone()), true);
        let desc = shared::get().desc();
        let dir = format!("{}/out", root);
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{}/{}-seed{}-run{}.json", dir, p.id, seed, index);
        let j = obj(vec![
            ("property", p.id.into()),
            ("seed", seed.into()),
            ("run", (*index).into()),
            ("run_seed", run_seed(p.id, seed, *index).into()),
            ("class", class.as_str().into()),
            ("violation", r.msg.as_str().into()),
            ("reproduced", J::Bool(r.state == shared::VIOLATION && r.class == *class)),
            ("minimiser_runs", evals.into()),
            ("replay_cmd", format!("./check {} replay {}", p.id, file).into()),
            ("scenario_and_trace", lines(&desc)),
            ("tape", J::Arr(tape.iter().map(|x| J::from(*x)).collect())),
        ]);
        if let Err(e) = std::fs::write(&file, j.show()) {
            eprintln!("cannot write {}: {}", file, e);
            std::process::exit(2);
        }
        print!("{}", desc);
        println!("class: {}\n{}", class, r.msg);
        verdict = Some(file);
    }

    // samples of this run's cases, written out
    let mut samples = Vec::new();
    let mut i = 0;
    while samples.len() < 3 && i < total.min(60) {
        let r = exec(p, sh, Src::Seed(run_seed(p.id, seed, i)), true);
        if r.state == shared::OK && !r.trivial || r.state == shared::VIOLATION {
            let d = shared::get().desc();
            let clipped: String = d.chars().take(4000).collect();
            samples.push(obj(vec![("run", i.into()), ("case", lines(&clipped))]));
        }
        i += 1;
    }
    let mut faults = Vec::new();
    let mut reached = Vec::new();
    for (i, name) in KIT_PROBES.iter().enumerate() {
        if tally.probes[i] > 0 {
            faults.push((name.to_string(), J::from(tally.probes[i])));
        }
    }
    for (i, name) in p.probes.iter().enumerate() {
        let v = J::from(tally.probes[PROBE0 + i]);
        if let Some(f) = name.strip_prefix("fault: ") {
            faults.push((f.to_string(), v));
        } else {
            reached.push((name.to_string(), v));
        }
    }
    let hours = search_s.max(1e-9) / 3600.0;
    let strs = |v: &[&str]| J::Arr(v.iter().map(|s| J::from(*s)).collect());
    let map = |m: &BTreeMap<String, u64>| {
        J::Obj(m.iter().map(|(k, v)| (k.clone(), J::from(*v))).collect())
    };
    let coverage = obj(vec![
        ("evaluations", tally.runs.into()),
        ("distinct_nontrivial", tally.paths.len().into()),
        ("rule", p.rule.into()),
        ("samples", J::Arr(samples)),
        ("runs_planned", total.into()),
        ("passed", tally.ok.into()),
        ("discarded_outside_domain", map(&tally.discards)),
        ("runs_per_hour", J::Num((tally.runs as f64 / hours).round())),
        ("seeds_per_hour", J::Num((tally.runs as f64 / hours).round())),
        ("simulated_seconds_covered", J::Num(tally.sim_us as f64 / 1e6)),
        ("simulated_steps", tally.steps.into()),
        ("thread_switches_decided_by_the_scheduler", tally.switches.into()),
        ("faults_injected_and_fired", J::Obj(faults)),
        ("conditions_reached", J::Obj(reached)),
        (
            "distinct_measure",
            "distinct hashes of the full basic-block path (plus thread switches) through the code under test".into(),
        ),
        ("code_edges_hit", tally.cov.len().into()),
        ("code_edges_total", (sched::guards() as u64).into()),
        ("determinism_runs_repeated", tally.rechecked.into()),
        ("determinism_mismatches", tally.mismatched.into()),
        ("known_findings_met", map(&tally.known)),
        ("ran_real_code", strs(p.real)),
        ("ran_a_stub", strs(p.stub)),
        ("workers", w.into()),
    ]);
    let ev = obj(vec![
        ("property", p.id.into()),
        ("tier", tier_name(thorough).into()),
        ("seed", seed.into()),
        ("level", "exploration".into()),
        ("coverage", coverage),
        ("assumptions", strs(p.assumptions)),
        ("wall_s", J::Num(t0.elapsed().as_secs_f64())),
        ("violations", tally.violations.into()),
    ]);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let evp = format!("{}/evidence/{}.json", root, p.id);
    if let Err(e) = std::fs::write(&evp, ev.show()) {
        eprintln!("cannot write {}: {}", evp, e);
        std::process::exit(2);
    }
    println!(
        "runs={} passed={} distinct={} discarded={} steps={} edges={}/{} wall={:.1}s",
        tally.runs,
        tally.ok,
        tally.paths.len(),
        tally.discards.values().sum::<u64>(),
        tally.steps,
        tally.cov.len(),
        sched::guards(),
        t0.elapsed().as_secs_f64()
    );
    if tally.mismatched > 0 {
        println!("warning: {} of {} repeated runs differed", tally.mismatched, tally.rechecked);
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {} (class {}, replay {})", p.id, k.text.trim(), k.class, k.replay);
    }
    match verdict {
        Some(file) => {
            println!("VIOLATION property={} replay={}", p.id, file);
            std::process::exit(1)
        }
        None => {
            if tally.ok == 0 && !thorough {
                eprintln!("harness error: nothing was decided");
                std::process::exit(2);
            }
            std::process::exit(0)
        }
    }
}

/// Marks a property's own probe.
pub fn hit(i: usize) {
    shared::probe(PROBE0 + i);
}

pub fn hash_reads() -> u64 {
    seams::hash_reads()
}
