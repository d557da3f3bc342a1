//! Memory shared between the process of one run and the process that drives the search, so that
//! the choices, counters and verdict of a run survive however that process ends.
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const TAPE_MAX: usize = 1 << 16;
pub const MSG_MAX: usize = 1 << 14;
pub const DESC_MAX: usize = 1 << 18;
pub const COV_MAX: usize = 1 << 17;
pub const NPROBE: usize = 96;

pub const RUNNING: u64 = 0;
pub const OK: u64 = 1;
pub const VIOLATION: u64 = 2;
pub const DISCARD: u64 = 3;

#[repr(C)]
pub struct Shared {
    pub state: AtomicU64,
    pub steps: AtomicU64,
    pub path: AtomicU64,
    pub sim_ns: AtomicU64,
    pub switches: AtomicU64,
    pub trivial: AtomicU64,
    pub want_desc: AtomicU64,
    pub class_len: AtomicUsize,
    pub msg_len: AtomicUsize,
    pub desc_len: AtomicUsize,
    pub tape_len: AtomicUsize,
    pub probes: [AtomicU64; NPROBE],
    pub class: [u8; 512],
    pub msg: [u8; MSG_MAX],
    pub tape: [u64; TAPE_MAX],
    pub desc: [u8; DESC_MAX],
    pub cov: [u8; COV_MAX],
}

static mut CUR: *mut Shared = std::ptr::null_mut();

pub fn alloc() -> *mut Shared {
    map(std::mem::size_of::<Shared>()) as *mut Shared
}

pub fn map(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap failed");
        p as *mut u8
    }
}

pub fn install(p: *mut Shared) {
    unsafe { CUR = p }
}

pub fn get() -> &'static mut Shared {
    unsafe {
        assert!(!CUR.is_null());
        &mut *CUR
    }
}

pub fn installed() -> bool {
    unsafe { !CUR.is_null() }
}

impl Shared {
    pub fn reset(&mut self, want_desc: bool) {
        self.state.store(RUNNING, Relaxed);
        self.steps.store(0, Relaxed);
        self.path.store(0, Relaxed);
        self.sim_ns.store(0, Relaxed);
        self.switches.store(0, Relaxed);
        self.trivial.store(0, Relaxed);
        self.want_desc.store(want_desc as u64, Relaxed);
        self.class_len.store(0, Relaxed);
        self.msg_len.store(0, Relaxed);
        self.desc_len.store(0, Relaxed);
        self.tape_len.store(0, Relaxed);
        for p in self.probes.iter() {
            p.store(0, Relaxed);
        }
    }

    pub fn set_verdict(&mut self, class: &str, msg: &str) {
        let c = clip(class, self.class.len());
        self.class[..c.len()].copy_from_slice(c);
        self.class_len.store(c.len(), Relaxed);
        let m = clip(msg, MSG_MAX);
        self.msg[..m.len()].copy_from_slice(m);
        self.msg_len.store(m.len(), Relaxed);
        self.state.store(VIOLATION, Relaxed);
    }

    pub fn class(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len.load(Relaxed)]).into_owned()
    }

    pub fn msg(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len.load(Relaxed)]).into_owned()
    }

    pub fn desc(&self) -> String {
        String::from_utf8_lossy(&self.desc[..self.desc_len.load(Relaxed)]).into_owned()
    }

    pub fn tape(&self) -> Vec<u64> {
        self.tape[..self.tape_len.load(Relaxed)].to_vec()
    }
}

fn clip(s: &str, n: usize) -> &[u8] {
    let b = s.as_bytes();
    &b[..b.len().min(n)]
}

/// Adds a line to the rendering of this run (kept only for samples and replays).
pub fn describe(f: impl FnOnce() -> String) {
    let s = get();
    if s.want_desc.load(Relaxed) == 0 {
        return;
    }
    let mut t = f();
    t.push('\n');
    let at = s.desc_len.load(Relaxed);
    let b = clip(&t, DESC_MAX - at);
    s.desc[at..at + b.len()].copy_from_slice(b);
    s.desc_len.store(at + b.len(), Relaxed);
}

/// Folds a value into the run's path hash.
pub fn mix(x: u64) {
    let s = get();
    let h = s.path.load(Relaxed);
    s.path.store(crate::splitmix(h ^ x), Relaxed);
}

pub fn probe(i: usize) {
    let s = get();
    let c = s.probes[i].load(Relaxed);
    s.probes[i].store(c + 1, Relaxed);
}

/// Ends the run's process at once with a violation (used where unwinding is impossible).
pub fn die(class: &str, msg: &str) -> ! {
    get().set_verdict(class, msg);
    unsafe { libc::_exit(0) }
}
