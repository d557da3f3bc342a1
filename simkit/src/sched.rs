#![allow(static_mut_refs)]
//! Baton scheduler. Simulated threads are real threads of which exactly one runs at a time; it is
//! preempted at basic-block callbacks (compiler instrumentation of the code under test), at
//! intercepted library calls, at lock waits, sleeps, joins and exits. Who runs next is decided by
//! a plan drawn from the run's tape. The same step counter is the simulated CPU clock and the
//! fuel that bounds liveness.
use crate::shared;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 40;
const QUANTUM: u64 = 50_000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Unused,
    Ready,
    Futex { addr: usize, seq: u64, deadline: u64 },
    Join(usize),
    Sleep(u64),
    Done,
}

pub struct Sched {
    n: usize,
    st: [St; MAXT],
    pth: [u64; MAXT],
    timed_out: [bool; MAXT],
    plan: Vec<(u64, u64)>,
    plan_pos: usize,
    calls: (u64, u64, u64),
    atomics: (u64, u64, u64),
    wait_seq: u64,
    fuel: u64,
    trace: Vec<(u64, usize, usize)>,
    pub clock_extra: u64,
    pub real_shift: i64,
}

static WORDS: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static mut ACTIVE: bool = false;
/// 1 + index of the running simulated thread; 0 while no simulation runs.
static mut CUR: u32 = 0;
static mut STEPS: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut PATH: u64 = 0;
static mut SWITCHES: u64 = 0;
static mut COV: *mut u8 = std::ptr::null_mut();
static mut S: Option<Sched> = None;

thread_local! {
    static MYTID: Cell<u32> = const { Cell::new(0) };
}

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}

pub fn in_sim() -> bool {
    unsafe { ACTIVE && CUR != 0 && MYTID.with(|t| t.get()) == CUR }
}

pub fn tid() -> usize {
    MYTID.with(|t| t.get()) as usize
}

pub fn steps() -> u64 {
    unsafe { STEPS }
}

pub fn path() -> u64 {
    unsafe { PATH }
}

/// Takes over the steps and path of a simulated process that has ended.
pub fn absorb(steps: u64, path: u64) {
    unsafe {
        STEPS += steps;
        PATH = (PATH.rotate_left(7) ^ path).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    rearm();
}

/// Simulated monotonic nanoseconds: 10 ns per step plus injected stalls.
pub fn now() -> u64 {
    unsafe { 1_000_000_000_000 + STEPS * 10 + s().clock_extra }
}

pub fn with_clock(f: impl FnOnce(&mut u64, &mut i64)) {
    let x = s();
    f(&mut x.clock_extra, &mut x.real_shift)
}

pub fn begin(fuel: u64) {
    unsafe {
        STEPS = 0;
        PATH = 0;
        SWITCHES = 0;
        COV = shared::get().cov.as_mut_ptr();
        S = Some(Sched {
            n: 0,
            st: [St::Unused; MAXT],
            pth: [0; MAXT],
            timed_out: [false; MAXT],
            plan: Vec::new(),
            plan_pos: 0,
            calls: (0, 1, 0),
            atomics: (0, 1, 0),
            wait_seq: 0,
            fuel,
            trace: Vec::with_capacity(256),
            clock_extra: 0,
            real_shift: 0,
        });
        CUR = 0;
        ACTIVE = true;
        rearm();
    }
}

pub fn flush() {
    unsafe {
        let sh = shared::get();
        use Ordering::Relaxed;
        sh.steps.store(STEPS, Relaxed);
        sh.sim_ns.store(if have_sched() { now() - 1_000_000_000_000 } else { 0 }, Relaxed);
        sh.switches.store(SWITCHES, Relaxed);
        let h = sh.path.load(Relaxed);
        sh.path.store(crate::splitmix(h ^ PATH), Relaxed);
    }
}

#[allow(static_mut_refs)]
fn have_sched() -> bool {
    unsafe { S.is_some() }
}

pub fn die(class: &str, msg: &str) -> ! {
    flush();
    describe_trace();
    shared::die(class, msg)
}

pub fn describe_trace() {
    shared::describe(|| {
        let t = &s().trace;
        if t.is_empty() {
            "schedule: no preemptive switches".to_string()
        } else {
            let v: Vec<String> =
                t.iter().map(|(at, a, b)| format!("step {}: T{}->T{}", at, a, b)).collect();
            format!("schedule: {}", v.join(", "))
        }
    });
}

pub fn set_plan(plan: Vec<(u64, u64)>) {
    let x = s();
    x.plan = plan;
    x.plan_pos = 0;
    rearm();
}

/// Also preempts within `dist` steps after about every second intercepted call, chosen by `word`
/// (none if it is 0).
pub fn set_call_switches(word: u64, dist: u64) {
    s().calls = (word, dist.max(1), 0);
}

/// Also preempts before about every `rate`-th atomic operation of the code under test, chosen by
/// `word` (none if it is 0).
pub fn set_atomic_switches(word: u64, rate: u64) {
    s().atomics = (word, rate.max(1), 0);
}

pub fn set_fuel(extra: u64) {
    s().fuel = unsafe { STEPS } + extra;
    rearm();
}

pub fn fuel_left() -> u64 {
    s().fuel.saturating_sub(unsafe { STEPS })
}

fn rearm() {
    let x = s();
    unsafe {
        let gap = if x.plan_pos < x.plan.len() { x.plan[x.plan_pos].0.max(1) } else { QUANTUM };
        NEXT = (STEPS + gap).min(x.fuel);
    }
}

/// Counts as one step at an intercepted call.
pub fn tick() {
    if in_sim() {
        unsafe {
            STEPS += 1;
            let x = s();
            if x.calls.0 != 0 {
                x.calls.2 += 1;
                let h = crate::splitmix(x.calls.0 ^ x.calls.2);
                if h & 1 == 0 {
                    NEXT = NEXT.min(STEPS + (h >> 8) % x.calls.1);
                }
            }
            if STEPS >= NEXT {
                slow();
            }
        }
    }
}

/// Counts as one step at an atomic operation.
pub fn atomic() {
    if in_sim() {
        unsafe {
            STEPS += 1;
            let x = s();
            if x.atomics.0 != 0 {
                x.atomics.2 += 1;
                if crate::splitmix(x.atomics.0 ^ x.atomics.2) % x.atomics.1 == 0 {
                    NEXT = STEPS;
                }
            }
            if STEPS >= NEXT {
                slow();
            }
        }
    }
}

#[cold]
#[inline(never)]
fn slow() {
    let x = s();
    unsafe {
        if STEPS >= x.fuel {
            die("hang", &format!("no result after {} steps of simulated execution", STEPS));
        }
        let cur = CUR as usize - 1;
        let pick = if x.plan_pos < x.plan.len() {
            let p = x.plan[x.plan_pos].1;
            x.plan_pos += 1;
            p
        } else {
            0
        };
        // candidates after the current thread, cyclically, so that pick 0 is round robin
        let mut cands = [0usize; MAXT];
        let mut k = 0;
        for d in 1..x.n {
            let t = (cur + d) % x.n;
            if x.st[t] == St::Ready {
                cands[k] = t;
                k += 1;
            }
        }
        rearm();
        if k > 0 {
            let to = cands[(pick % k as u64) as usize];
            SWITCHES += 1;
            if x.trace.len() < 200 {
                x.trace.push((STEPS, cur, to));
            }
            switch(cur, to);
        }
    }
}

fn hand(to: usize) {
    unsafe { CUR = to as u32 + 1 }
    WORDS[to].store(1, Ordering::SeqCst);
    raw_futex(WORDS[to].as_ptr() as usize, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
}

fn wait_baton(me: usize) {
    while WORDS[me].load(Ordering::SeqCst) == 0 {
        raw_futex(WORDS[me].as_ptr() as usize, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0);
    }
    WORDS[me].store(0, Ordering::SeqCst);
}

fn switch(me: usize, to: usize) {
    unsafe {
        PATH = (PATH.rotate_left(7) ^ (to as u64 + 77)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    hand(to);
    wait_baton(me);
}

/// The next thread to run when the current one cannot; advances simulated time to the earliest
/// deadline when nothing is ready. None when every thread has finished.
fn next_ready(from: usize) -> Option<usize> {
    let x = s();
    loop {
        for d in 1..=x.n {
            let t = (from + d) % x.n;
            if x.st[t] == St::Ready {
                return Some(t);
            }
        }
        let mut best: Option<(u64, usize)> = None;
        for t in 0..x.n {
            let dl = match x.st[t] {
                St::Futex { deadline, .. } => deadline,
                St::Sleep(d) => d,
                _ => u64::MAX,
            };
            if dl != u64::MAX && best.map_or(true, |b| dl < b.0) {
                best = Some((dl, t));
            }
        }
        match best {
            Some((dl, t)) => {
                let n = now();
                if dl > n {
                    x.clock_extra += dl - n;
                }
                x.timed_out[t] = true;
                x.st[t] = St::Ready;
            }
            None => {
                if (0..x.n).all(|t| x.st[t] == St::Done) {
                    return None;
                }
                let who: Vec<String> = (0..x.n)
                    .filter(|&t| x.st[t] != St::Done)
                    .map(|t| format!("T{} {:?}", t, x.st[t]))
                    .collect();
                die("deadlock", &format!("every live thread is blocked: {}", who.join(", ")));
            }
        }
    }
}

fn block(me: usize) {
    let to = next_ready(me).expect("blocked thread is live");
    if to != me {
        unsafe { SWITCHES += 1 }
        switch(me, to);
    }
}

pub fn sleep(ns: u64) {
    let me = tid() - 1;
    s().st[me] = St::Sleep(now().saturating_add(ns));
    block(me);
}

pub fn yield_now() {
    let me = tid() - 1;
    tick();
    let to = next_ready(me).unwrap();
    if to != me {
        unsafe { SWITCHES += 1 }
        switch(me, to);
    }
}

pub unsafe fn futex_wait(addr: usize, val: u32, deadline: u64) -> Result<(), i32> {
    tick();
    if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
        return Err(libc::EAGAIN);
    }
    let me = tid() - 1;
    let x = s();
    x.wait_seq += 1;
    x.timed_out[me] = false;
    x.st[me] = St::Futex { addr, seq: x.wait_seq, deadline };
    block(me);
    if s().timed_out[me] {
        s().timed_out[me] = false;
        Err(libc::ETIMEDOUT)
    } else {
        Ok(())
    }
}

pub fn futex_wake(addr: usize, n: usize) -> usize {
    tick();
    let x = s();
    let mut woken = 0;
    while woken < n {
        let mut best: Option<(u64, usize)> = None;
        for t in 0..x.n {
            if let St::Futex { addr: a, seq, .. } = x.st[t] {
                if a == addr && best.map_or(true, |b| seq < b.0) {
                    best = Some((seq, t));
                }
            }
        }
        match best {
            Some((_, t)) => {
                x.st[t] = St::Ready;
                woken += 1;
            }
            None => break,
        }
    }
    woken
}

struct Start {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    tid: usize,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    let me = st.tid;
    MYTID.with(|t| t.set(me as u32 + 1));
    wait_baton(me);
    let r = (st.f)(st.arg);
    finish(me);
    r
}

fn finish(me: usize) {
    let x = s();
    x.st[me] = St::Done;
    for t in 0..x.n {
        if x.st[t] == St::Join(me) {
            x.st[t] = St::Ready;
        }
    }
    MYTID.with(|t| t.set(0));
    match next_ready(me) {
        Some(to) => hand(to),
        None => unsafe { CUR = 0 },
    }
}

type Create = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> libc::c_int;
type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> libc::c_int;

fn real(name: &std::ffi::CStr) -> *mut libc::c_void {
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) };
    assert!(!p.is_null());
    p
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> libc::c_int {
    let create: Create = std::mem::transmute(real(c"pthread_create"));
    if !ACTIVE || !(CUR == 0 || in_sim()) {
        return create(out, attr, f, arg);
    }
    tick();
    let x = s();
    if x.n >= MAXT {
        return libc::EAGAIN;
    }
    let t = x.n;
    x.n += 1;
    x.st[t] = St::Ready;
    let st = Box::into_raw(Box::new(Start { f, arg, tid: t })) as *mut libc::c_void;
    let r = create(out, attr, trampoline, st);
    assert!(r == 0, "thread creation failed");
    x.pth[t] = *out as u64;
    if CUR == 0 {
        hand(t);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut libc::c_void) -> libc::c_int {
    let join: Join = std::mem::transmute(real(c"pthread_join"));
    if in_sim() {
        tick();
        let x = s();
        let me = tid() - 1;
        if let Some(i) = (0..x.n).rev().find(|&i| x.pth[i] == t as u64) {
            if x.st[i] != St::Done {
                x.st[me] = St::Join(i);
                block(me);
            }
            x.pth[i] = 0;
        }
    }
    join(t, out)
}

fn raw_futex(addr: usize, op: i32, val: u32) {
    unsafe {
        crate::seams::raw_syscall(libc::SYS_futex as usize, [addr, op as usize, val as usize, 0, 0, 0]);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    static mut NEXT_ID: u32 = 1;
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = NEXT_ID;
            NEXT_ID += 1;
        }
        p = p.add(1);
    }
    NGUARDS = NEXT_ID - 1;
}

static mut NGUARDS: u32 = 0;

pub fn guards() -> u32 {
    unsafe { NGUARDS }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if CUR == 0 || MYTID.with(|t| t.get()) != CUR {
        return;
    }
    let id = *g;
    STEPS += 1;
    PATH = (PATH.rotate_left(5) ^ id as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    *COV.add(id as usize & (shared::COV_MAX - 1)) = 1;
    if STEPS >= NEXT {
        slow();
    }
}
