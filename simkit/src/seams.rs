#![allow(invalid_runtime_symbol_definitions)]
//! The C symbols through which std reaches the outside world. Defined in the executable, they take
//! precedence over libc's; outside a simulation they pass straight through to the kernel.
use crate::{sched, vfs};
use libc::{c_int, c_long, c_uint, c_void, size_t, ssize_t};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static HASH_CALLS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static HASH_READS: AtomicU64 = AtomicU64::new(0);

static mut STALLS: Vec<(u64, u64, i64)> = Vec::new();
static CLOCK_CALLS: AtomicU64 = AtomicU64::new(0);
pub static STALLS_FIRED: AtomicU64 = AtomicU64::new(0);
pub static BACKJUMPS_FIRED: AtomicU64 = AtomicU64::new(0);
static ERR_BYTES: AtomicU64 = AtomicU64::new(0);

/// Keys handed to hash containers of threads started from now on.
pub fn set_hash_seed(x: u64) {
    HASH_SEED.store(x, Relaxed);
    for c in HASH_CALLS.iter() {
        c.store(0, Relaxed);
    }
}

pub fn hash_reads() -> u64 {
    HASH_READS.load(Relaxed)
}

pub fn clock_calls() -> u64 {
    CLOCK_CALLS.load(Relaxed)
}

/// At the nth clock reading: stall for `ns` and shift the wall clock by a signed jump.
pub fn set_stalls(v: Vec<(u64, u64, i64)>) {
    unsafe { STALLS = v }
}

#[inline(always)]
pub unsafe fn raw_syscall(n: usize, a: [usize; 6]) -> isize {
    let r: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _,
    );
    r
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

unsafe fn sys(n: c_long, a: [usize; 6]) -> isize {
    ret(raw_syscall(n as usize, a))
}

fn out(r: Result<isize, i32>) -> isize {
    match r {
        Ok(x) => x,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if !sched::in_sim() {
        return sys(libc::SYS_getrandom, [buf as usize, len, flags as usize, 0, 0, 0]);
    }
    sched::tick();
    HASH_READS.fetch_add(1, Relaxed);
    let t = sched::tid();
    let n = HASH_CALLS[t & 63].fetch_add(1, Relaxed);
    let mut x = crate::splitmix(HASH_SEED.load(Relaxed) ^ crate::splitmix(n));
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for c in b.chunks_mut(8) {
        x = crate::splitmix(x);
        c.copy_from_slice(&x.to_le_bytes()[..c.len()]);
    }
    len as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if !sched::in_sim() {
        return sys(libc::SYS_clock_gettime, [clk as usize, ts as usize, 0, 0, 0, 0]) as c_int;
    }
    sched::tick();
    let n = CLOCK_CALLS.fetch_add(1, Relaxed);
    let (mono, wall) = advance(n);
    let ns = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        wall
    } else {
        mono as i64
    };
    (*ts).tv_sec = ns.div_euclid(1_000_000_000);
    (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
    0
}

#[allow(static_mut_refs)]
unsafe fn advance(n: u64) -> (u64, i64) {
    sched::with_clock(|extra, shift| {
        for &(at, stall, jump) in STALLS.iter() {
            if at == n {
                *extra += stall;
                *shift += jump;
                STALLS_FIRED.fetch_add((stall > 0) as u64, Relaxed);
                BACKJUMPS_FIRED.fetch_add((jump < 0) as u64, Relaxed);
            }
        }
    });
    let m = sched::now();
    let mut shift = 0;
    sched::with_clock(|_, s| shift = *s);
    (m, 1_700_000_000_000_000_000i64 + m as i64 + shift)
}

unsafe fn deadline(ts: *const libc::timespec, abs: bool) -> u64 {
    if ts.is_null() {
        return u64::MAX;
    }
    let d = ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64);
    if abs {
        d
    } else {
        sched::now().saturating_add(d)
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex && sched::in_sim() {
        let cmd = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        match cmd {
            libc::FUTEX_WAIT => {
                let dl = deadline(d as *const _, false);
                return out(sched::futex_wait(a, c as u32, dl).map(|_| 0)) as c_long;
            }
            libc::FUTEX_WAIT_BITSET => {
                let dl = deadline(d as *const _, true);
                return out(sched::futex_wait(a, c as u32, dl).map(|_| 0)) as c_long;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                return sched::futex_wake(a, c as u32 as usize) as c_long;
            }
            _ => {}
        }
    }
    if n == libc::SYS_getrandom && sched::in_sim() {
        return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
    }
    if n == libc::SYS_statx && sched::in_sim() {
        return statx(a as c_int, b as *const i8, c as c_int, d as c_uint, e as *mut libc::statx) as c_long;
    }
    if n == libc::SYS_clock_gettime && sched::in_sim() {
        return clock_gettime(a as c_int, b as *mut libc::timespec) as c_long;
    }
    sys(n, [a, b, c, d, e, f]) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !sched::in_sim() {
        return sys(libc::SYS_nanosleep, [req as usize, rem as usize, 0, 0, 0, 0]) as c_int;
    }
    sched::sleep(deadline(req, true));
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !sched::in_sim() {
        let r = raw_syscall(libc::SYS_clock_nanosleep as usize, [clk as usize, flags as usize, req as usize, rem as usize, 0, 0]);
        return -r as c_int;
    }
    let d = deadline(req, true);
    sched::sleep(if flags & libc::TIMER_ABSTIME != 0 { d.saturating_sub(sched::now()) } else { d });
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !sched::in_sim() {
        return sys(libc::SYS_sched_yield, [0; 6]) as c_int;
    }
    sched::yield_now();
    0
}

// ---- files ------------------------------------------------------------------------------------

unsafe fn path<'a>(p: *const i8) -> &'a [u8] {
    std::ffi::CStr::from_ptr(p as *const _).to_bytes()
}

unsafe fn virt(p: *const i8) -> bool {
    sched::in_sim() && vfs::is_virtual(path(p))
}

fn vfd(fd: c_int) -> bool {
    fd >= vfs::FD_BASE
}

unsafe fn do_open(dir: c_int, p: *const i8, flags: c_int, mode: c_uint) -> c_int {
    if virt(p) {
        sched::tick();
        return out(vfs::open(path(p), flags).map(|x| x as isize)) as c_int;
    }
    sys(libc::SYS_openat, [dir as usize, p as usize, flags as usize, mode as usize, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const i8, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const i8, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const i8, flags: c_int, mode: c_uint) -> c_int {
    do_open(dir, p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if vfd(fd) {
        sched::tick();
        return out(vfs::close(fd)) as c_int;
    }
    sys(libc::SYS_close, [fd as usize, 0, 0, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if vfd(fd) {
        sched::tick();
        return out(vfs::read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n)));
    }
    sys(libc::SYS_read, [fd as usize, buf as usize, n, 0, 0, 0])
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if vfd(fd) {
        sched::tick();
        return out(vfs::pread(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), off));
    }
    sys(libc::SYS_pread64, [fd as usize, buf as usize, n, off as usize, 0, 0])
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if vfd(fd) {
        sched::tick();
        return out(vfs::write(fd, std::slice::from_raw_parts(buf as *const u8, n)));
    }
    if (fd == 1 || fd == 2) && sched::in_sim() {
        sched::tick();
        if fd == 1 {
            return out(vfs::write_stdout(std::slice::from_raw_parts(buf as *const u8, n)));
        }
        ERR_BYTES.fetch_add(n as u64, Relaxed);
        return n as ssize_t;
    }
    sys(libc::SYS_write, [fd as usize, buf as usize, n, 0, 0, 0])
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    if vfd(fd) {
        sched::tick();
        return out(vfs::pwrite(fd, std::slice::from_raw_parts(buf as *const u8, n), off));
    }
    sys(libc::SYS_pwrite64, [fd as usize, buf as usize, n, off as usize, 0, 0])
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if vfd(fd) || ((fd == 1 || fd == 2) && sched::in_sim()) {
        // one piece per call: a short vectored write
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    sys(libc::SYS_writev, [fd as usize, iov as usize, cnt as usize, 0, 0, 0])
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if vfd(fd) {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    sys(libc::SYS_readv, [fd as usize, iov as usize, cnt as usize, 0, 0, 0])
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if vfd(fd) {
        sched::tick();
        return out(vfs::seek(fd, off, whence)) as i64;
    }
    sys(libc::SYS_lseek, [fd as usize, off as usize, whence as usize, 0, 0, 0]) as i64
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if vfd(fd) {
        sched::tick();
        return out(vfs::truncate(fd, len)) as c_int;
    }
    sys(libc::SYS_ftruncate, [fd as usize, len as usize, 0, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if vfd(fd) {
        sched::tick();
        return out(vfs::sync(fd)) as c_int;
    }
    sys(libc::SYS_fsync, [fd as usize, 0, 0, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if vfd(fd) {
        sched::tick();
        return out(vfs::sync(fd)) as c_int;
    }
    sys(libc::SYS_fdatasync, [fd as usize, 0, 0, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> c_int {
    if virt(a) || virt(b) {
        sched::tick();
        return out(vfs::rename(path(a), path(b))) as c_int;
    }
    sys(libc::SYS_rename, [a as usize, b as usize, 0, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const i8) -> c_int {
    if virt(a) {
        sched::tick();
        return out(vfs::unlink(path(a))) as c_int;
    }
    sys(libc::SYS_unlink, [a as usize, 0, 0, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if vfd(fd) {
        return 0;
    }
    sys(libc::SYS_fcntl, [fd as usize, cmd as usize, arg, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: c_uint) -> c_int {
    if vfd(fd) {
        return 0;
    }
    sys(libc::SYS_fchmod, [fd as usize, mode as usize, 0, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if vfd(fd) {
        sched::tick();
        return out(vfs::size(fd).map(|n| {
            std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
            (*st).st_size = n as i64;
            (*st).st_mode = libc::S_IFREG | 0o644;
            0
        })) as c_int;
    }
    sys(libc::SYS_fstat, [fd as usize, st as usize, 0, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const i8, st: *mut libc::stat64) -> c_int {
    if virt(p) {
        sched::tick();
        return out(vfs::path_size(path(p)).map(|n| {
            std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
            (*st).st_size = n as i64;
            (*st).st_mode = libc::S_IFREG | 0o644;
            0
        })) as c_int;
    }
    sys(libc::SYS_stat, [p as usize, st as usize, 0, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, p: *const i8, flags: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    let size = if vfd(dir) {
        Some(vfs::size(dir))
    } else if !p.is_null() && virt(p) {
        Some(vfs::path_size(path(p)))
    } else {
        None
    };
    if let Some(r) = size {
        sched::tick();
        return out(r.map(|n| {
            std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
            (*st).stx_mask = mask;
            (*st).stx_size = n;
            (*st).stx_mode = (libc::S_IFREG | 0o644) as u16;
            0
        })) as c_int;
    }
    sys(libc::SYS_statx, [dir as usize, p as usize, flags as usize, mask as usize, st as usize, 0]) as c_int
}
