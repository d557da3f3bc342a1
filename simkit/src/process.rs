//! Runs a program's main function as a process of its own on the simulated disk.
use crate::runner::{bad, Stop};
use crate::vfs::{self, Fault};
use crate::{sched, seams, shared};
use std::sync::atomic::{AtomicI32, AtomicPtr, Ordering::Relaxed};

/// Arguments the harness process is padded to, so that a simulated command line fits in their place.
pub const ARGS: usize = 40;

/// Status of a process that died at an injected crash point.
pub const CRASHED: i32 = -1;
/// Status of a process whose main function panicked.
pub const PANICKED: i32 = 101;

static ARGV: AtomicPtr<*const libc::c_char> = AtomicPtr::new(std::ptr::null_mut());
static ARGC: AtomicI32 = AtomicI32::new(0);
static PIPE: AtomicI32 = AtomicI32::new(-1);

#[link_section = ".init_array"]
#[used]
static SEE_ARGS: extern "C" fn(libc::c_int, *mut *const libc::c_char, *const *const libc::c_char) = {
    extern "C" fn see(argc: libc::c_int, argv: *mut *const libc::c_char, _env: *const *const libc::c_char) {
        ARGC.store(argc, Relaxed);
        ARGV.store(argv, Relaxed);
    }
    see
};

extern "C" {
    fn on_exit(f: extern "C" fn(libc::c_int, *mut libc::c_void), arg: *mut libc::c_void) -> libc::c_int;
}

#[derive(Clone, Debug)]
pub struct Done {
    pub status: i32,
    pub stdout: Vec<u8>,
    /// faults that fired
    pub log: Vec<String>,
    pub steps: u64,
}

fn put(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(&(b.len() as u64).to_le_bytes());
    out.extend_from_slice(b);
}

struct Take<'a>(&'a [u8]);

impl<'a> Take<'a> {
    fn num(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.num() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
}

/// Sends what this process leaves behind to the process that started it, and ends.
fn ship(status: i32) -> ! {
    let mut out = Vec::new();
    out.extend_from_slice(&(status as i64 as u64).to_le_bytes());
    out.extend_from_slice(&sched::steps().to_le_bytes());
    out.extend_from_slice(&sched::path().to_le_bytes());
    put(&mut out, &vfs::take_stdout());
    let log = vfs::log();
    out.extend_from_slice(&(log.len() as u64).to_le_bytes());
    for l in log {
        put(&mut out, l.as_bytes());
    }
    let names = vfs::list();
    out.extend_from_slice(&(names.len() as u64).to_le_bytes());
    for n in names {
        put(&mut out, n.as_bytes());
        put(&mut out, &vfs::get(&n).unwrap());
    }
    let mut off = 0;
    while off < out.len() {
        let a = [PIPE.load(Relaxed) as usize, out.as_ptr() as usize + off, out.len() - off, 0, 0, 0];
        let r = unsafe { seams::raw_syscall(libc::SYS_write as usize, a) };
        if r == -(libc::EINTR as isize) {
            continue;
        }
        if r < 0 {
            unsafe { libc::_exit(3) }
        }
        off += r as usize;
    }
    unsafe { libc::_exit(42) }
}

extern "C" fn at_exit(status: libc::c_int, _: *mut libc::c_void) {
    ship(status)
}

/// Ends the process as a crash would, if it is one that `command` started.
pub fn crash() -> ! {
    if PIPE.load(Relaxed) < 0 {
        shared::die("harness", "crash point outside a simulated process");
    }
    ship(CRASHED)
}

/// Runs `main` (which says whether it succeeded) with these arguments and hash keys; the disk is left as
/// the process left it.
pub fn command(args: &[String], key: u64, faults: Vec<Fault>, capacity: Option<usize>, main: fn() -> bool) -> Result<Done, Stop> {
    unsafe {
        let argc = ARGC.load(Relaxed) as usize;
        assert!(args.len() < argc, "harness started with too few arguments");
        let mut fd = [0i32; 2];
        assert!(libc::pipe(fd.as_mut_ptr()) == 0, "pipe failed");
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let argv = ARGV.load(Relaxed);
            for (i, a) in args.iter().enumerate() {
                *argv.add(i) = std::ffi::CString::new(a.as_str()).unwrap().into_raw();
            }
            *argv.add(args.len()) = std::ptr::null();
            PIPE.store(fd[1], Relaxed);
            on_exit(at_exit, std::ptr::null_mut());
            vfs::arm(faults, capacity);
            vfs::take_stdout();
            seams::set_hash_seed(key);
            std::thread::scope(|s| {
                let body = || {
                    // what std does around a main function
                    let code = match crate::guard(main) {
                        Ok(true) => 0,
                        Ok(false) => 1,
                        Err(_) => PANICKED,
                    };
                    std::process::exit(code)
                };
                let _ = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, body).unwrap().join();
            });
            shared::die("harness", "a simulated process did not end");
        }
        libc::close(fd[1]);
        let mut out = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let r = seams::raw_syscall(libc::SYS_read as usize, [fd[0] as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0]);
            if r == -(libc::EINTR as isize) {
                continue;
            }
            if r <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..r as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            return bad("crash", format!("the process died of signal {}", libc::WTERMSIG(st)));
        }
        if libc::WEXITSTATUS(st) != 42 {
            // it recorded its own verdict
            libc::_exit(0);
        }
        let mut x = Take(&out);
        let status = x.num() as i64 as i32;
        let steps = x.num().saturating_sub(sched::steps());
        sched::absorb(steps, x.num());
        let stdout = x.bytes().to_vec();
        let log = (0..x.num()).map(|_| String::from_utf8_lossy(x.bytes()).into_owned()).collect();
        vfs::clear();
        vfs::disarm();
        for _ in 0..x.num() {
            let name = String::from_utf8_lossy(x.bytes()).into_owned();
            let data = x.bytes();
            if !name.is_empty() {
                vfs::put(&name, data);
            }
        }
        Ok(Done { status, stdout, log, steps })
    }
}
