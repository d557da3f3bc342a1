//! Deterministic simulation kit: one integer (or one recorded choice tape) decides a whole run.
//!
//! * `tape`   every random choice of a run, recorded so that it can be minimised and replayed
//! * `shared` memory shared between a run's process and the search driver
//! * `sched`  baton scheduler: at most one simulated thread runs, the simulator picks which
//! * `seams`  the C symbols std calls for randomness, time, futexes, threads and files
//! * `vfs`    the in-memory disk with fault injection behind those symbols
//! * `process` a program's main function as a process of its own
//! * `runner` seeded search, minimisation, replay and evidence
pub mod atomics;
pub mod json;
pub mod process;
pub mod runner;
pub mod sched;
pub mod seams;
pub mod shared;
pub mod tape;
pub mod vfs;

pub use runner::{bad, discard, hit, trivial, Property, Stop, Verdict};
pub use libc;
pub use tape::Tape;

/// Runs code under test; a panic becomes an `Err` with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic with a non-string payload".to_string()
            };
            Err(msg)
        }
    }
}

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Evaluates `f` in a forked copy of this process, so that nothing it leaves behind is seen here.
pub fn fresh(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, Stop> {
    unsafe {
        let mut fd = [0i32; 2];
        assert!(libc::pipe(fd.as_mut_ptr()) == 0, "pipe failed");
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let data = match guard(f) {
                Ok(d) => d,
                Err(m) => shared::die("panic", &format!("unexpected panic: {}", m)),
            };
            let mut off = 0;
            while off < data.len() {
                let a = [fd[1] as usize, data.as_ptr() as usize + off, data.len() - off, 0, 0, 0];
                let r = seams::raw_syscall(libc::SYS_write as usize, a);
                if r < 0 {
                    libc::_exit(3);
                }
                off += r as usize;
            }
            libc::_exit(42);
        }
        libc::close(fd[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let r = seams::raw_syscall(libc::SYS_read as usize, [fd[0] as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0]);
            if r == -(libc::EINTR as isize) {
                continue;
            }
            if r <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..r as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            return bad("crash", format!("a study run alone died of signal {}", libc::WTERMSIG(st)));
        }
        if libc::WEXITSTATUS(st) != 42 {
            // the copy recorded its own verdict
            libc::_exit(0);
        }
        Ok(out)
    }
}
