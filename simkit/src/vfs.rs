//! In-memory disk under /sim/ with fault injection.
use crate::shared;
use std::cell::UnsafeCell;

pub const FD_BASE: i32 = 1 << 20;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    OpenRead,
    OpenWrite,
    Read,
    Write,
    Stat,
    Seek,
    Close,
    Sync,
    Rename,
    /// writing to standard output
    Stdout,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// transfer at most this many bytes
    Short(usize),
    /// interrupted before transferring anything
    Eintr,
    Fail(i32),
    /// transfer this many bytes, then fail every later call of the kind
    Torn(usize, i32),
    /// transfer this many bytes (an opening for writing takes place if more than 0), then the process dies
    Crash(usize),
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub op: Op,
    pub nth: u64,
    pub kind: Kind,
}

struct File {
    path: Vec<u8>,
    data: Vec<u8>,
}

struct Handle {
    file: usize,
    pos: usize,
    readable: bool,
    writable: bool,
    append: bool,
    open: bool,
}

pub struct Disk {
    files: Vec<File>,
    handles: Vec<Handle>,
    faults: Vec<Fault>,
    counts: [u64; 10],
    sticky_write: Option<i32>,
    capacity: Option<usize>,
    stdout: Vec<u8>,
    pub log: Vec<String>,
}

struct Cell_(UnsafeCell<Option<Disk>>);
unsafe impl Sync for Cell_ {}
static DISK: Cell_ = Cell_(UnsafeCell::new(None));

// probe indices of the kit
pub const P_SHORT_W: usize = 0;
pub const P_SHORT_R: usize = 1;
pub const P_EINTR: usize = 2;
pub const P_EIO_W: usize = 3;
pub const P_EIO_R: usize = 4;
pub const P_ENOSPC: usize = 5;
pub const P_OPEN: usize = 6;
pub const P_CLOSE: usize = 7;
pub const P_TORN: usize = 8;
pub const P_OTHER: usize = 9;
pub const P_CRASH: usize = 10;
pub const P_STDOUT: usize = 11;

pub fn disk() -> &'static mut Disk {
    unsafe {
        (*DISK.0.get()).get_or_insert_with(|| Disk {
            files: Vec::new(),
            handles: Vec::new(),
            faults: Vec::new(),
            counts: [0; 10],
            sticky_write: None,
            capacity: None,
            stdout: Vec::new(),
            log: Vec::new(),
        })
    }
}

/// Installs a fault plan; operations are counted from here.
pub fn arm(faults: Vec<Fault>, capacity: Option<usize>) {
    let d = disk();
    d.faults = faults;
    d.counts = [0; 10];
    d.sticky_write = None;
    d.capacity = capacity;
    d.log.clear();
}

pub fn disarm() {
    arm(Vec::new(), None)
}

pub fn put(path: &str, data: &[u8]) {
    let d = disk();
    let p = path.as_bytes();
    if let Some(f) = d.files.iter_mut().find(|f| f.path == p) {
        f.data = data.to_vec();
    } else {
        d.files.push(File { path: p.to_vec(), data: data.to_vec() });
    }
}

pub fn get(path: &str) -> Option<Vec<u8>> {
    disk().files.iter().find(|f| f.path == path.as_bytes()).map(|f| f.data.clone())
}

pub fn list() -> Vec<String> {
    disk().files.iter().map(|f| String::from_utf8_lossy(&f.path).into_owned()).collect()
}

pub fn clear() {
    let d = disk();
    d.files.clear();
    d.stdout.clear();
}

pub fn open_handles() -> usize {
    disk().handles.iter().filter(|h| h.open).count()
}

pub fn count(op: Op) -> u64 {
    disk().counts[op as usize]
}

pub fn take_stdout() -> Vec<u8> {
    std::mem::take(&mut disk().stdout)
}

pub fn log() -> Vec<String> {
    disk().log.clone()
}

pub fn write_stdout(b: &[u8]) -> Result<isize, i32> {
    let mut max = b.len();
    match fire(Op::Stdout) {
        Some(Kind::Short(n)) => max = max.min(n.max(1)),
        Some(Kind::Eintr) => return Err(libc::EINTR),
        Some(Kind::Fail(e)) | Some(Kind::Torn(_, e)) => return Err(e),
        Some(Kind::Crash(n)) => {
            disk().stdout.extend_from_slice(&b[..n.min(b.len())]);
            crate::process::crash()
        }
        None => {}
    }
    disk().stdout.extend_from_slice(&b[..max]);
    Ok(max as isize)
}

/// Everything is virtual except the paths system components need.
pub fn is_virtual(p: &[u8]) -> bool {
    !p.starts_with(b"/") || p.starts_with(b"/sim/")
}

fn fire(op: Op) -> Option<Kind> {
    let d = disk();
    let n = d.counts[op as usize];
    d.counts[op as usize] += 1;
    let k = d.faults.iter().find(|f| f.op == op && f.nth == n).map(|f| f.kind);
    if let Some(k) = k {
        shared::probe(match (op, k) {
            (_, Kind::Crash(_)) => P_CRASH,
            (Op::Stdout, _) => P_STDOUT,
            (_, Kind::Eintr) => P_EINTR,
            (Op::Write, Kind::Short(_)) => P_SHORT_W,
            (Op::Read, Kind::Short(_)) => P_SHORT_R,
            (Op::Write, Kind::Torn(..)) => P_TORN,
            (Op::Write, Kind::Fail(e)) if e == libc::ENOSPC => P_ENOSPC,
            (Op::Write, _) => P_EIO_W,
            (Op::Read, _) => P_EIO_R,
            (Op::OpenRead, _) | (Op::OpenWrite, _) => P_OPEN,
            (Op::Close, _) => P_CLOSE,
            _ => P_OTHER,
        });
        d.log.push(format!("{:?} #{} -> {:?}", op, n, k));
    }
    k
}

fn simple(op: Op) -> Result<(), i32> {
    match fire(op) {
        Some(Kind::Eintr) => Err(libc::EINTR),
        Some(Kind::Fail(e)) | Some(Kind::Torn(_, e)) => Err(e),
        Some(Kind::Crash(_)) => crate::process::crash(),
        _ => Ok(()),
    }
}

pub fn open(path: &[u8], flags: i32) -> Result<i32, i32> {
    let acc = flags & libc::O_ACCMODE;
    let writable = acc != libc::O_RDONLY;
    let mut die = false;
    match fire(if writable { Op::OpenWrite } else { Op::OpenRead }) {
        Some(Kind::Eintr) => return Err(libc::EINTR),
        Some(Kind::Fail(e)) | Some(Kind::Torn(_, e)) => return Err(e),
        Some(Kind::Crash(0)) => crate::process::crash(),
        Some(Kind::Crash(_)) => die = true,
        _ => {}
    }
    let d = disk();
    let idx = d.files.iter().position(|f| f.path == path);
    let file = match idx {
        Some(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return Err(libc::ENOENT);
            }
            d.files.push(File { path: path.to_vec(), data: Vec::new() });
            d.files.len() - 1
        }
    };
    if writable && flags & libc::O_TRUNC != 0 {
        d.files[file].data.clear();
    }
    if die {
        crate::process::crash();
    }
    let h = Handle {
        file,
        pos: 0,
        readable: acc != libc::O_WRONLY,
        writable,
        append: flags & libc::O_APPEND != 0,
        open: true,
    };
    d.handles.push(h);
    Ok(FD_BASE + d.handles.len() as i32 - 1)
}

fn handle(fd: i32) -> Result<&'static mut Handle, i32> {
    match disk().handles.get_mut((fd - FD_BASE) as usize) {
        Some(h) if h.open => Ok(h),
        _ => Err(libc::EBADF),
    }
}

pub fn close(fd: i32) -> Result<isize, i32> {
    handle(fd)?.open = false;
    match fire(Op::Close) {
        Some(Kind::Fail(e)) => Err(e),
        Some(Kind::Crash(_)) => crate::process::crash(),
        _ => Ok(0),
    }
}

pub fn read(fd: i32, buf: &mut [u8]) -> Result<isize, i32> {
    let h = handle(fd)?;
    let pos = h.pos;
    let n = pread(fd, buf, pos as i64)?;
    h.pos += n as usize;
    Ok(n)
}

pub fn pread(fd: i32, buf: &mut [u8], off: i64) -> Result<isize, i32> {
    let h = handle(fd)?;
    if !h.readable {
        return Err(libc::EBADF);
    }
    let mut max = buf.len();
    match fire(Op::Read) {
        Some(Kind::Short(n)) => max = max.min(n.max(1)),
        Some(Kind::Eintr) => return Err(libc::EINTR),
        Some(Kind::Fail(e)) | Some(Kind::Torn(_, e)) => return Err(e),
        Some(Kind::Crash(_)) => crate::process::crash(),
        None => {}
    }
    let data = &disk().files[h.file].data;
    let off = (off as usize).min(data.len());
    let n = max.min(data.len() - off);
    buf[..n].copy_from_slice(&data[off..off + n]);
    Ok(n as isize)
}

pub fn write(fd: i32, buf: &[u8]) -> Result<isize, i32> {
    let h = handle(fd)?;
    if h.append {
        h.pos = disk().files[h.file].data.len();
    }
    let pos = h.pos;
    let n = pwrite(fd, buf, pos as i64)?;
    h.pos += n as usize;
    Ok(n)
}

pub fn pwrite(fd: i32, buf: &[u8], off: i64) -> Result<isize, i32> {
    let h = handle(fd)?;
    if !h.writable {
        return Err(libc::EBADF);
    }
    let d = disk();
    if let Some(e) = d.sticky_write {
        return Err(e);
    }
    let mut max = buf.len();
    let mut die = false;
    match fire(Op::Write) {
        Some(Kind::Short(n)) => max = max.min(n.max(1)),
        Some(Kind::Eintr) => return Err(libc::EINTR),
        Some(Kind::Fail(e)) => return Err(e),
        Some(Kind::Torn(n, e)) => {
            d.sticky_write = Some(e);
            if n == 0 {
                return Err(e);
            }
            max = max.min(n)
        }
        Some(Kind::Crash(n)) => {
            die = true;
            max = max.min(n)
        }
        None => {}
    }
    let off = off as usize;
    if let Some(cap) = d.capacity {
        let used: usize = d.files.iter().map(|f| f.data.len()).sum();
        let free = cap.saturating_sub(used);
        let end = off + max;
        let grow = end.saturating_sub(d.files[h.file].data.len());
        if grow > free {
            let fit = max - (grow - free).min(max);
            shared::probe(P_ENOSPC);
            d.log.push(format!("disk full at {} bytes", used));
            if fit == 0 {
                return Err(libc::ENOSPC);
            }
            max = fit;
        }
    }
    let data = &mut d.files[h.file].data;
    if data.len() < off + max {
        data.resize(off + max, 0);
    }
    data[off..off + max].copy_from_slice(&buf[..max]);
    if die {
        crate::process::crash();
    }
    Ok(max as isize)
}

pub fn seek(fd: i32, off: i64, whence: i32) -> Result<isize, i32> {
    simple(Op::Seek)?;
    let h = handle(fd)?;
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => h.pos as i64,
        libc::SEEK_END => disk().files[h.file].data.len() as i64,
        _ => return Err(libc::EINVAL),
    };
    if base + off < 0 {
        return Err(libc::EINVAL);
    }
    h.pos = (base + off) as usize;
    Ok(h.pos as isize)
}

pub fn truncate(fd: i32, len: i64) -> Result<isize, i32> {
    let h = handle(fd)?;
    disk().files[h.file].data.resize(len as usize, 0);
    Ok(0)
}

pub fn sync(fd: i32) -> Result<isize, i32> {
    handle(fd)?;
    simple(Op::Sync)?;
    Ok(0)
}

pub fn rename(a: &[u8], b: &[u8]) -> Result<isize, i32> {
    simple(Op::Rename)?;
    let d = disk();
    let i = d.files.iter().position(|f| f.path == a).ok_or(libc::ENOENT)?;
    if let Some(j) = d.files.iter().position(|f| f.path == b) {
        if j != i {
            // keep indices of open handles valid: leave a nameless file behind
            d.files[j].path = Vec::new();
        }
    }
    d.files[i].path = b.to_vec();
    Ok(0)
}

pub fn unlink(a: &[u8]) -> Result<isize, i32> {
    let d = disk();
    let i = d.files.iter().position(|f| f.path == a).ok_or(libc::ENOENT)?;
    d.files[i].path = Vec::new();
    Ok(0)
}

pub fn size(fd: i32) -> Result<u64, i32> {
    simple(Op::Stat)?;
    let h = handle(fd)?;
    Ok(disk().files[h.file].data.len() as u64)
}

pub fn path_size(p: &[u8]) -> Result<u64, i32> {
    simple(Op::Stat)?;
    disk().files.iter().find(|f| f.path == p).map(|f| f.data.len() as u64).ok_or(libc::ENOENT)
}
