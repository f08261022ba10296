//! System calls on one file, recorded and made to fail. The functions below replace those of
//! the C library for this program (the standard library and memmap call them by name); for
//! every other file they only pass the call on.
use libc::{c_int, c_void, off64_t, size_t, ssize_t};
use std::cell::UnsafeCell;
use std::fs::File;
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicBool, Ordering::*};

#[derive(Clone, Debug, PartialEq)]
pub enum FileOp {
    Write(u64, Vec<u8>),
    Trunc(u64),
    /// everything before is durable
    Sync,
}

pub const DATA: u32 = 1;
pub const HEADER: u32 = 2;
pub const TRUNC: u32 = 4;
pub const FSYNC: u32 = 8;
pub const READ: u32 = 16;
pub const MMAP: u32 = 32;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    Errno(i32),
    /// the first call of the window is short (where that is possible), the others fail
    Short(i32),
}

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub kinds: u32,
    pub skip: u64,
    pub len: u64,
    pub fail: Fail,
}

#[derive(Default)]
pub struct Trace {
    dev: u64,
    ino: u64,
    pub log: Vec<FileOp>,
    pub plan: Option<Plan>,
    /// kinds of the calls that failed, and how many
    pub hit: u32,
    pub hits: u64,
    pub calls: u64,
    record: bool,
}

struct Cell(UnsafeCell<Option<Trace>>);
unsafe impl Sync for Cell {}
static TRACE: Cell = Cell(UnsafeCell::new(None));
static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);

fn locked<T>(f: impl FnOnce(&mut Option<Trace>) -> T) -> T {
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *TRACE.0.get() });
    LOCK.store(false, Release);
    r
}

fn stat(fd: c_int) -> Option<(u64, u64)> {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) != 0 {
            return None;
        }
        Some((st.st_dev as u64, st.st_ino as u64))
    }
}

/// trace the file until `stop`
pub fn start(f: &File, record: bool) {
    let (dev, ino) = stat(f.as_raw_fd()).unwrap();
    locked(|t| *t = Some(Trace { dev, ino, record, ..Default::default() }));
    ON.store(true, SeqCst);
}
pub fn stop() -> Trace {
    ON.store(false, SeqCst);
    locked(|t| t.take()).unwrap_or_default()
}
pub fn arm(p: Option<Plan>) {
    locked(|t| {
        if let Some(t) = t {
            t.plan = p;
            t.hit = 0;
            t.hits = 0;
        }
    })
}
/// stop failing; what failed since `arm`
pub fn disarm() -> (u32, u64) {
    locked(|t| match t {
        Some(t) => {
            t.plan = None;
            (t.hit, t.hits)
        }
        None => (0, 0),
    })
}
pub fn log_len() -> usize {
    locked(|t| t.as_ref().map(|t| t.log.len()).unwrap_or(0))
}

/// apply one operation to a file image, of a write only the first `n` bytes
pub fn apply(img: &mut Vec<u8>, op: &FileOp, n: usize) {
    match op {
        FileOp::Write(off, d) => {
            let (a, d) = (*off as usize, &d[..n.min(d.len())]);
            if d.is_empty() {
                return;
            }
            if img.len() < a + d.len() {
                img.resize(a + d.len(), 0);
            }
            img[a..a + d.len()].copy_from_slice(d);
        }
        FileOp::Trunc(n) => img.resize(*n as usize, 0),
        FileOp::Sync => {}
    }
}

/// a fresh file with this content
pub fn file_of(img: &[u8]) -> File {
    let f = memfd();
    std::os::unix::fs::FileExt::write_all_at(&f, img, 0).unwrap();
    f
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

enum Do {
    Pass,
    Fail(i32),
    Short,
}

/// decide about one call; only called for the traced file
fn decide(kind: u32, can_short: bool) -> Do {
    locked(|t| {
        let Some(t) = t else { return Do::Pass };
        t.calls += 1;
        let Some(p) = t.plan.as_mut() else { return Do::Pass };
        if p.kinds & kind == 0 {
            return Do::Pass;
        }
        if p.skip > 0 {
            p.skip -= 1;
            return Do::Pass;
        }
        if p.len == 0 {
            return Do::Pass;
        }
        p.len -= 1;
        t.hits += 1;
        match p.fail {
            Fail::Short(e) => {
                p.fail = Fail::Errno(e);
                if can_short {
                    return Do::Short;
                }
                t.hit |= kind;
                Do::Fail(e)
            }
            Fail::Errno(e) => {
                t.hit |= kind;
                Do::Fail(e)
            }
        }
    })
}

fn traced(fd: c_int) -> bool {
    if !ON.load(Relaxed) {
        return false;
    }
    let e = unsafe { *libc::__errno_location() };
    let r = match stat(fd) {
        Some(x) => locked(|t| t.as_ref().is_some_and(|t| (t.dev, t.ino) == x)),
        None => false,
    };
    unsafe { set_errno(e) };
    r
}

fn record(op: FileOp) {
    locked(|t| {
        if let Some(t) = t {
            if t.record {
                t.log.push(op);
            }
        }
    })
}

unsafe fn raw_write(fd: c_int, buf: *const c_void, n: size_t, off: Option<off64_t>) -> ssize_t {
    match off {
        None => libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
        Some(o) => libc::syscall(libc::SYS_pwrite64, fd, buf, n, o) as ssize_t,
    }
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, off: Option<off64_t>) -> ssize_t {
    crate::alloc::chaos_point();
    if !traced(fd) {
        return raw_write(fd, buf, n, off);
    }
    let at = match off {
        Some(o) => o,
        None => {
            if libc::syscall(libc::SYS_fcntl, fd, libc::F_GETFL) & libc::O_APPEND as i64 != 0 {
                libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_END) as off64_t
            } else {
                libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) as off64_t
            }
        }
    };
    let header = at >= 0 && at as u64 + n as u64 <= 4096;
    let n = match decide(if header { HEADER } else { DATA }, n > 1 && !header) {
        Do::Pass => n,
        Do::Short => (n / 2).max(1),
        Do::Fail(e) => {
            set_errno(e);
            return -1;
        }
    };
    let r = raw_write(fd, buf, n, off);
    if r > 0 {
        record(FileOp::Write(at as u64, std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec()));
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if !traced(fd) {
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
    }
    // a vectored write may be short: only its first non-empty part is done
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return do_write(fd, v.iov_base, v.iov_len, None);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let r = libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t;
    crate::alloc::chaos_point();
    r
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
unsafe fn do_read(fd: c_int, buf: *mut c_void, n: size_t, off: Option<off64_t>) -> ssize_t {
    crate::alloc::chaos_point();
    let mut n = n;
    if traced(fd) {
        match decide(READ, n > 1) {
            Do::Pass => {}
            Do::Short => n = (n / 2).max(1),
            Do::Fail(e) => {
                set_errno(e);
                return -1;
            }
        }
    }
    match off {
        None => libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t,
        Some(o) => libc::syscall(libc::SYS_pread64, fd, buf, n, o) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    do_read(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_read(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_read(fd, buf, n, Some(off))
}
unsafe fn do_trunc(fd: c_int, len: off64_t) -> c_int {
    let t = traced(fd);
    if t {
        if let Do::Fail(e) = decide(TRUNC, false) {
            set_errno(e);
            return -1;
        }
    }
    let r = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    if t && r == 0 {
        record(FileOp::Trunc(len as u64));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    do_trunc(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    do_trunc(fd, len)
}
unsafe fn do_sync(fd: c_int, nr: libc::c_long) -> c_int {
    let t = traced(fd);
    if t {
        if let Do::Fail(e) = decide(FSYNC, false) {
            set_errno(e);
            return -1;
        }
    }
    let r = libc::syscall(nr, fd) as c_int;
    if t && r == 0 {
        record(FileOp::Sync);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fdatasync)
}
unsafe fn do_mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    if fd >= 0 && traced(fd) {
        if let Do::Fail(e) = decide(MMAP, false) {
            set_errno(e);
            return libc::MAP_FAILED;
        }
    }
    libc::syscall(libc::SYS_mmap, addr, len, prot, flags, fd, off) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    do_mmap(addr, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    do_mmap(addr, len, prot, flags, fd, off)
}

/// the replacements are in use by the standard library
pub fn self_test() {
    use std::io::{Read, Seek, SeekFrom, Write};
    let mut f = memfd();
    start(&f, true);
    f.write_all(b"abc").unwrap();
    f.set_len(10).unwrap();
    f.sync_all().unwrap();
    f.sync_data().unwrap();
    arm(Some(Plan { kinds: READ, skip: 0, len: 1, fail: Fail::Errno(libc::EIO) }));
    f.seek(SeekFrom::Start(0)).unwrap();
    let mut b = [0u8; 2];
    let failed = f.read(&mut b).is_err();
    std::os::unix::fs::FileExt::write_all_at(&f, b"x", 5000).unwrap();
    let t = stop();
    assert!(failed && t.hit == READ, "read is not intercepted");
    assert_eq!(
        t.log,
        vec![FileOp::Write(0, b"abc".to_vec()), FileOp::Trunc(10), FileOp::Sync, FileOp::Sync, FileOp::Write(5000, b"x".to_vec())],
        "file operations are not intercepted"
    );
}

/// an anonymous file in memory
pub fn memfd() -> File {
    let fd = unsafe { libc::memfd_create(b"rv\0".as_ptr() as *const libc::c_char, 0) };
    assert!(fd >= 0, "memfd_create");
    unsafe { File::from_raw_fd(fd) }
}
