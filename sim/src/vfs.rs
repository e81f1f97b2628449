//! The operating system's file calls, for paths below ROOT only: the functions of the C library that Rust's std calls
//! are defined here, so the library's own `File`-based code runs unchanged on a simulated disk. Everything else is
//! passed on to the kernel.

use crate::disk::*;
use libc::{c_char, c_int, c_void, iovec, mode_t, off64_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::io::{self, ErrorKind};
use std::path::PathBuf;
use std::rc::Rc;
use tedium::{TdmsError, TdmsFile};

pub const ROOT: &str = "/tdsim-vfs/";
const BASE: c_int = 1_000_000;

#[derive(Clone)]
struct Handle {
    disk: DiskRef,
    /// Shared by duplicates of the handle.
    pos: Rc<Cell<u64>>,
    flags: c_int,
}

#[derive(Default)]
struct Fs {
    files: BTreeMap<String, DiskRef>,
    /// Storage for a path that has no file yet.
    spare: BTreeMap<String, DiskRef>,
    handles: BTreeMap<c_int, Handle>,
    next: c_int,
    pub unsupported: Vec<&'static str>,
}

thread_local! {
    static FS: RefCell<Fs> = RefCell::new(Fs::default());
}

pub fn reset() {
    FS.with(|f| *f.borrow_mut() = Fs::default());
}
/// A calls the simulator does not know, if the code under test made one.
pub fn unsupported() -> Option<&'static str> {
    FS.with(|f| f.borrow().unsupported.first().copied())
}
pub fn open_handles() -> usize {
    FS.with(|f| f.borrow().handles.len())
}
pub fn exists(p: &str) -> bool {
    FS.with(|f| f.borrow().files.contains_key(p))
}
pub fn install(p: &str, d: &DiskRef, exists: bool) {
    FS.with(|f| {
        let mut f = f.borrow_mut();
        if exists {
            f.files.insert(p.into(), d.clone());
        } else {
            f.spare.insert(p.into(), d.clone());
        }
    })
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
fn errno_of(e: &io::Error) -> c_int {
    match e.kind() {
        ErrorKind::Interrupted => libc::EINTR,
        ErrorKind::PermissionDenied => libc::EACCES,
        ErrorKind::TimedOut => libc::ETIMEDOUT,
        ErrorKind::BrokenPipe => libc::EPIPE,
        ErrorKind::StorageFull => libc::ENOSPC,
        ErrorKind::InvalidInput => libc::EINVAL,
        _ => libc::EIO,
    }
}
fn fail(e: c_int) -> isize {
    set_errno(e);
    -1
}
fn done(r: io::Result<u64>) -> isize {
    match r {
        Ok(n) => n as isize,
        Err(e) => fail(errno_of(&e)),
    }
}
unsafe fn vpath(p: *const c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    if b.starts_with(ROOT.as_bytes()) {
        Some(String::from_utf8_lossy(b).into_owned())
    } else {
        None
    }
}
fn ours(fd: c_int) -> bool {
    fd >= BASE
}
fn handle(fd: c_int) -> Option<Handle> {
    FS.with(|f| f.borrow().handles.get(&fd).cloned())
}
fn set_pos(fd: c_int, pos: u64) {
    FS.with(|f| {
        if let Some(h) = f.borrow().handles.get(&fd) {
            h.pos.set(pos)
        }
    })
}
fn readable(h: &Handle) -> bool {
    h.flags & libc::O_ACCMODE != libc::O_WRONLY
}
fn writable(h: &Handle) -> bool {
    h.flags & libc::O_ACCMODE != libc::O_RDONLY
}

fn vopen(path: String, flags: c_int) -> isize {
    // A fault in opening is counted on the disk of that path.
    let d = FS.with(|f| {
        let f = f.borrow();
        f.files.get(&path).or_else(|| f.spare.get(&path)).cloned()
    });
    if let Some(d) = &d {
        let r = d.borrow_mut().open_ok();
        if let Err(e) = r {
            return fail(errno_of(&e));
        }
    }
    FS.with(|f| {
        let mut f = f.borrow_mut();
        let there = f.files.get(&path).cloned();
        let disk = match there {
            Some(d) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return fail(libc::EEXIST);
                }
                if flags & libc::O_TRUNC != 0 && flags & libc::O_ACCMODE != libc::O_RDONLY {
                    let mut dd = d.borrow_mut();
                    if dd.readonly && !dd.data.is_empty() && dd.write_violation.is_none() {
                        dd.write_violation = Some("the file was truncated by opening it".into());
                    }
                    dd.set(vec![]);
                }
                d
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return fail(libc::ENOENT);
                }
                let d = f.spare.get(&path).cloned().unwrap_or_else(|| Disk::new(Delivery::default()));
                d.borrow_mut().set(vec![]);
                f.files.insert(path, d.clone());
                d
            }
        };
        let fd = BASE + f.next;
        f.next += 1;
        f.handles.insert(fd, Handle { disk, pos: Rc::new(Cell::new(0)), flags });
        fd as isize
    })
}

unsafe fn vread(fd: c_int, buf: *mut c_void, n: size_t, at: Option<u64>) -> isize {
    let Some(h) = handle(fd) else { return fail(libc::EBADF) };
    if !readable(&h) {
        return fail(libc::EBADF);
    }
    let pos = at.unwrap_or(h.pos.get());
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    let r = h.disk.borrow_mut().read_at(pos, b);
    if let (Ok(k), None) = (&r, at) {
        set_pos(fd, pos + *k as u64);
    }
    done(r.map(|k| k as u64))
}
unsafe fn vwrite(fd: c_int, buf: *const c_void, n: size_t, at: Option<u64>) -> isize {
    let Some(h) = handle(fd) else { return fail(libc::EBADF) };
    if !writable(&h) {
        return fail(libc::EBADF);
    }
    let pos = if h.flags & libc::O_APPEND != 0 { h.disk.borrow().data.len() as u64 } else { at.unwrap_or(h.pos.get()) };
    let b = std::slice::from_raw_parts(buf as *const u8, n);
    let r = h.disk.borrow_mut().write_at(pos, b);
    if let (Ok(k), None) = (&r, at) {
        set_pos(fd, pos + *k as u64);
    }
    done(r.map(|k| k as u64))
}
fn vseek(fd: c_int, off: i64, whence: c_int) -> isize {
    let Some(h) = handle(fd) else { return fail(libc::EBADF) };
    h.disk.borrow_mut().live_step();
    let len = h.disk.borrow().data.len() as u64;
    let base = match whence {
        libc::SEEK_SET => 0i128,
        libc::SEEK_CUR => h.pos.get() as i128,
        libc::SEEK_END => len as i128,
        _ => return fail(libc::EINVAL),
    };
    let t = base + off as i128;
    if t < 0 || t > i64::MAX as i128 {
        return fail(libc::EINVAL);
    }
    let r = h.disk.borrow_mut().seek_ok(t as u64);
    match r {
        Ok(()) => {
            set_pos(fd, t as u64);
            t as isize
        }
        Err(e) => fail(errno_of(&e)),
    }
}
fn vsync(fd: c_int) -> isize {
    let Some(h) = handle(fd) else { return fail(libc::EBADF) };
    let r = h.disk.borrow_mut().flush_ok();
    done(r.map(|_| 0))
}
fn unsupported_call(name: &'static str) -> isize {
    FS.with(|f| f.borrow_mut().unsupported.push(name));
    fail(libc::ENOSYS)
}

macro_rules! sys {
    ($($a:expr),*) => { libc::syscall($($a),*) as isize };
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match vpath(path) {
        Some(p) => vopen(p, flags) as c_int,
        None => sys!(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if ours(fd) {
        vread(fd, buf, n, None)
    } else {
        sys!(libc::SYS_read, fd, buf, n)
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if ours(fd) {
        vwrite(fd, buf, n, None)
    } else {
        sys!(libc::SYS_write, fd, buf, n)
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if ours(fd) {
        vread(fd, buf, n, Some(off as u64))
    } else {
        sys!(libc::SYS_pread64, fd, buf, n, off)
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if ours(fd) {
        vwrite(fd, buf, n, Some(off as u64))
    } else {
        sys!(libc::SYS_pwrite64, fd, buf, n, off)
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if !ours(fd) {
        return sys!(libc::SYS_readv, fd, v, n);
    }
    // A short transfer is always allowed: the first buffer with room.
    for i in 0..n as isize {
        let e = &*v.offset(i);
        if e.iov_len > 0 {
            return vread(fd, e.iov_base, e.iov_len, None);
        }
    }
    vread(fd, std::ptr::NonNull::<u8>::dangling().as_ptr() as *mut c_void, 0, None)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if !ours(fd) {
        return sys!(libc::SYS_writev, fd, v, n);
    }
    for i in 0..n as isize {
        let e = &*v.offset(i);
        if e.iov_len > 0 {
            return vwrite(fd, e.iov_base, e.iov_len, None);
        }
    }
    vwrite(fd, std::ptr::NonNull::<u8>::dangling().as_ptr() as *const c_void, 0, None)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if ours(fd) {
        vseek(fd, off, whence) as off64_t
    } else {
        sys!(libc::SYS_lseek, fd, off, whence) as off64_t
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ours(fd) {
        match FS.with(|f| f.borrow_mut().handles.remove(&fd)) {
            Some(_) => 0,
            None => fail(libc::EBADF) as c_int,
        }
    } else {
        sys!(libc::SYS_close, fd) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if ours(fd) {
        vsync(fd) as c_int
    } else {
        sys!(libc::SYS_fsync, fd) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if ours(fd) {
        vsync(fd) as c_int
    } else {
        sys!(libc::SYS_fdatasync, fd) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !ours(fd) {
        return sys!(libc::SYS_ftruncate, fd, len) as c_int;
    }
    let Some(h) = handle(fd) else { return fail(libc::EBADF) as c_int };
    if !writable(&h) || len < 0 {
        return fail(libc::EINVAL) as c_int;
    }
    let mut d = h.disk.borrow_mut();
    if d.readonly && d.write_violation.is_none() {
        d.write_violation = Some("the file's length was set during a reading operation".into());
    }
    let mut b = d.data.clone();
    b.resize(len as usize, 0);
    d.set(b);
    0
}

unsafe fn fill_stat(st: *mut libc::stat64, d: &DiskRef) -> c_int {
    d.borrow_mut().live_step();
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_mode = libc::S_IFREG | 0o644;
    (*st).st_nlink = 1;
    (*st).st_size = d.borrow().data.len() as i64;
    (*st).st_blksize = 4096;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if !ours(fd) {
        return sys!(libc::SYS_fstat, fd, st) as c_int;
    }
    match handle(fd) {
        Some(h) => fill_stat(st, &h.disk),
        None => fail(libc::EBADF) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match vpath(path) {
        None => sys!(libc::SYS_stat, path, st) as c_int,
        Some(p) => match FS.with(|f| f.borrow().files.get(&p).cloned()) {
            Some(d) => fill_stat(st, &d),
            None => fail(libc::ENOENT) as c_int,
        },
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match vpath(path) {
        None => sys!(libc::SYS_lstat, path, st) as c_int,
        Some(_) => stat64(path, st),
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, st: *mut libc::statx) -> c_int {
    let d = if ours(dir) {
        match handle(dir) {
            Some(h) => h.disk,
            None => return fail(libc::EBADF) as c_int,
        }
    } else {
        match vpath(path) {
            None => return sys!(libc::SYS_statx, dir, path, flags, mask, st) as c_int,
            Some(p) => match FS.with(|f| f.borrow().files.get(&p).cloned()) {
                Some(d) => d,
                None => return fail(libc::ENOENT) as c_int,
            },
        }
    };
    d.borrow_mut().live_step();
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
    (*st).stx_mask = libc::STATX_BASIC_STATS;
    (*st).stx_mode = (libc::S_IFREG | 0o644) as u16;
    (*st).stx_nlink = 1;
    (*st).stx_size = d.borrow().data.len() as u64;
    (*st).stx_blksize = 4096;
    0
}
/// No links here: a path is its own canonical form. What the caller frees comes from the C library's allocator.
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    match vpath(path) {
        None => {
            set_errno(libc::ENOENT);
            std::ptr::null_mut()
        }
        Some(p) if !exists(&p) => {
            set_errno(libc::ENOENT);
            std::ptr::null_mut()
        }
        Some(_) if out.is_null() => libc::strdup(path),
        Some(_) => libc::strcpy(out, path),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    match vpath(path) {
        None => sys!(libc::SYS_unlink, path) as c_int,
        Some(p) => FS.with(|f| {
            let mut f = f.borrow_mut();
            match f.files.remove(&p) {
                Some(d) => {
                    let mut dd = d.borrow_mut();
                    if dd.readonly && dd.write_violation.is_none() {
                        dd.write_violation = Some("the file was removed by opening it".into());
                    }
                    drop(dd);
                    f.spare.insert(p, d);
                    0
                }
                None => fail(libc::ENOENT) as c_int,
            }
        }),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if vpath(a).is_none() && vpath(b).is_none() {
        return sys!(libc::SYS_rename, a, b) as c_int;
    }
    unsupported_call("rename") as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int {
    if !ours(fd) {
        return sys!(libc::SYS_fcntl, fd, cmd, arg) as c_int;
    }
    match (handle(fd), cmd) {
        (None, _) => fail(libc::EBADF) as c_int,
        (Some(_), libc::F_GETFD) => libc::FD_CLOEXEC,
        (Some(h), libc::F_GETFL) => h.flags,
        (Some(h), libc::F_DUPFD | libc::F_DUPFD_CLOEXEC) => FS.with(|f| {
            let mut f = f.borrow_mut();
            let fd = BASE + f.next;
            f.next += 1;
            f.handles.insert(fd, h);
            fd
        }),
        _ => unsupported_call("fcntl") as c_int,
    }
}
/// Locks are granted: there is no other process.
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if ours(fd) {
        0
    } else {
        sys!(libc::SYS_flock, fd, op) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

/// TdmsFile::load and TdmsFile::create on simulated paths.
pub struct Vfs {
    pub path: PathBuf,
    pub missing: PathBuf,
}
impl Vfs {
    pub fn new(disk: &DiskRef, exists: bool) -> Self {
        reset();
        let p = format!("{ROOT}a.tdms");
        install(&p, disk, exists);
        Vfs { path: p.into(), missing: format!("{ROOT}missing.tdms").into() }
    }
}
impl crate::exec::Backend for Vfs {
    type F = std::fs::File;
    fn load(&self) -> Result<TdmsFile<std::fs::File>, TdmsError> {
        TdmsFile::load(&self.path)
    }
    fn create(&self) -> Result<TdmsFile<std::fs::File>, TdmsError> {
        TdmsFile::create(&self.path)
    }
    fn load_missing(&self) -> (bool, bool) {
        let ok = TdmsFile::load(&self.missing).is_ok();
        (ok, exists(self.missing.to_str().unwrap()))
    }
    fn fork(&self, disk: &DiskRef) -> Self {
        let p = format!("{ROOT}copy.tdms");
        install(&p, disk, true);
        Vfs { path: p.into(), missing: self.missing.clone() }
    }
}
