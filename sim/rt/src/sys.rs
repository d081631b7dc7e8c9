#![allow(unused_mut)]
//! The system interface seen by the code under test. These definitions replace libc's at link time.
//! Threads that are simulated tasks get the simulator; all other threads get the real thing.
#![allow(clippy::missing_safety_doc)]
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;
use std::rc::Rc;

use crate::raw::{ret, sc6};
use crate::sched::{point, sim, Kind, TASK};
use crate::vfs::*;

fn simmed() -> bool { TASK.try_with(|t| t.get() >= 0).unwrap_or(false) && crate::sched::active() }
unsafe fn err(e: c_int) -> i64 { *libc::__errno_location() = e; -1 }
unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] { CStr::from_ptr(p).to_bytes() }
fn v() -> &'static mut Vfs { &mut sim().vfs }

macro_rules! real { ($n:ident $(, $a:expr)*) => {{ let mut a = [0i64; 6]; let mut i = 0; $( a[i] = $a as i64; i += 1; )* let _ = i; ret(sc6(libc::$n, a[0], a[1], a[2], a[3], a[4], a[5])) }} }

unsafe fn base_of(dirfd: c_int) -> Result<u32, c_int> {
    if dirfd == libc::AT_FDCWD { return Ok(v().cur().cwd) }
    v().fds.get(&dirfd).map(|f| f.ino).ok_or(libc::EBADF)
}

fn new_fd(ino: u32, flags: c_int, path: &[u8]) -> c_int {
    let w = v();
    let fd = w.next_fd;
    w.next_fd += 1;
    w.fds.insert(fd, Fd { ino, pos: 0, flags, path: path.to_vec() });
    fd
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, _mode: mode_t) -> c_int {
    point(Kind::Sys);
    let p = bytes(path);
    if let Some((k, x)) = fault(&[F_OPEN_EINTR, F_OPEN_ERR]) {
        let e = if k == F_OPEN_EINTR { libc::EINTR } else { pick_errno(x, &[libc::EIO, libc::EMFILE, libc::EACCES, libc::ENFILE, libc::ENOMEM]) };
        v().log("open", p, -1, 0, -1, e, &[], Some(k));
        return err(e) as c_int;
    }
    let r = open_inner(dirfd, p, flags);
    match r {
        Ok((fd, ino)) => { v().log("open", p, fd, ino, fd as i64, 0, &[], None); fd }
        Err(e) => { v().log("open", p, -1, 0, -1, e, &[], None); err(e) as c_int }
    }
}

unsafe fn open_inner(dirfd: c_int, p: &[u8], flags: c_int) -> Result<(c_int, u32), c_int> {
    let base = if p.first() == Some(&b'/') { 1 } else { base_of(dirfd)? };
    let acc = flags & libc::O_ACCMODE;
    let follow = flags & libc::O_NOFOLLOW == 0;
    let r = v().cur().walk(base, p, follow);
    let (parent, name, ino) = match r { Res::Ok { parent, name, ino } => (parent, name, ino), Res::Err(e) => return Err(e) };
    let ino = match ino {
        Some(i) => {
            if flags & (libc::O_CREAT | libc::O_EXCL) == libc::O_CREAT | libc::O_EXCL { return Err(libc::EEXIST) }
            match &v().cur().nodes[&i] {
                Node::Dir { .. } if acc != libc::O_RDONLY || flags & libc::O_CREAT != 0 => return Err(libc::EISDIR),
                Node::Link(_) => return Err(libc::ELOOP),
                Node::File { .. } if flags & libc::O_DIRECTORY != 0 => return Err(libc::ENOTDIR),
                Node::File { readable: false, .. } => return Err(libc::EACCES),
                Node::Special => return Err(libc::ENXIO),
                _ => {}
            }
            if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
                v().change(|t| if let Some(Node::File { data, .. }) = t.nodes.get_mut(&i) { *data = Rc::new(vec![]) });
            }
            i
        }
        None if flags & libc::O_CREAT != 0 => {
            if p.last() == Some(&b'/') { return Err(libc::EISDIR) }
            v().change(|t| {
                let i = t.next;
                t.next += 1;
                t.nodes.insert(i, Node::File { data: Rc::new(vec![]), readable: true });
                if let Some(Node::Dir { ents, .. }) = t.nodes.get_mut(&parent) { ents.insert(name.clone(), i); }
                i
            })
        }
        None => return Err(libc::ENOENT),
    };
    Ok((new_fd(ino, flags, p), ino))
}

#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !simmed() { return real!(SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int }
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int { open64(p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !simmed() { return real!(SYS_openat, d, p, flags, mode) as c_int }
    do_open(d, p, flags, mode)
}
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int { openat64(d, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn creat64(p: *const c_char, mode: mode_t) -> c_int { open64(p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode) }

#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !simmed() || fd < FD_BASE { return real!(SYS_close, fd) as c_int }
    point(Kind::Sys);
    let known = v().fds.remove(&fd).is_some();
    if !known { return err(libc::EBADF) as c_int }
    if let Some((k, _)) = fault(&[F_CLOSE_ERR]) { v().log("close", &[], fd, 0, -1, libc::EIO, &[], Some(k)); return err(libc::EIO) as c_int }
    0
}

unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, at: Option<usize>) -> ssize_t {
    point(Kind::Sys);
    let (ino, pos, path) = match v().fds.get(&fd) { Some(f) => (f.ino, at.unwrap_or(f.pos), f.path.clone()), None => return err(libc::EBADF) as ssize_t };
    let hit = fault(&[F_READ_EINTR, F_READ_ERR, F_SHORT_READ]);
    match hit {
        Some((k @ F_READ_EINTR, _)) => { v().log("read", &path, fd, ino, -1, libc::EINTR, &[], Some(k)); return err(libc::EINTR) as ssize_t }
        Some((k @ F_READ_ERR, x)) => {
            let e = pick_errno(x, &[libc::EIO, libc::ESTALE, libc::ENOMEM, libc::EACCES]);
            v().log("read", &path, fd, ino, -1, e, &[], Some(k));
            return err(e) as ssize_t;
        }
        _ => {}
    }
    let data = match v().cur().nodes.get(&ino) {
        Some(Node::File { data, .. }) => data.clone(),
        Some(Node::Dir { .. }) => { v().log("read", &path, fd, ino, -1, libc::EISDIR, &[], None); return err(libc::EISDIR) as ssize_t }
        _ => return err(libc::EINVAL) as ssize_t,
    };
    let avail = data.len().saturating_sub(pos);
    let mut m = n.min(avail);
    if v().max_read > 0 { m = m.min(v().max_read) }
    let mut fk = None;
    if let Some((k @ F_SHORT_READ, x)) = hit { if m > 1 { m = 1 + x as usize % (m - 1); fk = Some(k) } }
    let s = &data[pos.min(data.len())..pos.min(data.len()) + m];
    std::ptr::copy_nonoverlapping(s.as_ptr(), buf, m);
    let s = s.to_vec();
    if at.is_none() { v().fds.get_mut(&fd).unwrap().pos = pos + m }
    v().log("read", &path, fd, ino, m as i64, 0, &s, fk);
    m as ssize_t
}

#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !simmed() || fd < FD_BASE { return real!(SYS_read, fd, buf, n) as ssize_t }
    do_read(fd, buf.cast(), n, None)
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if !simmed() || fd < FD_BASE { return real!(SYS_pread64, fd, buf, n, off) as ssize_t }
    do_read(fd, buf.cast(), n, Some(off as usize))
}
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !simmed() || fd < FD_BASE { return real!(SYS_readv, fd, iov, n) as ssize_t }
    let mut tot = 0;
    for i in 0..n as usize {
        let io = &*iov.add(i);
        if io.iov_len == 0 { continue }
        let r = do_read(fd, io.iov_base.cast(), io.iov_len, None);
        if r < 0 { return if tot > 0 { tot } else { r } }
        tot += r;
        if (r as usize) < io.iov_len { break }
    }
    tot
}

unsafe fn do_write(fd: c_int, buf: *const u8, n: usize, at: Option<usize>) -> ssize_t {
    point(Kind::Sys);
    let (ino, pos, flags, path) = match v().fds.get(&fd) { Some(f) => (f.ino, f.pos, f.flags, f.path.clone()), None => return err(libc::EBADF) as ssize_t };
    if flags & libc::O_ACCMODE == libc::O_RDONLY { return err(libc::EBADF) as ssize_t }
    let hit = fault(&[F_WRITE_EINTR, F_WRITE_ERR, F_WRITE_ZERO, F_SHORT_WRITE]);
    let mut m = n;
    let mut fk = None;
    match hit {
        Some((k @ F_WRITE_EINTR, _)) => { v().log("write", &path, fd, ino, -1, libc::EINTR, &[], Some(k)); return err(libc::EINTR) as ssize_t }
        Some((k @ F_WRITE_ERR, x)) => {
            let e = pick_errno(x, &[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG]);
            v().log("write", &path, fd, ino, -1, e, &[], Some(k));
            return err(e) as ssize_t;
        }
        Some((k @ F_WRITE_ZERO, _)) if n > 0 => { v().log("write", &path, fd, ino, 0, 0, &[], Some(k)); return 0 }
        Some((k @ F_SHORT_WRITE, x)) if n > 1 => { m = 1 + x as usize % (n - 1); fk = Some(k) }
        _ => {}
    }
    if v().max_write > 0 { m = m.min(v().max_write) }
    if let Some(sp) = v().space {
        if sp == 0 && n > 0 {
            sim().fault_counts[F_DISK_FULL] += 1;
            v().log("write", &path, fd, ino, -1, libc::ENOSPC, &[], Some(F_DISK_FULL));
            return err(libc::ENOSPC) as ssize_t;
        }
        m = m.min(sp);
        v().space = Some(sp - m);
    }
    let s = std::slice::from_raw_parts(buf, m).to_vec();
    let mut end = pos;
    v().change(|t| if let Some(Node::File { data, .. }) = t.nodes.get_mut(&ino) {
        let d = Rc::make_mut(data);
        let p = if let Some(a) = at { a } else if flags & libc::O_APPEND != 0 { d.len() } else { pos };
        if d.len() < p { d.resize(p, 0) }
        let over = s.len().min(d.len() - p);
        d[p..p + over].copy_from_slice(&s[..over]);
        d.extend_from_slice(&s[over..]);
        end = p + s.len();
    });
    if at.is_none() { v().fds.get_mut(&fd).unwrap().pos = end }
    v().log("write", &path, fd, ino, m as i64, 0, &s, fk);
    m as ssize_t
}

#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !simmed() || fd < FD_BASE { return real!(SYS_write, fd, buf, n) as ssize_t }
    do_write(fd, buf.cast(), n, None)
}
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if !simmed() || fd < FD_BASE { return real!(SYS_pwrite64, fd, buf, n, off) as ssize_t }
    do_write(fd, buf.cast(), n, Some(off as usize))
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !simmed() || fd < FD_BASE { return real!(SYS_writev, fd, iov, n) as ssize_t }
    let mut all = vec![];
    for i in 0..n as usize { let io = &*iov.add(i); all.extend_from_slice(std::slice::from_raw_parts(io.iov_base as *const u8, io.iov_len)) }
    do_write(fd, all.as_ptr(), all.len(), None)
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if !simmed() || fd < FD_BASE { return real!(SYS_lseek, fd, off, whence) }
    let (ino, pos) = match v().fds.get(&fd) { Some(f) => (f.ino, f.pos), None => return err(libc::EBADF) };
    let len = v().cur().file(ino).map_or(0, |d| d.len());
    let base = match whence { libc::SEEK_SET => 0, libc::SEEK_CUR => pos as i64, libc::SEEK_END => len as i64, _ => return err(libc::EINVAL) };
    if base + off < 0 { return err(libc::EINVAL) }
    v().fds.get_mut(&fd).unwrap().pos = (base + off) as usize;
    base + off
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if !simmed() || fd < FD_BASE { return real!(SYS_ftruncate, fd, n) as c_int }
    point(Kind::Sys);
    let ino = match v().fds.get(&fd) { Some(f) => f.ino, None => return err(libc::EBADF) as c_int };
    v().change(|t| if let Some(Node::File { data, .. }) = t.nodes.get_mut(&ino) { Rc::make_mut(data).resize(n as usize, 0) });
    0
}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { if !simmed() || fd < FD_BASE { return real!(SYS_fsync, fd) as c_int } point(Kind::Sys); 0 }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { if !simmed() || fd < FD_BASE { return real!(SYS_fdatasync, fd) as c_int } point(Kind::Sys); 0 }
#[no_mangle] pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int { if !simmed() || fd < FD_BASE { return real!(SYS_flock, fd, op) as c_int } point(Kind::Sys); 0 }
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !simmed() || fd < FD_BASE { return real!(SYS_fcntl, fd, cmd, arg) as c_int }
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            let (ino, flags, path) = match v().fds.get(&fd) { Some(f) => (f.ino, f.flags, f.path.clone()), None => return err(libc::EBADF) as c_int };
            new_fd(ino, flags, &path)
        }
        libc::F_GETFL => v().fds.get(&fd).map_or(-1, |f| f.flags & !libc::O_CLOEXEC),
        _ => 0,
    }
}
#[no_mangle] pub unsafe extern "C" fn copy_file_range(_: c_int, _: *mut off64_t, _: c_int, _: *mut off64_t, _: size_t, _: c_uint) -> ssize_t { err(libc::ENOSYS) as ssize_t }
#[no_mangle] pub unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut off64_t, _: size_t) -> ssize_t { err(libc::ENOSYS) as ssize_t }

// ---- metadata ----

struct Attr { mode: u32, size: u64, ino: u32 }

fn attr_of(i: u32) -> Attr {
    match v().cur().nodes.get(&i) {
        Some(Node::File { data, readable }) => Attr { mode: libc::S_IFREG | if *readable { 0o644 } else { 0 }, size: data.len() as u64, ino: i },
        Some(Node::Dir { search, .. }) => Attr { mode: libc::S_IFDIR | if *search { 0o755 } else { 0 }, size: 4096, ino: i },
        Some(Node::Link(t)) => Attr { mode: libc::S_IFLNK | 0o777, size: t.len() as u64, ino: i },
        _ => Attr { mode: libc::S_IFIFO | 0o644, size: 0, ino: i },
    }
}

unsafe fn do_stat(dirfd: c_int, p: &[u8], follow: bool, empty: bool) -> Result<Attr, c_int> {
    point(Kind::Sys);
    if p.is_empty() && empty {
        let ino = match v().fds.get(&dirfd) { Some(f) => f.ino, None => return Err(libc::EBADF) };
        let mut a = attr_of(ino);
        match fault(&[F_SIZE_LIE, F_STAT_ERR]) {
            Some((k @ F_STAT_ERR, _)) => { v().log("fstat", p, dirfd, ino, -1, libc::EIO, &[], Some(k)); return Err(libc::EIO) }
            Some((_, x)) => a.size = match x % 4 { 0 => 0, 1 => a.size / 2, 2 => a.size + 1 + (x >> 8) as u64 % 100, _ => a.size * 3 + 7 },
            None => {}
        }
        return Ok(a);
    }
    let hit = fault(&[F_STAT_ERR]);
    if let Some((k, x)) = hit {
        let e = pick_errno(x, &[libc::EACCES, libc::EIO, libc::ELOOP, libc::ENOMEM]);
        v().log("stat", p, -1, 0, -1, e, &[], Some(k));
        return Err(e);
    }
    let base = if p.first() == Some(&b'/') { 1 } else { base_of(dirfd)? };
    match v().cur().lookup_at(base, p, follow) {
        Ok(i) => { let a = attr_of(i); v().log("stat", p, -1, i, a.mode as i64, 0, &[], None); Ok(a) }
        Err(e) => { v().log("stat", p, -1, 0, -1, e, &[], None); Err(e) }
    }
}

/// In some runs not everything is on one device.
fn dev_of(ino: u32) -> u64 { if v().dir_seed % 8 == 1 { ino as u64 % 3 } else { 0 } }

unsafe fn fill(a: &Attr, st: *mut libc::stat64) {
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_mode = a.mode; (*st).st_size = a.size as i64; (*st).st_ino = a.ino as u64; (*st).st_nlink = 1; (*st).st_dev = 77 + dev_of(a.ino); (*st).st_blksize = 4096;
}

#[no_mangle] pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if !simmed() || (d >= 0 && d < FD_BASE) { return real!(SYS_statx, d, p, flags, mask, out) as c_int }
    match do_stat(d, if p.is_null() { b"" } else { bytes(p) }, flags & libc::AT_SYMLINK_NOFOLLOW == 0, p.is_null() || flags & libc::AT_EMPTY_PATH != 0) {
        Ok(a) => {
            std::ptr::write_bytes(out, 0, 1);
            let o = &mut *out;
            o.stx_mask = libc::STATX_BASIC_STATS; o.stx_mode = a.mode as u16; o.stx_size = a.size; o.stx_ino = a.ino as u64; o.stx_nlink = 1; o.stx_blksize = 4096; o.stx_dev_major = 7; o.stx_dev_minor = dev_of(a.ino) as u32;
            0
        }
        Err(e) => err(e) as c_int,
    }
}
#[no_mangle] pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    if !simmed() || (d >= 0 && d < FD_BASE) { return real!(SYS_newfstatat, d, p, st, flags) as c_int }
    match do_stat(d, bytes(p), flags & libc::AT_SYMLINK_NOFOLLOW == 0, flags & libc::AT_EMPTY_PATH != 0) { Ok(a) => { fill(&a, st); 0 } Err(e) => err(e) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int { fstatat64(libc::AT_FDCWD, p, st, 0) }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int { fstatat64(libc::AT_FDCWD, p, st, libc::AT_SYMLINK_NOFOLLOW) }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int { fstatat64(fd, c"".as_ptr(), st, libc::AT_EMPTY_PATH) }
#[no_mangle] pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if !simmed() { return real!(SYS_access, p, m) as c_int }
    match do_stat(libc::AT_FDCWD, bytes(p), true, false) { Ok(_) => 0, Err(e) => err(e) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if !simmed() { return real!(SYS_readlink, p, buf, n) as ssize_t }
    point(Kind::Sys);
    let t = v().cur();
    match t.lookup_at(t.cwd, bytes(p), false) {
        Ok(i) => match &t.nodes[&i] {
            Node::Link(l) => { let m = l.len().min(n); std::ptr::copy_nonoverlapping(l.as_ptr(), buf.cast(), m); m as ssize_t }
            _ => err(libc::EINVAL) as ssize_t,
        },
        Err(e) => err(e) as ssize_t,
    }
}

// ---- tree changes ----

unsafe fn tree_op(call: &'static str, p: &[u8], kinds: &[usize], errs: &[i32], f: impl FnOnce(&mut Tree) -> Result<(), i32>) -> c_int {
    point(Kind::Sys);
    if let Some((k, x)) = fault(kinds) {
        let e = if k == F_MKDIR_EXIST { libc::EEXIST } else { pick_errno(x, errs) };
        v().log(call, p, -1, 0, -1, e, &[], Some(k));
        return err(e) as c_int;
    }
    let r = v().change(f);
    match r {
        Ok(()) => { v().log(call, p, -1, 0, 0, 0, &[], None); 0 }
        Err(e) => { v().vfs_undo(); v().log(call, p, -1, 0, -1, e, &[], None); err(e) as c_int }
    }
}

impl Vfs { fn vfs_undo(&mut self) { if self.hist.len() > 1 { self.hist.pop(); } } }

#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    if !simmed() { return real!(SYS_mkdir, p, m) as c_int }
    let b = bytes(p);
    // a name collision only makes sense for a random name
    let tmp = b.windows(4).any(|w| w == b".tmp");
    let kinds: &[usize] = if tmp { &[F_MKDIR_EXIST, F_MKDIR_ERR] } else { &[F_MKDIR_ERR] };
    tree_op("mkdir", b, kinds, &[libc::ENOSPC, libc::EACCES, libc::EROFS, libc::EIO], |t| { let at = t.cwd; t.mkdir(at, b).map(|_| ()) })
}
#[no_mangle] pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, m: mode_t) -> c_int {
    if !simmed() { return real!(SYS_mkdirat, d, p, m) as c_int }
    let b = bytes(p);
    let at = match base_of(d) { Ok(x) => x, Err(e) => return err(e) as c_int };
    tree_op("mkdir", b, &[F_MKDIR_ERR], &[libc::ENOSPC, libc::EIO], |t| t.mkdir(at, b).map(|_| ()))
}

fn remove_at(t: &mut Tree, at: u32, p: &[u8], dir: bool) -> Result<(), i32> {
    match t.walk(at, p, false) {
        Res::Ok { ino: Some(i), name, parent } => {
            if name == b"." { return Err(libc::EINVAL) }
            if name == b".." { return Err(libc::ENOTEMPTY) }
            match (&t.nodes[&i], dir) {
                (Node::Dir { ents, .. }, true) => { if !ents.is_empty() { return Err(libc::ENOTEMPTY) } if i == 1 { return Err(libc::EBUSY) } }
                (Node::Dir { .. }, false) => return Err(libc::EISDIR),
                (_, true) => return Err(libc::ENOTDIR),
                _ => {}
            }
            if let Some(Node::Dir { ents, .. }) = t.nodes.get_mut(&parent) { ents.remove(&name); }
            Ok(())
        }
        Res::Ok { .. } => Err(libc::ENOENT),
        Res::Err(e) => Err(e),
    }
}

#[no_mangle] pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    if !simmed() { return real!(SYS_unlinkat, d, p, flags) as c_int }
    let b = bytes(p);
    let at = match base_of(d) { Ok(x) => x, Err(e) => return err(e) as c_int };
    let dir = flags & libc::AT_REMOVEDIR != 0;
    tree_op(if dir { "rmdir" } else { "unlink" }, b, &[F_UNLINK_ERR], &[libc::EACCES, libc::EBUSY, libc::EIO, libc::EROFS], |t| remove_at(t, at, b, dir))
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int { unlinkat(libc::AT_FDCWD, p, 0) }
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int { unlinkat(libc::AT_FDCWD, p, libc::AT_REMOVEDIR) }
#[no_mangle] pub unsafe extern "C" fn remove(p: *const c_char) -> c_int { let r = unlink(p); if r < 0 && *libc::__errno_location() == libc::EISDIR { rmdir(p) } else { r } }
#[no_mangle] pub unsafe extern "C" fn renameat(a: c_int, p: *const c_char, c: c_int, q: *const c_char) -> c_int {
    if !simmed() { return real!(SYS_renameat, a, p, c, q) as c_int }
    let (x, y) = match (base_of(a), base_of(c)) { (Ok(x), Ok(y)) => (x, y), _ => return err(libc::EBADF) as c_int };
    let (b, e) = (bytes(p), bytes(q));
    tree_op("rename", b, &[], &[], |t| t.rename(x, b, y, e))
}
#[no_mangle] pub unsafe extern "C" fn rename(p: *const c_char, q: *const c_char) -> c_int { renameat(libc::AT_FDCWD, p, libc::AT_FDCWD, q) }
#[no_mangle] pub unsafe extern "C" fn symlink(target: *const c_char, p: *const c_char) -> c_int {
    if !simmed() { return real!(SYS_symlink, target, p) as c_int }
    let (t, b) = (bytes(target).to_vec(), bytes(p));
    tree_op("symlink", b, &[], &[], |tr| tr.put_node(b, Node::Link(t)).map(|_| ()))
}
#[no_mangle] pub unsafe extern "C" fn linkat(_: c_int, p: *const c_char, _: c_int, q: *const c_char, _: c_int) -> c_int {
    if !simmed() { return real!(SYS_link, p, q) as c_int }
    let (a, b) = (bytes(p), bytes(q));
    tree_op("link", b, &[], &[], |t| {
        let i = t.lookup(a)?;
        match t.walk(t.cwd, b, false) {
            Res::Ok { ino: Some(_), .. } => Err(libc::EEXIST),
            Res::Ok { parent, name, .. } => { if let Some(Node::Dir { ents, .. }) = t.nodes.get_mut(&parent) { ents.insert(name, i); } Ok(()) }
            Res::Err(e) => Err(e),
        }
    })
}
#[no_mangle] pub unsafe extern "C" fn link(p: *const c_char, q: *const c_char) -> c_int { linkat(0, p, 0, q, 0) }
#[no_mangle] pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int { if !simmed() { return real!(SYS_chmod, p, m) as c_int } 0 }
#[no_mangle] pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int { if !simmed() || fd < FD_BASE { return real!(SYS_fchmod, fd, m) as c_int } 0 }
#[no_mangle] pub unsafe extern "C" fn fchmodat(d: c_int, p: *const c_char, m: mode_t, f: c_int) -> c_int { if !simmed() { return real!(SYS_fchmodat, d, p, m, f) as c_int } 0 }

// ---- working directory ----

#[no_mangle] pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if !simmed() {
        let r = real!(SYS_getcwd, buf, n);
        return if r < 0 { std::ptr::null_mut() } else { buf };
    }
    point(Kind::Sys);
    if let Some((k, x)) = fault(&[F_GETCWD_ERR]) {
        let e = pick_errno(x, &[libc::ENOENT, libc::EACCES, libc::ENOMEM]);
        v().log("getcwd", &[], -1, 0, -1, e, &[], Some(k));
        err(e);
        return std::ptr::null_mut();
    }
    let t = v().cur();
    match t.path_of(t.cwd) {
        Some(p) => {
            if p.len() + 1 > n { err(libc::ERANGE); return std::ptr::null_mut() }
            std::ptr::copy_nonoverlapping(p.as_ptr(), buf.cast(), p.len());
            *buf.add(p.len()) = 0;
            let c = t.cwd;
            v().log("getcwd", &p, -1, c, 0, 0, &[], None);
            buf
        }
        None => { v().log("getcwd", &[], -1, 0, -1, libc::ENOENT, &[], None); err(libc::ENOENT); std::ptr::null_mut() }
    }
}
unsafe fn do_chdir(ino: Result<u32, c_int>, p: &[u8]) -> c_int {
    let r = ino.and_then(|i| match v().cur().nodes.get(&i) {
        Some(Node::Dir { search: true, .. }) => Ok(i),
        Some(Node::Dir { .. }) => Err(libc::EACCES),
        _ => Err(libc::ENOTDIR),
    });
    match r {
        Ok(i) => { v().change(|t| t.cwd = i); v().log("chdir", p, -1, i, 0, 0, &[], None); 0 }
        Err(e) => { v().log("chdir", p, -1, 0, -1, e, &[], None); err(e) as c_int }
    }
}
#[no_mangle] pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if !simmed() { return real!(SYS_chdir, p) as c_int }
    point(Kind::Sys);
    let b = bytes(p);
    if let Some((k, x)) = fault(&[F_CHDIR_ERR]) {
        let e = pick_errno(x, &[libc::EACCES, libc::EIO, libc::ENOMEM]);
        v().log("chdir", b, -1, 0, -1, e, &[], Some(k));
        return err(e) as c_int;
    }
    do_chdir(v().cur().lookup(b), b)
}
#[no_mangle] pub unsafe extern "C" fn fchdir(fd: c_int) -> c_int {
    if !simmed() { return real!(SYS_fchdir, fd) as c_int }
    point(Kind::Sys);
    do_chdir(v().fds.get(&fd).map(|f| f.ino).ok_or(libc::EBADF), b"<fd>")
}
#[no_mangle] pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if !simmed() {
        type F = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
        let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"realpath".as_ptr()));
        return f(p, out);
    }
    point(Kind::Sys);
    let b = bytes(p);
    if let Some((k, x)) = fault(&[F_REALPATH_ERR]) {
        let e = pick_errno(x, &[libc::EACCES, libc::EIO, libc::ENOMEM]);
        v().log("realpath", b, -1, 0, -1, e, &[], Some(k));
        err(e);
        return std::ptr::null_mut();
    }
    let t = v().cur();
    let r = match t.walk(t.cwd, b, true) {
        Res::Ok { parent, name, ino: Some(i) } => match t.nodes[&i] {
            Node::Dir { .. } => t.path_of(i).ok_or(libc::ENOENT),
            _ => t.path_of(parent).map(|mut d| { if d != b"/" { d.push(b'/') } d.extend(&name); d }).ok_or(libc::ENOENT),
        },
        Res::Ok { .. } => Err(libc::ENOENT),
        Res::Err(e) => Err(e),
    };
    match r {
        Ok(p) => {
            let o = if out.is_null() { libc::malloc(p.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(p.as_ptr(), o.cast(), p.len());
            *o.add(p.len()) = 0;
            v().log("realpath", b, -1, 0, 0, 0, &[], None);
            o
        }
        Err(e) => { v().log("realpath", b, -1, 0, -1, e, &[], None); err(e); std::ptr::null_mut() }
    }
}

// ---- directory streams ----

struct Dir { fd: c_int, names: Vec<(Vec<u8>, u32)>, at: usize, ent: libc::dirent64 }
static mut DIRS: Vec<usize> = Vec::new();
#[allow(static_mut_refs)]
unsafe fn is_dir(p: *mut c_void) -> bool { DIRS.contains(&(p as usize)) }

unsafe fn make_dir(fd: c_int, ino: u32) -> *mut c_void {
    let mut names: Vec<(Vec<u8>, u32)> = v().cur().dir(ino).map(|e| e.iter().map(|(k, i)| (k.clone(), *i)).collect()).unwrap_or_default();
    // directory order is up to the file system
    let mut r = crate::rng::Rng::new(v().dir_seed ^ ino as u64);
    r.shuffle(&mut names);
    let d = Box::into_raw(Box::new(Dir { fd, names, at: 0, ent: std::mem::zeroed() })) as *mut c_void;
    #[allow(static_mut_refs)]
    DIRS.push(d as usize);
    d
}
#[no_mangle] pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if !simmed() || fd < FD_BASE {
        type F = unsafe extern "C" fn(c_int) -> *mut c_void;
        let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"fdopendir".as_ptr()));
        return f(fd);
    }
    match v().fds.get(&fd).map(|f| f.ino) {
        Some(i) if v().cur().dir(i).is_some() => make_dir(fd, i),
        Some(_) => { err(libc::ENOTDIR); std::ptr::null_mut() }
        None => { err(libc::EBADF); std::ptr::null_mut() }
    }
}
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if !simmed() {
        type F = unsafe extern "C" fn(*const c_char) -> *mut c_void;
        let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"opendir".as_ptr()));
        return f(p);
    }
    let fd = do_open(libc::AT_FDCWD, p, libc::O_RDONLY | libc::O_DIRECTORY, 0);
    if fd < 0 { return std::ptr::null_mut() }
    fdopendir(fd)
}
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if !is_dir(d) {
        type F = unsafe extern "C" fn(*mut c_void) -> *mut libc::dirent64;
        let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"readdir64".as_ptr()));
        return f(d);
    }
    point(Kind::Sys);
    if let Some((k, _)) = fault(&[F_READDIR_ERR]) { v().log("readdir", &[], -1, 0, -1, libc::EIO, &[], Some(k)); err(libc::EIO); return std::ptr::null_mut() }
    let d = &mut *(d as *mut Dir);
    if d.at >= d.names.len() { return std::ptr::null_mut() }
    let (n, i) = &d.names[d.at];
    d.at += 1;
    d.ent.d_ino = *i as u64;
    d.ent.d_off = d.at as i64;
    d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    d.ent.d_type = match v().cur().nodes.get(i) { Some(Node::Dir { .. }) => libc::DT_DIR, Some(Node::File { .. }) => libc::DT_REG, Some(Node::Link(_)) => libc::DT_LNK, _ => libc::DT_FIFO };
    for (k, b) in n.iter().enumerate() { d.ent.d_name[k] = *b as c_char }
    d.ent.d_name[n.len()] = 0;
    &mut d.ent
}
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if !is_dir(d) {
        type F = unsafe extern "C" fn(*mut c_void) -> c_int;
        let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"closedir".as_ptr()));
        return f(d);
    }
    #[allow(static_mut_refs)]
    DIRS.retain(|x| *x != d as usize);
    let b = Box::from_raw(d as *mut Dir);
    v().fds.remove(&b.fd);
    0
}
#[no_mangle] pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if !is_dir(d) {
        type F = unsafe extern "C" fn(*mut c_void) -> c_int;
        let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"dirfd".as_ptr()));
        return f(d);
    }
    (*(d as *mut Dir)).fd
}

// ---- time, randomness, threads ----

#[no_mangle] pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    if !simmed() { return real!(SYS_clock_gettime, c, t) as c_int }
    let now = sim().clock;
    (*t).tv_sec = (now / 1_000_000_000) as i64;
    (*t).tv_nsec = (now % 1_000_000_000) as i64;
    0
}
unsafe fn do_sleep(ns: u64) {
    let s = sim();
    let d = s.clock.saturating_add(ns);
    s.block(usize::MAX, d);
}
#[no_mangle] pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if !simmed() { return real!(SYS_nanosleep, a, b) as c_int }
    do_sleep((*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64);
    0
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(c: libc::clockid_t, flags: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if !simmed() { return sc6(libc::SYS_clock_nanosleep, c as i64, flags as i64, a as i64, b as i64, 0, 0).abs() as c_int }
    let t = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
    do_sleep(if flags & libc::TIMER_ABSTIME != 0 { t.saturating_sub(sim().clock) } else { t });
    0
}
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int {
    if !simmed() { return real!(SYS_sched_yield) as c_int }
    point(Kind::Yield);
    0
}
#[no_mangle] pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if !simmed() { return real!(SYS_getrandom, buf, n, flags) as ssize_t }
    let s = sim();
    for i in 0..n { *(buf as *mut u8).add(i) = s.vrng.next() as u8 }
    n as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if !simmed() { return ret(sc6(n, a, b, c, d, e, f)) }
    match n {
        libc::SYS_futex => futex(a as *const u32, b as c_int, c as u32, d as *const libc::timespec, f as u32),
        libc::SYS_getrandom => getrandom(a as *mut c_void, b as usize, 0) as c_long,
        libc::SYS_gettid => 1000 + TASK.with(|t| t.get()) as c_long,
        libc::SYS_sched_yield => sched_yield() as c_long,
        // nothing else may reach the real system from a simulated task
        _ => err(libc::ENOSYS),
    }
}
unsafe fn futex(addr: *const u32, op: c_int, val: u32, ts: *const libc::timespec, _bits: u32) -> c_long {
    const CMD: c_int = 127;
    match op & CMD {
        0 | 9 => {
            point(Kind::Sys);
            let s = sim();
            if std::ptr::read_volatile(addr) != val { return err(libc::EAGAIN) }
            if let Some(_) = fault(&[F_SPURIOUS]) { return 0 }
            let deadline = if ts.is_null() { u64::MAX } else {
                let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                if op & CMD == 9 { t } else { s.clock.saturating_add(t) }
            };
            if s.block(addr as usize, deadline) { err(libc::ETIMEDOUT) } else { 0 }
        }
        1 | 10 => {
            let n = sim().wake(addr as usize, val as usize) as c_long;
            point(Kind::Sys);
            n
        }
        _ => err(libc::ENOSYS),
    }
}

// ---- environment: the real one, its changes recorded ----

extern "C" { static mut environ: *mut *mut c_char; }

pub fn env_now() -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut out = vec![];
    unsafe {
        let mut p = environ;
        if p.is_null() { return out }
        while !(*p).is_null() {
            let b = CStr::from_ptr(*p).to_bytes();
            if let Some(i) = b.iter().skip(1).position(|c| *c == b'=') { out.push((b[..i + 1].to_vec(), b[i + 2..].to_vec())) }
            p = p.add(1);
        }
    }
    out
}
pub fn env_mark() {
    if simmed() || crate::sched::active() {
        let s = sim();
        if s.track_env { let n = env_now(); s.env_hist.push((s.steps, Rc::new(n))) }
    }
}
#[no_mangle] pub unsafe extern "C" fn setenv(k: *const c_char, val: *const c_char, over: c_int) -> c_int {
    type F = unsafe extern "C" fn(*const c_char, *const c_char, c_int) -> c_int;
    static mut REAL: Option<F> = None;
    #[allow(static_mut_refs)]
    if REAL.is_none() { REAL = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"setenv".as_ptr()))) }
    point(Kind::Sys);
    let r = REAL.unwrap()(k, val, over);
    if simmed() { sim().note(bytes(k).iter().chain(bytes(val)).fold(7, |h, b| crate::rng::mix(h ^ *b as u64))); env_mark() }
    r
}
#[no_mangle] pub unsafe extern "C" fn unsetenv(k: *const c_char) -> c_int {
    type F = unsafe extern "C" fn(*const c_char) -> c_int;
    static mut REAL: Option<F> = None;
    #[allow(static_mut_refs)]
    if REAL.is_none() { REAL = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"unsetenv".as_ptr()))) }
    point(Kind::Sys);
    let r = REAL.unwrap()(k);
    if simmed() { sim().note(bytes(k).iter().fold(9, |h, b| crate::rng::mix(h ^ *b as u64))); env_mark() }
    r
}
/// Replaces the whole environment, in this order.
pub fn env_reset(vars: &[(Vec<u8>, Vec<u8>)]) {
    unsafe {
        libc::clearenv();
        for (k, val) in vars {
            let k = std::ffi::CString::new(k.clone()).unwrap();
            let val = std::ffi::CString::new(val.clone()).unwrap();
            setenv(k.as_ptr(), val.as_ptr(), 1);
        }
    }
}
