//! The C library symbols the simulated program links against. While a process
//! is simulated they are served by the simulated machine; in the driver they
//! go to the real kernel.
use crate::alloc;
use crate::kernel::*;
use crate::raw::{sc3, sc6};
use crate::vfs::KR;
use libc::*;

#[inline]
fn sim() -> bool {
    simulating() && alloc::mode() == 0
}

unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}

unsafe fn fin(r: KR<i64>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

unsafe fn rawret(r: isize) -> i64 {
    if r < 0 {
        set_errno(-r as i32);
        -1
    } else {
        r as i64
    }
}

unsafe fn cs<'a>(p: *const c_char) -> &'a [u8] {
    let n = crate::sys::cstrlen(p);
    std::slice::from_raw_parts(p as *const u8, n)
}
pub unsafe fn cstrlen(p: *const c_char) -> usize {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    n
}

fn k(name: &'static str, f: impl FnOnce(&mut World, u32) -> KR<i64>) -> i64 {
    let r = kcall(|w, pid| {
        let r = f(w, pid);
        if let Err(e) = r {
            w.note(e as u64 ^ 0xBAD);
            w.log(|| format!("[{}] {} failed: {}", pid, name, errname(e)));
        }
        r
    });
    unsafe { fin(r) }
}

/// The simulated program used something the simulator does not model.
fn unsupported(name: &str) {
    kcall(|w, pid| {
        w.stats.add(&format!("unmodelled.{}", name), 1);
        w.log(|| format!("[{}] unmodelled call {}", pid, name));
        let n = name.to_string();
        w.p(pid).unsupported.push(n);
    });
}

macro_rules! nosys {
    ($($name:ident),* $(,)?) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name() -> c_int {
            if sim() { unsupported(stringify!($name)); }
            set_errno(ENOSYS);
            -1
        }
    )* };
}

nosys!(
    fork, vfork, execvp, execve, execv, pidfd_spawnp, pidfd_getpid, socket, socketpair, bind, connect, listen, accept4,
    accept, send, sendto, sendmsg, recv, recvfrom, recvmsg, getsockname, getpeername, getsockopt, setsockopt, shutdown,
    chroot, mkfifo, mkfifoat, mknod, mknodat, gethostname, pause, setsid, setpgid, setgroups, setuid, setgid, killpg,
    inotify_init, inotify_init1, inotify_add_watch, epoll_create, epoll_create1, eventfd, timerfd_create, memfd_create,
    select, pselect, ppoll, sendmmsg, recvmmsg, mount, umount, umount2
);

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(_a: *const c_char, _b: *const c_char, _c: *const c_void, _d: *mut c_void) -> c_int {
    if sim() {
        unsupported("getaddrinfo");
    }
    EAI_FAIL
}

// ------------------------------------------------------------------ open etc.

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: c_uint) -> c_int {
    openat64(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !sim() {
        return rawret(sc6(SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    }
    k("open", |w, pid| w.sys_open(pid, d, cs(p), flags, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_close, fd as usize, 0, 0)) as c_int;
    }
    k("close", |w, pid| w.sys_close(pid, fd)) as c_int
}

unsafe fn do_read(fd: c_int, b: *mut c_void, n: size_t, at: Option<u64>) -> ssize_t {
    k("read", |w, pid| {
        let v = w.sys_read(pid, fd, n, at)?;
        std::ptr::copy_nonoverlapping(v.as_ptr(), b as *mut u8, v.len());
        Ok(v.len() as i64)
    }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if !sim() {
        return rawret(sc3(SYS_read, fd as usize, b as usize, n)) as ssize_t;
    }
    do_read(fd, b, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if !sim() {
        return rawret(sc6(SYS_pread64, fd as usize, b as usize, n, off as usize, 0, 0)) as ssize_t;
    }
    do_read(fd, b, n, Some(off as u64))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, off: i64) -> ssize_t {
    pread64(fd, b, n, off)
}
unsafe fn do_write(fd: c_int, b: *const c_void, n: size_t, at: Option<u64>) -> ssize_t {
    k("write", |w, pid| w.sys_write(pid, fd, std::slice::from_raw_parts(b as *const u8, n), at)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if !sim() {
        return rawret(sc3(SYS_write, fd as usize, b as usize, n)) as ssize_t;
    }
    do_write(fd, b, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: i64) -> ssize_t {
    if !sim() {
        return rawret(sc6(SYS_pwrite64, fd as usize, b as usize, n, off as usize, 0, 0)) as ssize_t;
    }
    do_write(fd, b, n, Some(off as u64))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, off: i64) -> ssize_t {
    pwrite64(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if !sim() {
        return rawret(sc3(SYS_readv, fd as usize, iov as usize, n as usize)) as ssize_t;
    }
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return do_read(fd, v.iov_base, v.iov_len, None);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if !sim() {
        return rawret(sc3(SYS_writev, fd as usize, iov as usize, n as usize)) as ssize_t;
    }
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return do_write(fd, v.iov_base, v.iov_len, None);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn preadv(fd: c_int, iov: *const iovec, n: c_int, off: i64) -> ssize_t {
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return pread64(fd, v.iov_base, v.iov_len, off);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, iov: *const iovec, n: c_int, off: i64) -> ssize_t {
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return pwrite64(fd, v.iov_base, v.iov_len, off);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if !sim() {
        return rawret(sc3(SYS_lseek, fd as usize, off as usize, wh as usize));
    }
    k("lseek", |w, pid| w.sys_lseek(pid, fd, off, wh))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    lseek64(fd, off, wh)
}

// ---------------------------------------------------------------------- stat

unsafe fn fill64(o: *mut stat64, s: &crate::files::StatOut) {
    std::ptr::write_bytes(o as *mut u8, 0, std::mem::size_of::<stat64>());
    let o = &mut *o;
    o.st_dev = s.dev;
    o.st_ino = s.ino;
    o.st_nlink = s.nlink;
    o.st_mode = s.mode;
    o.st_size = s.size as i64;
    o.st_blksize = 4096;
    o.st_blocks = (s.size as i64 + 511) / 512;
    o.st_mtime = s.mtime.0;
    o.st_mtime_nsec = s.mtime.1 as i64;
    o.st_atime = s.atime.0;
    o.st_atime_nsec = s.atime.1 as i64;
    o.st_ctime = s.ctime.0;
    o.st_ctime_nsec = s.ctime.1 as i64;
}

unsafe fn do_stat(d: c_int, p: *const c_char, o: *mut stat64, follow: bool) -> c_int {
    k("stat", |w, pid| {
        let s = w.sys_stat(pid, d, cs(p), follow)?;
        fill64(o, &s);
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, o: *mut stat64) -> c_int {
    if !sim() {
        return rawret(sc6(SYS_newfstatat, AT_FDCWD as usize, p as usize, o as usize, 0, 0, 0)) as c_int;
    }
    do_stat(AT_FDCWD, p, o, true)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, o: *mut stat64) -> c_int {
    self::stat64(p, o)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, o: *mut stat64) -> c_int {
    if !sim() {
        return rawret(sc6(SYS_newfstatat, AT_FDCWD as usize, p as usize, o as usize, AT_SYMLINK_NOFOLLOW as usize, 0, 0)) as c_int;
    }
    do_stat(AT_FDCWD, p, o, false)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, o: *mut stat64) -> c_int {
    self::lstat64(p, o)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, o: *mut stat64) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_fstat, fd as usize, o as usize, 0)) as c_int;
    }
    k("fstat", |w, pid| {
        let s = w.sys_fstat(pid, fd)?;
        fill64(o, &s);
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, o: *mut stat64) -> c_int {
    self::fstat64(fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, o: *mut stat64, fl: c_int) -> c_int {
    if !sim() {
        return rawret(sc6(SYS_newfstatat, d as usize, p as usize, o as usize, fl as usize, 0, 0)) as c_int;
    }
    if fl & AT_EMPTY_PATH != 0 && *p == 0 {
        return self::fstat64(d, o);
    }
    do_stat(d, p, o, fl & AT_SYMLINK_NOFOLLOW == 0)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, o: *mut stat64, fl: c_int) -> c_int {
    self::fstatat64(d, p, o, fl)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, o: *mut libc::statx) -> c_int {
    if !sim() {
        return rawret(sc6(SYS_statx, d as usize, p as usize, fl as usize, mask as usize, o as usize, 0)) as c_int;
    }
    if p.is_null() || o.is_null() {
        // std probes availability this way
        set_errno(EFAULT);
        return -1;
    }
    k("statx", |w, pid| {
        let path = cs(p);
        let s = if path.is_empty() && fl & AT_EMPTY_PATH != 0 {
            w.sys_fstat(pid, d)?
        } else {
            w.sys_stat(pid, d, path, fl & AT_SYMLINK_NOFOLLOW == 0)?
        };
        std::ptr::write_bytes(o as *mut u8, 0, std::mem::size_of::<libc::statx>());
        let o = &mut *o;
        o.stx_mask = STATX_BASIC_STATS;
        o.stx_blksize = 4096;
        o.stx_nlink = s.nlink as u32;
        o.stx_mode = s.mode as u16;
        o.stx_ino = s.ino;
        o.stx_size = s.size;
        o.stx_blocks = (s.size + 511) / 512;
        o.stx_dev_minor = s.dev as u32;
        o.stx_mtime.tv_sec = s.mtime.0;
        o.stx_mtime.tv_nsec = s.mtime.1;
        o.stx_atime.tv_sec = s.atime.0;
        o.stx_atime.tv_nsec = s.atime.1;
        o.stx_ctime.tv_sec = s.ctime.0;
        o.stx_ctime.tv_nsec = s.ctime.1;
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    faccessat(AT_FDCWD, p, m, 0)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, fl: c_int) -> c_int {
    if !sim() {
        return rawret(sc6(SYS_faccessat, d as usize, p as usize, m as usize, fl as usize, 0, 0)) as c_int;
    }
    k("access", |w, pid| w.sys_access(pid, d, cs(p))) as c_int
}

// ---------------------------------------------------------- names and links

#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    mkdirat(AT_FDCWD, p, mode)
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, mode: mode_t) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_mkdirat, d as usize, p as usize, mode as usize)) as c_int;
    }
    k("mkdir", |w, pid| w.sys_mkdir(pid, d, cs(p), mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    unlinkat(AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    unlinkat(AT_FDCWD, p, AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn remove(p: *const c_char) -> c_int {
    let r = unlinkat(AT_FDCWD, p, 0);
    if r < 0 && *__errno_location() == EISDIR {
        return unlinkat(AT_FDCWD, p, AT_REMOVEDIR);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_unlinkat, d as usize, p as usize, fl as usize)) as c_int;
    }
    k("unlink", |w, pid| w.sys_unlink(pid, d, cs(p), fl & AT_REMOVEDIR != 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat2(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    renameat2(d1, a, d2, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_uint) -> c_int {
    if !sim() {
        return rawret(sc6(SYS_renameat2, d1 as usize, a as usize, d2 as usize, b as usize, fl as usize, 0)) as c_int;
    }
    k("rename", |w, pid| w.sys_rename(pid, d1, cs(a), d2, cs(b), fl)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> c_int {
    symlinkat(t, AT_FDCWD, p)
}
#[no_mangle]
pub unsafe extern "C" fn symlinkat(t: *const c_char, d: c_int, p: *const c_char) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_symlinkat, t as usize, d as usize, p as usize)) as c_int;
    }
    k("symlink", |w, pid| w.sys_symlink(pid, cs(t), d, cs(p))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    if !sim() {
        return rawret(sc6(SYS_linkat, d1 as usize, a as usize, d2 as usize, b as usize, fl as usize, 0)) as c_int;
    }
    k("link", |w, pid| w.sys_link(pid, d1, cs(a), d2, cs(b), fl & AT_SYMLINK_FOLLOW != 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    readlinkat(AT_FDCWD, p, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn readlinkat(d: c_int, p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if !sim() {
        return rawret(sc6(SYS_readlinkat, d as usize, p as usize, b as usize, n, 0, 0)) as ssize_t;
    }
    k("readlink", |w, pid| {
        let v = w.sys_readlink(pid, d, cs(p))?;
        let m = v.len().min(n);
        std::ptr::copy_nonoverlapping(v.as_ptr(), b as *mut u8, m);
        Ok(m as i64)
    }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if !sim() {
        set_errno(ENOSYS);
        return std::ptr::null_mut();
    }
    let mut dst = out;
    let mut tmp = [0u8; 4200];
    let r = k("realpath", |w, pid| {
        let v = w.sys_realpath(pid, cs(p))?;
        tmp[..v.len()].copy_from_slice(&v);
        Ok(v.len() as i64)
    });
    if r < 0 {
        return std::ptr::null_mut();
    }
    if dst.is_null() {
        dst = malloc(4200) as *mut c_char;
    }
    std::ptr::copy_nonoverlapping(tmp.as_ptr(), dst as *mut u8, r as usize);
    *dst.add(r as usize) = 0;
    dst
}

// -------------------------------------------------------------- attributes

#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    fchmodat(AT_FDCWD, p, m, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(d: c_int, p: *const c_char, m: mode_t, fl: c_int) -> c_int {
    if !sim() {
        set_errno(ENOSYS);
        return -1;
    }
    k("chmod", |w, pid| w.sys_chmod(pid, d, Some(cs(p)), fl & AT_SYMLINK_NOFOLLOW == 0, Some(m))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if !sim() {
        set_errno(ENOSYS);
        return -1;
    }
    k("fchmod", |w, pid| w.sys_chmod(pid, fd, None, true, Some(m))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chown(p: *const c_char, _u: uid_t, _g: gid_t) -> c_int {
    if !sim() {
        set_errno(ENOSYS);
        return -1;
    }
    k("chown", |w, pid| w.sys_chmod(pid, AT_FDCWD, Some(cs(p)), true, None)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lchown(p: *const c_char, _u: uid_t, _g: gid_t) -> c_int {
    if !sim() {
        set_errno(ENOSYS);
        return -1;
    }
    k("lchown", |w, pid| w.sys_chmod(pid, AT_FDCWD, Some(cs(p)), false, None)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchown(fd: c_int, _u: uid_t, _g: gid_t) -> c_int {
    if !sim() {
        set_errno(ENOSYS);
        return -1;
    }
    k("fchown", |w, pid| w.sys_chmod(pid, fd, None, true, None)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn umask(m: mode_t) -> mode_t {
    if !sim() {
        return sc3(SYS_umask, m as usize, 0, 0) as mode_t;
    }
    kcall(|w, pid| {
        let o = w.p(pid).umask;
        w.p(pid).umask = m & 0o777;
        o
    })
}

unsafe fn times2(w: &World, t: *const timespec) -> (Option<(i64, u32)>, Option<(i64, u32)>) {
    let now = w.now();
    if t.is_null() {
        return (Some(now), Some(now));
    }
    let one = |x: &timespec| {
        if x.tv_nsec == UTIME_OMIT {
            None
        } else if x.tv_nsec == UTIME_NOW {
            Some(now)
        } else {
            Some((x.tv_sec, x.tv_nsec as u32))
        }
    };
    (one(&*t), one(&*t.add(1)))
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, t: *const timespec, fl: c_int) -> c_int {
    if !sim() {
        set_errno(ENOSYS);
        return -1;
    }
    k("utimensat", |w, pid| {
        let (a, m) = times2(w, t);
        w.sys_utimens(pid, d, if p.is_null() { None } else { Some(cs(p)) }, fl & AT_SYMLINK_NOFOLLOW == 0, a, m)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const timespec) -> c_int {
    utimensat(fd, std::ptr::null(), t, 0)
}
unsafe fn tv(t: *const timeval) -> [timespec; 2] {
    let c = |x: &timeval| timespec { tv_sec: x.tv_sec, tv_nsec: x.tv_usec * 1000 };
    if t.is_null() {
        let n = timespec { tv_sec: 0, tv_nsec: UTIME_NOW };
        return [n, n];
    }
    [c(&*t), c(&*t.add(1))]
}
#[no_mangle]
pub unsafe extern "C" fn utimes(p: *const c_char, t: *const timeval) -> c_int {
    let x = tv(t);
    utimensat(AT_FDCWD, p, x.as_ptr(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn lutimes(p: *const c_char, t: *const timeval) -> c_int {
    let x = tv(t);
    utimensat(AT_FDCWD, p, x.as_ptr(), AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn futimes(fd: c_int, t: *const timeval) -> c_int {
    let x = tv(t);
    utimensat(fd, std::ptr::null(), x.as_ptr(), 0)
}

// ------------------------------------------------------- size, sync, copying

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_ftruncate, fd as usize, n as usize, 0)) as c_int;
    }
    k("ftruncate", |w, pid| w.sys_truncate(pid, fd, n)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, n: i64) -> c_int {
    if !sim() {
        set_errno(ENOSYS);
        return -1;
    }
    k("truncate", |w, pid| w.sys_truncate_path(pid, cs(p), n)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate(p: *const c_char, n: i64) -> c_int {
    truncate64(p, n)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(_fd: c_int, _m: c_int, _o: i64, _l: i64) -> c_int {
    set_errno(EOPNOTSUPP);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(_fd: c_int, _o: i64, _l: i64) -> c_int {
    EOPNOTSUPP
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_fsync, fd as usize, 0, 0)) as c_int;
    }
    k("fsync", |w, pid| w.sys_fsync(pid, fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, _a: i64, _b: i64, _f: c_uint) -> c_int {
    let _ = fd;
    0
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(_fd: c_int) -> c_int {
    if !sim() {
        return 0;
    }
    k("syncfs", |w, pid| w.sys_sync(pid)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    if sim() {
        k("sync", |w, pid| w.sys_sync(pid));
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut i64, _c: c_int, _d: *mut i64, _n: size_t, _f: c_uint) -> ssize_t {
    set_errno(ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_a: c_int, _b: c_int, _c: *mut i64, _n: size_t) -> ssize_t {
    set_errno(EINVAL);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(_a: c_int, _b: c_int, _c: *mut i64, _n: size_t) -> ssize_t {
    set_errno(EINVAL);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn splice(_a: c_int, _b: *mut i64, _c: c_int, _d: *mut i64, _n: size_t, _f: c_uint) -> ssize_t {
    set_errno(EINVAL);
    -1
}

// --------------------------------------------------------------- directories

#[repr(C)]
pub struct DirStream {
    fd: c_int,
    loaded: bool,
    pos: usize,
    entries: Vec<(u64, u8, Vec<u8>)>,
    cur: dirent64,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DirStream {
    let fd = openat64(AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    fdopendir(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DirStream {
    if !sim() {
        set_errno(ENOSYS);
        return std::ptr::null_mut();
    }
    Box::into_raw(Box::new(DirStream { fd, loaded: false, pos: 0, entries: vec![], cur: std::mem::zeroed() }))
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DirStream) -> *mut dirent64 {
    let d = &mut *d;
    if !d.loaded {
        let fd = d.fd;
        let mut got: Vec<(u64, u8, Vec<u8>)> = Vec::new();
        let r = k("readdir", |w, pid| {
            let v = w.sys_getdents(pid, fd)?;
            // hand over a user-side copy
            let m = alloc::mode();
            alloc::set_mode(0);
            got = v.iter().map(|(a, b, c)| (*a, *b, c.to_vec())).collect();
            alloc::set_mode(m);
            Ok(0)
        });
        if r < 0 {
            return std::ptr::null_mut();
        }
        d.entries = got;
        d.loaded = true;
    }
    if d.pos >= d.entries.len() {
        return std::ptr::null_mut();
    }
    let (ino, t, name) = &d.entries[d.pos];
    d.cur = std::mem::zeroed();
    d.cur.d_ino = *ino;
    d.cur.d_type = *t;
    d.cur.d_off = d.pos as i64 + 1;
    d.cur.d_reclen = std::mem::size_of::<dirent64>() as u16;
    for (i, b) in name.iter().enumerate() {
        d.cur.d_name[i] = *b as c_char;
    }
    d.pos += 1;
    &mut d.cur
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut DirStream) -> *mut dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn rewinddir(d: *mut DirStream) {
    (*d).loaded = false;
    (*d).pos = 0;
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DirStream) -> c_int {
    let b = Box::from_raw(d);
    close(b.fd)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DirStream) -> c_int {
    (*d).fd
}

// ------------------------------------------------------------- descriptors

#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_dup, fd as usize, 0, 0)) as c_int;
    }
    k("dup", |w, pid| w.sys_dup(pid, fd, None, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup2(a: c_int, b: c_int) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_dup2, a as usize, b as usize, 0)) as c_int;
    }
    k("dup2", |w, pid| w.sys_dup(pid, a, Some(b), 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup3(a: c_int, b: c_int, _f: c_int) -> c_int {
    dup2(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_fcntl, fd as usize, cmd as usize, arg)) as c_int;
    }
    k("fcntl", |w, pid| {
        let id = *w.p(pid).fds.get(&fd).ok_or(EBADF)?;
        match cmd {
            F_GETFD => Ok(FD_CLOEXEC as i64),
            F_SETFD => Ok(0),
            F_GETFL => Ok(w.ofds[&id].flags as i64),
            F_SETFL => {
                let o = w.ofds.get_mut(&id).unwrap();
                o.flags = (o.flags & !(O_NONBLOCK | O_APPEND)) | (arg as i32 & (O_NONBLOCK | O_APPEND));
                Ok(0)
            }
            F_DUPFD | F_DUPFD_CLOEXEC => w.sys_dup(pid, fd, None, arg as i32),
            F_SETLK | F_SETLKW => {
                let l = &*(arg as *const flock64);
                w.sys_plock(pid, fd, l.l_type as i32, cmd == F_SETLKW, false)
            }
            F_GETLK => {
                let l = &mut *(arg as *mut flock64);
                match w.sys_plock(pid, fd, l.l_type as i32, false, true) {
                    Ok(_) => l.l_type = F_UNLCK as i16,
                    Err(_) => l.l_type = F_WRLCK as i16,
                }
                Ok(0)
            }
            F_OFD_SETLK | F_OFD_SETLKW => {
                let l = &*(arg as *const flock64);
                let how = match l.l_type as i32 {
                    F_UNLCK => LOCK_UN,
                    F_RDLCK => LOCK_SH,
                    _ => LOCK_EX,
                };
                w.sys_flock(pid, fd, if cmd == F_OFD_SETLK { how | LOCK_NB } else { how })
            }
            _ => {
                w.stats.add("unmodelled.fcntl", 1);
                Err(EINVAL)
            }
        }
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, how: c_int) -> c_int {
    if !sim() {
        set_errno(ENOSYS);
        return -1;
    }
    k("flock", |w, pid| w.sys_flock(pid, fd, how)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lockf(fd: c_int, cmd: c_int, _len: i64) -> c_int {
    if !sim() {
        set_errno(ENOSYS);
        return -1;
    }
    k("lockf", |w, pid| match cmd {
        F_ULOCK => w.sys_plock(pid, fd, F_UNLCK, false, false),
        F_LOCK => w.sys_plock(pid, fd, F_WRLCK, true, false),
        F_TLOCK => w.sys_plock(pid, fd, F_WRLCK, false, false),
        F_TEST => w.sys_plock(pid, fd, F_WRLCK, false, true),
        _ => Err(EINVAL),
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lockf64(fd: c_int, cmd: c_int, len: i64) -> c_int {
    lockf(fd, cmd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_int) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_ioctl, fd as usize, req as usize, arg as usize)) as c_int;
    }
    k("ioctl", |w, pid| {
        let id = *w.p(pid).fds.get(&fd).ok_or(EBADF)?;
        if req == FIONBIO {
            let on = *arg != 0;
            let o = w.ofds.get_mut(&id).unwrap();
            if on {
                o.flags |= O_NONBLOCK
            } else {
                o.flags &= !O_NONBLOCK
            }
            return Ok(0);
        }
        if req == FIOCLEX {
            return Ok(0);
        }
        Err(ENOTTY)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_fd: c_int) -> c_int {
    set_errno(ENOTTY);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(f: *mut c_int, fl: c_int) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_pipe2, f as usize, fl as usize, 0)) as c_int;
    }
    k("pipe", |w, pid| {
        let (r, s) = w.sys_pipe(pid, fl)?;
        *f = r;
        *f.add(1) = s;
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe(f: *mut c_int) -> c_int {
    pipe2(f, 0)
}
#[no_mangle]
pub unsafe extern "C" fn poll(f: *mut pollfd, n: nfds_t, t: c_int) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_poll, f as usize, n as usize, t as usize)) as c_int;
    }
    k("poll", |w, pid| {
        let s = std::slice::from_raw_parts_mut(f, n as usize);
        let mut v: Vec<(i32, i16, i16)> = s.iter().map(|p| (p.fd, p.events, 0)).collect();
        let r = w.sys_poll(pid, &mut v, t)?;
        for (i, x) in v.iter().enumerate() {
            s[i].revents = x.2;
        }
        Ok(r)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if !sim() {
        let r = rawret(sc3(SYS_getcwd, b as usize, n, 0));
        return if r < 0 { std::ptr::null_mut() } else { b };
    }
    let r = k("getcwd", |w, pid| {
        let c = w.p(pid).cwd;
        let s = w.vfs.canon(c);
        if s.len() + 1 > n {
            return Err(ERANGE);
        }
        std::ptr::copy_nonoverlapping(s.as_ptr(), b as *mut u8, s.len());
        *b.add(s.len()) = 0;
        Ok(0)
    });
    if r < 0 {
        std::ptr::null_mut()
    } else {
        b
    }
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_chdir, p as usize, 0, 0)) as c_int;
    }
    k("chdir", |w, pid| w.sys_chdir(pid, cs(p))) as c_int
}

// ---------------------------------------------------------------------- time

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, t: *mut timespec) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_clock_gettime, c as usize, t as usize, 0)) as c_int;
    }
    kcall(|w, _| {
        w.mono += 100;
        let (s, n) = match c {
            CLOCK_REALTIME | CLOCK_REALTIME_COARSE | CLOCK_TAI => w.now(),
            _ => {
                let m = w.mono + 1_000_000_000_000;
                ((m / 1_000_000_000) as i64, (m % 1_000_000_000) as u32)
            }
        };
        (*t).tv_sec = s;
        (*t).tv_nsec = n as i64;
    });
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut timeval, _z: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    (*t).tv_sec = ts.tv_sec;
    (*t).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
unsafe fn do_sleep(ns: u64) {
    kcall(|w, pid| {
        if let Ok(g) = w.gate(pid, crate::plan::OpSel::Sleep, false, "") {
            let t = w.mono + ns;
            w.log(|| format!("[{}] sleeps {} s", pid, ns as f64 / 1e9));
            w.sleep_until(pid, t);
            w.done(pid, crate::plan::OpSel::Sleep, false, "", None, 0, g.crash_after);
        }
    });
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, _r: *mut timespec) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_nanosleep, a as usize, 0, 0)) as c_int;
    }
    do_sleep((*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, fl: c_int, a: *const timespec, r: *mut timespec) -> c_int {
    if !sim() {
        return -sc6(SYS_clock_nanosleep, c as usize, fl as usize, a as usize, r as usize, 0, 0) as c_int;
    }
    let want = (*a).tv_sec as i128 * 1_000_000_000 + (*a).tv_nsec as i128;
    if fl & TIMER_ABSTIME != 0 {
        let mut n: timespec = std::mem::zeroed();
        clock_gettime(c, &mut n);
        let now = n.tv_sec as i128 * 1_000_000_000 + n.tv_nsec as i128;
        if want > now {
            do_sleep((want - now) as u64);
        }
    } else {
        do_sleep(want as u64);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    do_sleep(us as u64 * 1000);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sleep(s: c_uint) -> c_uint {
    do_sleep(s as u64 * 1_000_000_000);
    0
}

// -------------------------------------------------------------------- random

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if !sim() {
        return rawret(sc3(SYS_getrandom, b as usize, n, fl as usize)) as ssize_t;
    }
    kcall(|w, pid| {
        let r = &mut w.p(pid).rnd;
        for i in 0..n {
            *(b as *mut u8).add(i) = (r.next() >> 13) as u8;
        }
    });
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut c_void, n: size_t) -> c_int {
    getrandom(b, n, 0);
    0
}

// ----------------------------------------------------------------- processes

#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if !sim() {
        return sc3(SYS_getpid, 0, 0, 0) as pid_t;
    }
    my_pid() as pid_t + 4000
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> pid_t {
    1
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> pid_t {
    if !sim() {
        return sc3(SYS_gettid, 0, 0, 0) as pid_t;
    }
    getpid()
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    _exit(code)
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if sim() {
        kcall(|w, pid| w.end_proc(pid, Exit::Code(code & 0xff)));
    }
    crate::raw::exit_group(code)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if sim() {
        kcall(|w, pid| w.end_proc(pid, Exit::Signal(SIGABRT)));
    }
    crate::raw::die("abort in the simulator")
}
#[no_mangle]
pub unsafe extern "C" fn kill(p: pid_t, s: c_int) -> c_int {
    if !sim() {
        return rawret(sc3(SYS_kill, p as usize, s as usize, 0)) as c_int;
    }
    let me = getpid();
    k("kill", |w, pid| w.sys_kill(pid, if p == me { pid as i32 } else { p }, s)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn raise(s: c_int) -> c_int {
    kill(getpid(), s)
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(p: pid_t, st: *mut c_int, o: c_int) -> pid_t {
    if !sim() {
        return rawret(sc6(SYS_wait4, p as usize, st as usize, o as usize, 0, 0, 0)) as pid_t;
    }
    k("waitpid", |w, pid| {
        let (c, s) = w.sys_wait(pid, p, o & WNOHANG != 0)?;
        if !st.is_null() && c != 0 {
            *st = s;
        }
        Ok(c as i64)
    }) as pid_t
}
#[no_mangle]
pub unsafe extern "C" fn wait4(p: pid_t, st: *mut c_int, o: c_int, _r: *mut c_void) -> pid_t {
    waitpid(p, st, o)
}
#[no_mangle]
pub unsafe extern "C" fn waitid(t: idtype_t, id: id_t, info: *mut siginfo_t, o: c_int) -> c_int {
    if !sim() {
        set_errno(ENOSYS);
        return -1;
    }
    let want = if t == P_ALL { -1 } else { id as i32 };
    k("waitid", |w, pid| {
        let (c, _s) = w.sys_wait(pid, want, o & WNOHANG != 0)?;
        if !info.is_null() {
            std::ptr::write_bytes(info as *mut u8, 0, std::mem::size_of::<siginfo_t>());
            if c != 0 {
                (*info).si_signo = SIGCHLD;
            }
        }
        Ok(0)
    }) as c_int
}

#[repr(C)]
struct Acts {
    v: *mut Vec<(i32, i32)>,
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(a: *mut c_void) -> c_int {
    (*(a as *mut Acts)).v = Box::into_raw(Box::new(Vec::new()));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(a: *mut c_void) -> c_int {
    drop(Box::from_raw((*(a as *mut Acts)).v));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(a: *mut c_void, x: c_int, y: c_int) -> c_int {
    (*(*(a as *mut Acts)).v).push((x, y));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addclose(_a: *mut c_void, _x: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(_a: *mut c_void, _p: *const c_char) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir(_a: *mut c_void, _p: *const c_char) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    out: *mut pid_t,
    file: *const c_char,
    acts: *const c_void,
    _attr: *const c_void,
    _argv: *const *const c_char,
    _env: *const *const c_char,
) -> c_int {
    if !sim() {
        return ENOSYS;
    }
    let none: Vec<(i32, i32)> = Vec::new();
    let list = if acts.is_null() { &none } else { &*(*(acts as *const Acts)).v };
    let r = kcall(|w, pid| {
        let r = w.sys_spawn(pid, cs(file), list);
        if let Err(e) = r {
            w.note(e as u64 ^ 0x5BAD);
            w.log(|| format!("[{}] spawn failed: {}", pid, errname(e)));
        }
        r
    });
    match r {
        Ok(p) => {
            *out = p as pid_t;
            0
        }
        Err(e) => e,
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(
    out: *mut pid_t,
    file: *const c_char,
    acts: *const c_void,
    attr: *const c_void,
    argv: *const *const c_char,
    env: *const *const c_char,
) -> c_int {
    posix_spawnp(out, file, acts, attr, argv, env)
}

#[no_mangle]
pub unsafe extern "C" fn getpwuid_r(_u: uid_t, _p: *mut c_void, _b: *mut c_char, _n: size_t, r: *mut *mut c_void) -> c_int {
    *r = std::ptr::null_mut();
    0
}

// -------------------------------------------------------------------- syscall

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if !sim() || n == SYS_futex || n == SYS_sched_yield || n == SYS_membarrier {
        return rawret(sc6(n, a, b, c, d, e, f));
    }
    match n {
        SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
        SYS_getrandom => getrandom(a as *mut c_void, b, c as c_uint) as c_long,
        SYS_utimensat => utimensat(a as c_int, b as *const c_char, c as *const timespec, d as c_int) as c_long,
        SYS_renameat2 => renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_uint) as c_long,
        SYS_gettid | SYS_getpid => getpid() as c_long,
        SYS_openat => openat64(a as c_int, b as *const c_char, c as c_int, d as c_uint) as c_long,
        SYS_unlinkat => unlinkat(a as c_int, b as *const c_char, c as c_int) as c_long,
        SYS_faccessat2 => faccessat(a as c_int, b as *const c_char, c as c_int, d as c_int) as c_long,
        SYS_fchmodat2 => fchmodat(a as c_int, b as *const c_char, c as mode_t, d as c_int) as c_long,
        SYS_close_range => 0,
        _ => {
            unsupported(&format!("syscall_{}", n));
            set_errno(ENOSYS);
            -1
        }
    }
}

// threads are not simulated
#[no_mangle]
pub unsafe extern "C" fn pthread_create(_t: *mut pthread_t, _a: *const c_void, _f: *const c_void, _g: *mut c_void) -> c_int {
    if sim() {
        unsupported("pthread_create");
    }
    EAGAIN
}

// ------------------------------------------------------------ process set-up

#[no_mangle]
pub unsafe extern "C" fn pthread_getattr_np(_t: pthread_t, _a: *mut pthread_attr_t) -> c_int {
    ENOSYS
}

/// std's own argument vector is set by an .init_array function of std with the
/// driver's arguments; `main` overrides it only on some platforms.
pub unsafe fn set_args(_argc: i32, _argv: *const *const u8) {}

unsafe extern "C" fn on_sigsys(_s: c_int, info: *mut siginfo_t, ctx: *mut c_void) {
    let uc = &mut *(ctx as *mut ucontext_t);
    let nr = *((info as *const u8).add(24) as *const i32);
    uc.uc_mcontext.gregs[REG_RAX as usize] = -(ENOSYS as i64);
    if sim() {
        unsupported(&format!("raw_syscall_{}", nr));
    }
}

/// From here on the process cannot reach the real system.
pub unsafe fn lock_down() {
    let mut old: sigaction = std::mem::zeroed();
    let mut act: sigaction = std::mem::zeroed();
    act.sa_sigaction = on_sigsys as *const () as usize;
    act.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &act, &mut old);
    const ALLOW: &[c_long] = &[
        SYS_futex, SYS_mmap, SYS_munmap, SYS_mremap, SYS_mprotect, SYS_madvise, SYS_brk, SYS_exit, SYS_exit_group,
        SYS_rt_sigaction, SYS_rt_sigprocmask, SYS_rt_sigreturn, SYS_sigaltstack, SYS_sched_yield, SYS_membarrier,
        SYS_rseq, SYS_set_robust_list, SYS_arch_prctl, SYS_getpid, SYS_gettid, SYS_tgkill,
    ];
    let mut prog: Vec<sock_filter> = vec![];
    let stmt = |code: u32, k: u32| sock_filter { code: code as u16, jt: 0, jf: 0, k };
    let jeq = |k: u32, jt: u8, jf: u8| sock_filter { code: (BPF_JMP | BPF_JEQ | BPF_K) as u16, jt, jf, k };
    prog.push(stmt(BPF_LD | BPF_W | BPF_ABS, 0));
    for a in ALLOW {
        prog.push(jeq(*a as u32, 0, 1));
        prog.push(stmt(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    }
    // messages of the simulator itself
    prog.push(jeq(SYS_write as u32, 0, 3));
    prog.push(stmt(BPF_LD | BPF_W | BPF_ABS, 16));
    prog.push(jeq(2, 0, 1));
    prog.push(stmt(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    prog.push(stmt(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
    let fp = sock_fprog { len: prog.len() as u16, filter: prog.as_mut_ptr() };
    sc6(SYS_prctl, PR_SET_NO_NEW_PRIVS as usize, 1, 0, 0, 0, 0);
    let r = sc6(SYS_prctl, PR_SET_SECCOMP as usize, 2, &fp as *const _ as usize, 0, 0, 0);
    if r != 0 {
        crate::raw::err("ksim: seccomp is not available\n");
    }
}
