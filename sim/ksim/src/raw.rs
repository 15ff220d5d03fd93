//! Raw system calls of the simulator itself (never of the simulated program).
use std::arch::asm;

#[inline]
pub unsafe fn sc6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
#[inline]
pub unsafe fn sc3(n: i64, a: usize, b: usize, c: usize) -> isize {
    sc6(n, a, b, c, 0, 0, 0)
}

pub fn write_fd(fd: i32, b: &[u8]) {
    let mut off = 0;
    while off < b.len() {
        let r = unsafe { sc3(libc::SYS_write, fd as usize, b.as_ptr() as usize + off, b.len() - off) };
        if r == -(libc::EINTR as isize) {
            continue;
        }
        if r <= 0 {
            return;
        }
        off += r as usize;
    }
}
pub fn out(s: &str) {
    write_fd(1, s.as_bytes());
}
pub fn err(s: &str) {
    write_fd(2, s.as_bytes());
}

pub fn exit_group(code: i32) -> ! {
    unsafe {
        sc3(libc::SYS_exit_group, code as usize, 0, 0);
    }
    loop {}
}

pub fn die(msg: &str) -> ! {
    err("ksim: fatal: ");
    err(msg);
    err("\n");
    exit_group(97)
}

fn cpath(p: &str) -> Vec<u8> {
    let mut v = p.as_bytes().to_vec();
    v.push(0);
    v
}

/// Read a real file (driver only).
pub fn read_file(p: &str) -> Option<Vec<u8>> {
    let c = cpath(p);
    unsafe {
        let fd = sc6(libc::SYS_openat, libc::AT_FDCWD as usize, c.as_ptr() as usize, libc::O_RDONLY as usize, 0, 0, 0);
        if fd < 0 {
            return None;
        }
        let mut v = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let r = sc3(libc::SYS_read, fd as usize, buf.as_mut_ptr() as usize, buf.len());
            if r == -(libc::EINTR as isize) {
                continue;
            }
            if r <= 0 {
                break;
            }
            v.extend_from_slice(&buf[..r as usize]);
        }
        sc3(libc::SYS_close, fd as usize, 0, 0);
        Some(v)
    }
}

/// Write a real file (driver only).
pub fn write_file(p: &str, data: &[u8]) -> bool {
    let c = cpath(p);
    unsafe {
        let fd = sc6(
            libc::SYS_openat,
            libc::AT_FDCWD as usize,
            c.as_ptr() as usize,
            (libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC) as usize,
            0o644,
            0,
            0,
        );
        if fd < 0 {
            return false;
        }
        write_fd(fd as i32, data);
        sc3(libc::SYS_close, fd as usize, 0, 0);
        true
    }
}

pub fn mkdir_p(p: &str) {
    let mut cur = String::new();
    for c in p.split('/') {
        if c.is_empty() {
            cur.push('/');
            continue;
        }
        if !cur.ends_with('/') && !cur.is_empty() {
            cur.push('/');
        }
        cur.push_str(c);
        let cp = cpath(&cur);
        unsafe {
            sc6(libc::SYS_mkdirat, libc::AT_FDCWD as usize, cp.as_ptr() as usize, 0o755, 0, 0, 0);
        }
    }
}

pub fn real_now_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        sc3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub fn pipe() -> (i32, i32) {
    let mut f = [0i32; 2];
    unsafe {
        sc3(libc::SYS_pipe2, f.as_mut_ptr() as usize, 0, 0);
    }
    (f[0], f[1])
}
pub fn read_some(fd: i32, buf: &mut [u8]) -> isize {
    loop {
        let r = unsafe { sc3(libc::SYS_read, fd as usize, buf.as_mut_ptr() as usize, buf.len()) };
        if r != -(libc::EINTR as isize) {
            return r;
        }
    }
}
pub fn close(fd: i32) {
    unsafe {
        sc3(libc::SYS_close, fd as usize, 0, 0);
    }
}

extern "C" {
    fn _Fork() -> i32;
}
pub fn fork() -> i32 {
    unsafe { _Fork() }
}

/// Blocking wait; returns (pid, raw status).
pub fn wait(pid: i32, flags: i32) -> (i32, i32) {
    let mut st: i32 = 0;
    loop {
        let r = unsafe { sc6(libc::SYS_wait4, pid as isize as usize, &mut st as *mut _ as usize, flags as usize, 0, 0, 0) };
        if r == -(libc::EINTR as isize) {
            continue;
        }
        return (r as i32, st);
    }
}

pub fn kill(pid: i32, sig: i32) {
    unsafe {
        sc3(libc::SYS_kill, pid as usize, sig as usize, 0);
    }
}

pub fn futex_wait(a: &std::sync::atomic::AtomicU32, v: u32) {
    unsafe {
        sc6(libc::SYS_futex, a as *const _ as usize, libc::FUTEX_WAIT as usize, v as usize, 0, 0, 0);
    }
}
pub fn futex_wake(a: &std::sync::atomic::AtomicU32) {
    unsafe {
        sc6(libc::SYS_futex, a as *const _ as usize, libc::FUTEX_WAKE as usize, i32::MAX as usize, 0, 0, 0);
    }
}
