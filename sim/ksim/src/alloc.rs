//! Global allocator with a shared-memory arena for the simulated world.
//!
//! The world (virtual disk, clock, network, oracles) has to be visible to the
//! driver and to every forked simulated process, so while a thread is in
//! "kernel mode" its allocations come from a MAP_SHARED arena. Everything the
//! program under test allocates in "user mode" comes from the normal heap and
//! dies with its process, exactly like real process memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct KAlloc;

#[global_allocator]
static GLOBAL: KAlloc = KAlloc;

thread_local! {
    static KMODE: Cell<u32> = const { Cell::new(0) };
}

static BASE: AtomicUsize = AtomicUsize::new(0);
static END: AtomicUsize = AtomicUsize::new(0);

const NCLASS: usize = 64 + 128;

#[repr(C)]
struct Header {
    bump: usize,
    mark: usize,
    peak: usize,
    free: [usize; NCLASS],
}

pub fn enter() {
    KMODE.with(|k| k.set(k.get() + 1));
}
pub fn leave() {
    KMODE.with(|k| k.set(k.get() - 1));
}
pub fn mode() -> u32 {
    KMODE.with(|k| k.get())
}
pub fn set_mode(v: u32) {
    KMODE.with(|k| k.set(v));
}

/// Map a fresh arena (replacing the previous one of this process, which is leaked).
pub fn init_arena(size: usize) {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            crate::raw::die("cannot map arena");
        }
        let base = p as usize;
        let h = base as *mut Header;
        (*h).bump = base + ((std::mem::size_of::<Header>() + 63) & !63);
        (*h).mark = (*h).bump;
        (*h).peak = (*h).bump;
        for f in (*h).free.iter_mut() {
            *f = 0;
        }
        BASE.store(base, Ordering::SeqCst);
        END.store(base + size, Ordering::SeqCst);
    }
}

/// Everything allocated so far survives `reset`.
pub fn mark() {
    unsafe {
        let h = BASE.load(Ordering::Relaxed) as *mut Header;
        (*h).free = [0; NCLASS];
        (*h).mark = (*h).bump;
    }
}

/// Throw away everything allocated since `mark`.
pub fn reset() {
    unsafe {
        let h = BASE.load(Ordering::Relaxed) as *mut Header;
        (*h).free = [0; NCLASS];
        if (*h).bump > (*h).peak {
            (*h).peak = (*h).bump;
        }
        (*h).bump = (*h).mark;
    }
}

pub fn used() -> usize {
    unsafe {
        let h = BASE.load(Ordering::Relaxed) as *mut Header;
        (*h).bump - BASE.load(Ordering::Relaxed)
    }
}

fn class_of(size: usize) -> (usize, usize) {
    let size = if size == 0 { 1 } else { size };
    if size <= 1024 {
        let c = (size + 15) / 16;
        (c - 1, c * 16)
    } else {
        // four steps per power of two
        let p = 63 - (size - 1).leading_zeros() as usize; // 2^p <= size-1
        let base = 1usize << p;
        let step = base / 4;
        let k = (size - base + step - 1) / step; // 1..=4
        let cls = 64 + (p - 10) * 4 + (k - 1);
        (cls, base + k * step)
    }
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let base = BASE.load(Ordering::Relaxed);
    let h = base as *mut Header;
    let (cls, sz) = class_of(l.size());
    if l.align() <= 16 {
        let f = (*h).free[cls];
        if f != 0 {
            (*h).free[cls] = *(f as *const usize);
            return f as *mut u8;
        }
    }
    let align = l.align().max(16);
    let p = ((*h).bump + align - 1) & !(align - 1);
    if p + sz > END.load(Ordering::Relaxed) {
        crate::raw::die("arena exhausted");
    }
    (*h).bump = p + sz;
    p as *mut u8
}

unsafe fn arena_free(p: *mut u8, l: Layout) {
    if l.align() > 16 {
        return;
    }
    let h = BASE.load(Ordering::Relaxed) as *mut Header;
    let (cls, _) = class_of(l.size());
    *(p as *mut usize) = (*h).free[cls];
    (*h).free[cls] = p as usize;
}

#[inline]
fn in_arena(p: *mut u8) -> bool {
    let a = p as usize;
    let b = BASE.load(Ordering::Relaxed);
    b != 0 && a >= b && a < END.load(Ordering::Relaxed)
}

unsafe impl GlobalAlloc for KAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if mode() > 0 && BASE.load(Ordering::Relaxed) != 0 {
            arena_alloc(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            arena_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p) || (mode() > 0 && BASE.load(Ordering::Relaxed) != 0) {
            if in_arena(p) && class_of(l.size()).0 == class_of(n).0 && l.align() <= 16 {
                return p;
            }
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}
