//! The allocator of the process.
//!
//! Memory handed to the library is filled with junk, and filled with junk again and held back for
//! a while when the library frees it; growing a block always moves it. On request an
//! allocation of the library fails: the process forks, the child sees the failure and has to end
//! in the standard allocation-error report, the parent goes on. Every block carries a header that
//! says whether the library asked for it; what the library holds is counted.

use crate::ctx::in_lib;
use crate::rng::mix2;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub struct SimAlloc;

static ARMED: AtomicBool = AtomicBool::new(false);
static CHILD: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU64 = AtomicU64::new(0);
static TARGET: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static RATE: AtomicU64 = AtomicU64::new(0);
static FAILED: AtomicU64 = AtomicU64::new(0);
static FORKS: AtomicU64 = AtomicU64::new(0);

const RING: usize = 48;
static RING_AT: AtomicUsize = AtomicUsize::new(0);
static RING_LOCK: AtomicBool = AtomicBool::new(false);
struct Ring(std::cell::UnsafeCell<[(usize, usize, usize); RING]>);
unsafe impl Sync for Ring {}
static HELD: Ring = Ring(std::cell::UnsafeCell::new([(0, 0, 0); RING]));

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
}

const EXIT_CONTINUED: i32 = 78;

pub fn is_child() -> bool {
    CHILD.load(SeqCst)
}

#[inline]
pub fn must_not_continue() {
    if CHILD.load(SeqCst) {
        unsafe { _exit(EXIT_CONTINUED) }
    }
}

/// Fail allocation `target`, or (0) a seeded selection at `rate` per 1000
pub fn arm(seed: u64, rate: u64, target: u64) {
    COUNT.store(0, SeqCst);
    FORKS.store(0, SeqCst);
    FAILED.store(0, SeqCst);
    SEED.store(seed, SeqCst);
    RATE.store(rate, SeqCst);
    TARGET.store(target, SeqCst);
    ARMED.store(true, SeqCst);
}

/// returns (allocations seen, failures injected)
pub fn disarm() -> (u64, u64) {
    ARMED.store(false, SeqCst);
    (COUNT.load(SeqCst), FORKS.load(SeqCst))
}

pub fn failed_at() -> u64 {
    FAILED.load(SeqCst)
}

fn due() -> bool {
    let n = COUNT.fetch_add(1, SeqCst) + 1;
    let t = TARGET.load(SeqCst);
    if t != 0 {
        return n == t;
    }
    FORKS.load(SeqCst) < 400 && mix2(SEED.load(SeqCst), n) % 1000 < RATE.load(SeqCst)
}

/// true in the child: the allocation fails
fn fail(size: usize) -> bool {
    let n = COUNT.load(SeqCst);
    FORKS.fetch_add(1, SeqCst);
    let mut buf = [0u8; 4096];
    let mut len = 0usize;
    let mut st = 0i32;
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            return false;
        }
        let pid = fork();
        if pid == 0 {
            CHILD.store(true, SeqCst);
            ARMED.store(false, SeqCst);
            dup2(fds[1], 2);
            close(fds[0]);
            alarm(20);
            return true;
        }
        close(fds[1]);
        if pid < 0 {
            close(fds[0]);
            return false;
        }
        loop {
            let r = read(fds[0], buf.as_mut_ptr().add(len), buf.len() - len);
            if r <= 0 {
                break;
            }
            len += r as usize;
            if len == buf.len() {
                break;
            }
        }
        close(fds[0]);
        waitpid(pid, &mut st, 0);
    }
    let msg = &buf[..len];
    let sig = st & 0x7f;
    let reported = msg.windows(20).any(|w| w == b"memory allocation of");
    if sig == 6 && reported {
        return false;
    }
    ARMED.store(false, SeqCst);
    FAILED.store(n, SeqCst);
    let how = match (sig, (st >> 8) & 0xff) {
        (0, EXIT_CONTINUED) => "the operation carried on as if nothing had happened".into(),
        (0, 77) => format!("objects were corrupted: {}", String::from_utf8_lossy(msg)),
        (0, c) => format!("the process exited with status {c}"),
        (14, _) => "the process hung".into(),
        (6, _) => format!("the process aborted without the allocation-error report: {}", String::from_utf8_lossy(msg)),
        (s, _) => format!("the process died of signal {s} instead of the allocation-error report"),
    };
    crate::ctx::callback(|| {
        crate::ctx::violation(
            "allocation-failure",
            format!("allocation {n} of the run ({size} bytes) failed: {how}"),
        )
    })
}

/// bytes and blocks the library asked for and has not given back
static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

pub fn held() -> (i64, i64) {
    (BYTES.load(SeqCst), BLOCKS.load(SeqCst))
}

const OURS: u64 = 0x51D0_0000_0000_0001;
const THEIRS: u64 = 0x51D0_0000_0000_0002;

fn pad(l: Layout) -> usize {
    l.align().max(16)
}

fn full(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + pad(l), l.align()) }
}

/// header in front of the block
unsafe fn mark(base: *mut u8, l: Layout, theirs: bool) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let p = base.add(pad(l));
    (p as *mut u64).sub(1).write(if theirs { THEIRS } else { OURS });
    if theirs {
        BYTES.fetch_add(l.size() as i64, SeqCst);
        BLOCKS.fetch_add(1, SeqCst);
    }
    p
}

unsafe fn new(l: Layout, theirs: bool) -> *mut u8 {
    if l.size() > isize::MAX as usize - 2 * pad(l) {
        return std::ptr::null_mut();
    }
    mark(System.alloc(full(l)), l, theirs)
}

unsafe fn theirs(p: *mut u8) -> bool {
    (p as *mut u64).sub(1).read() == THEIRS
}

unsafe fn unmark(p: *mut u8, l: Layout) {
    if theirs(p) {
        BYTES.fetch_sub(l.size() as i64, SeqCst);
        BLOCKS.fetch_sub(1, SeqCst);
        (p as *mut u64).sub(1).write(OURS);
    }
}

unsafe fn gone(p: *mut u8, l: Layout) {
    System.dealloc(p.sub(pad(l)), full(l))
}

unsafe fn hold(p: *mut u8, l: Layout) {
    while RING_LOCK.swap(true, SeqCst) {
        std::hint::spin_loop();
    }
    let ring = &mut *HELD.0.get();
    let i = RING_AT.load(SeqCst);
    RING_AT.store((i + 1) % RING, SeqCst);
    let (op, os, oa) = ring[i];
    ring[i] = (p as usize, l.size(), l.align());
    RING_LOCK.store(false, SeqCst);
    if op != 0 {
        gone(op as *mut u8, Layout::from_size_align_unchecked(os, oa));
    }
}

extern "C" {
    fn sim_set_in_lib(v: bool);
    fn sim_get_in_lib() -> bool;
}

/// the accesses of the allocator itself are no scheduling points
#[inline]
unsafe fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let b = sim_get_in_lib();
    sim_set_in_lib(false);
    let r = f();
    sim_set_in_lib(b);
    r
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !in_lib() {
            let p = new(l, false);
            crate::threads::allocated(p, l.size());
            return p;
        }
        quiet(|| {
            if ARMED.load(SeqCst) && due() && fail(l.size()) {
                return std::ptr::null_mut();
            }
            let p = new(l, true);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0xA5, l.size());
                crate::threads::allocated(p, l.size());
            }
            p
        })
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let theirs = in_lib();
        if theirs && quiet(|| ARMED.load(SeqCst) && due() && fail(l.size())) {
            return std::ptr::null_mut();
        }
        quiet(|| {
            if l.size() > isize::MAX as usize - 2 * pad(l) {
                return std::ptr::null_mut();
            }
            let p = mark(System.alloc_zeroed(full(l)), l, theirs);
            crate::threads::allocated(p, l.size());
            p
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_lib() {
            return quiet(|| {
                unmark(p, l);
                crate::threads::freed(p, l.size());
                std::ptr::write_bytes(p, 0x5A, l.size());
                if l.size() >= 128 && l.size() <= 1 << 16 {
                    hold(p, l)
                } else {
                    gone(p, l)
                }
            });
        }
        unmark(p, l);
        crate::threads::freed(p, l.size());
        gone(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let to = Layout::from_size_align_unchecked(n, l.align());
        if !in_lib() {
            if n > isize::MAX as usize - 2 * pad(l) {
                return std::ptr::null_mut();
            }
            let theirs = theirs(p);
            unmark(p, l);
            crate::threads::freed(p, l.size());
            let q = mark(System.realloc(p.sub(pad(l)), full(l), full(to).size()), to, theirs);
            crate::threads::allocated(q, n);
            return q;
        }
        let q = self.alloc(to);
        if !q.is_null() {
            quiet(|| std::ptr::copy_nonoverlapping(p, q, l.size().min(n)));
            self.dealloc(p, l);
        }
        q
    }
}
