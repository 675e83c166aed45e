//! Global allocator: the system's, or (while exploring schedules) a lock-free bump allocator, so that
//! a call can be suspended at any instruction without holding an allocator lock. Also the page that
//! holds all harness state touched while code under test runs with its static memory protected.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const REGIONS: usize = 16;
pub const LOG: usize = 8192;
/// Threads of a schedule, at most.
pub const MANY: usize = 24;

/// Page aligned and a whole number of pages, so nothing else shares its pages.
#[repr(C, align(4096))]
pub struct Ctl {
    /// Bump allocator: next free address (0: off), region.
    pub next: AtomicUsize,
    pub base: AtomicUsize,
    pub end: AtomicUsize,
    /// Protected regions: start, length.
    pub regions: [(AtomicUsize, AtomicUsize); REGIONS],
    pub nregions: AtomicUsize,
    /// 1 while regions are being watched.
    pub active: AtomicU32,
    /// Thread allowed to run; 99: none yet.
    pub token: AtomicU32,
    pub threads: AtomicU32,
    pub done: [AtomicU32; MANY],
    pub result: [AtomicUsize; MANY],
    /// Watched accesses of each thread.
    pub mine: [AtomicU64; MANY],
    /// If not 0: each thread is preempted at this access of its own, and the next one starts.
    pub stair: AtomicU64,
    /// 1: a thread that finishes is followed by the last unfinished one, else by the next.
    pub lifo: AtomicU32,
    pub ready: AtomicU32,
    pub release: AtomicU32,
    /// Watched accesses so far, and since the last switch.
    pub events: AtomicU64,
    pub since: AtomicU64,
    pub forced: AtomicU64,
    /// Preemptions to perform: event numbers, ascending.
    pub plan: [AtomicU64; 8],
    pub planpos: AtomicUsize,
    /// Memory accounting. 0: off, 1: of each thread, 2: of the process.
    pub count: AtomicU32,
    pub live: AtomicI64,
    pub peak: AtomicI64,
    /// Event log: address << 8 | thread << 1 | write.
    pub log: [AtomicUsize; LOG],
}

#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicUsize = AtomicUsize::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const ZZ: (AtomicUsize, AtomicUsize) = (Z, Z);
#[allow(clippy::declare_interior_mutable_const)]
const W: AtomicU64 = AtomicU64::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const V: AtomicU32 = AtomicU32::new(0);

pub static CTL: Ctl = Ctl {
    next: Z,
    base: Z,
    end: Z,
    regions: [ZZ; REGIONS],
    nregions: Z,
    active: AtomicU32::new(0),
    token: AtomicU32::new(99),
    threads: V,
    done: [V; MANY],
    result: [Z; MANY],
    mine: [W; MANY],
    stair: W,
    lifo: V,
    ready: AtomicU32::new(0),
    release: AtomicU32::new(0),
    events: W,
    since: W,
    forced: W,
    plan: [W; 8],
    planpos: Z,
    count: V,
    live: AtomicI64::new(0),
    peak: AtomicI64::new(0),
    log: [Z; LOG],
};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn account(n: i64) {
    match CTL.count.load(Relaxed) {
        0 => (),
        1 => {
            let _ = LIVE.try_with(|l| {
                l.set(l.get() + n);
                let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
            });
        }
        _ => {
            let l = CTL.live.fetch_add(n, Relaxed) + n;
            CTL.peak.fetch_max(l, Relaxed);
        }
    }
}

/// Bytes allocated and not freed since accounting began.
pub fn live() -> i64 {
    match CTL.count.load(Relaxed) {
        2 => CTL.live.load(Relaxed),
        _ => LIVE.with(|l| l.get()),
    }
}

/// Runs `f`; also returns the most it had allocated at a time.
pub fn peak_of<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let l = live();
    match CTL.count.load(Relaxed) {
        2 => CTL.peak.store(l, Relaxed),
        _ => PEAK.with(|p| p.set(l)),
    }
    let r = f();
    let p = match CTL.count.load(Relaxed) {
        2 => CTL.peak.load(Relaxed),
        _ => PEAK.with(|p| p.get()),
    };
    (r, p - l)
}

pub struct Switch;

/// From now on allocate from a private region and never free.
pub fn bump(bytes: usize) {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            bytes,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED, "bump region");
    CTL.base.store(p as usize, Relaxed);
    CTL.end.store(p as usize + bytes, Relaxed);
    CTL.next.store(p as usize, Relaxed);
}

/// Continues at the next page; returns the part handed out so far.
pub fn seal() -> (usize, usize) {
    let n = (CTL.next.load(Relaxed) + 4095) & !4095;
    CTL.next.store(n, Relaxed);
    let b = CTL.base.load(Relaxed);
    (b, n - b)
}

unsafe impl GlobalAlloc for Switch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if CTL.next.load(Relaxed) == 0 {
            let p = System.alloc(l);
            if !p.is_null() {
                account(l.size() as i64);
            }
            return p;
        }
        let a = l.align().max(16);
        let p = CTL.next.fetch_add(l.size() + a, Relaxed);
        let p = (p + a - 1) & !(a - 1);
        if p + l.size() > CTL.end.load(Relaxed) {
            return std::ptr::null_mut();
        }
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a < CTL.base.load(Relaxed) || a >= CTL.end.load(Relaxed) {
            // Memory from before the switch is left alone: the system allocator may be watched or
            // suspended.
            if CTL.next.load(Relaxed) == 0 {
                account(-(l.size() as i64));
                System.dealloc(p, l);
            }
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if CTL.next.load(Relaxed) == 0 {
            let p = System.alloc_zeroed(l);
            if !p.is_null() {
                account(l.size() as i64);
            }
            return p;
        }
        // Fresh anonymous pages are zero and nothing is handed out twice.
        self.alloc(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if CTL.next.load(Relaxed) == 0 {
            let q = System.realloc(p, l, n);
            if !q.is_null() {
                // Both may exist for a while.
                account(n as i64);
                account(-(l.size() as i64));
            }
            return q;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        }
        q
    }
}
