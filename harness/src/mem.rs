//! The monitoring global allocator.
//!
//! * per-thread event log and counters (what did this operation allocate and free?)
//! * refusal of the n-th allocation of a thread (fault injection)
//! * in native builds also: red zones around each block, layout check on free, double/foreign free
//!   detection, poisoning and a quarantine with use-after-free-write detection.
//!   Under Miri and the sanitizers (`--cfg mon_plain`) the blocks go straight to the system
//!   allocator, so that those tools see the program's own allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

pub struct Mon;

pub const GUARDED: bool = cfg!(not(any(miri, mon_plain)));
pub const LOG: usize = 96;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ev {
    pub alloc: bool,
    pub addr: usize,
    pub size: usize,
    pub align: usize,
}
impl Ev {
    pub fn shape(&self) -> (bool, usize, usize) {
        (self.alloc, self.size, self.align)
    }
}

struct Tl {
    logging: Cell<bool>,
    n: Cell<usize>,
    ev: UnsafeCell<[Ev; LOG]>,
    live_blocks: Cell<i64>,
    live_bytes: Cell<i64>,
    fail_in: Cell<i64>,
    failed: Cell<u64>,
    asked: Cell<u64>,
}
thread_local! {
    static TL: Tl = const { Tl {
        logging: Cell::new(false), n: Cell::new(0),
        ev: UnsafeCell::new([Ev { alloc: false, addr: 0, size: 0, align: 0 }; LOG]),
        live_blocks: Cell::new(0), live_bytes: Cell::new(0), fail_in: Cell::new(-1), failed: Cell::new(0), asked: Cell::new(0),
    } };
}

fn note(alloc: bool, addr: usize, l: Layout) {
    let _ = TL.try_with(|t| {
        let s = if alloc { 1 } else { -1 };
        t.live_blocks.set(t.live_blocks.get() + s);
        t.live_bytes.set(t.live_bytes.get() + s * l.size() as i64);
        if t.logging.get() {
            let i = t.n.get();
            if i < LOG {
                unsafe { (*t.ev.get())[i] = Ev { alloc, addr, size: l.size(), align: l.align() } };
            }
            t.n.set(i + 1);
        }
    });
}
fn refuse() -> bool {
    TL.try_with(|t| {
        t.asked.set(t.asked.get() + 1);
        let n = t.fail_in.get();
        if n > 0 {
            t.fail_in.set(n - 1);
            if n == 1 {
                t.failed.set(t.failed.get() + 1);
                t.fail_in.set(-1);
                return true;
            }
        }
        false
    })
    .unwrap_or(false)
}

/// (net live blocks, net live bytes) allocated by this thread
pub fn live() -> (i64, i64) {
    TL.with(|t| (t.live_blocks.get(), t.live_bytes.get()))
}
/// Refuse this thread's n-th allocation from now (1 = the next one); 0 disarms.
pub fn fail_nth(n: i64) {
    TL.with(|t| t.fail_in.set(if n == 0 { -1 } else { n }));
}
/// How often this thread has asked for memory
pub fn allocations() -> u64 {
    TL.with(|t| t.asked.get())
}
pub fn failures() -> u64 {
    TL.with(|t| t.failed.get())
}
/// The allocator events of this thread while `f` runs (None if there were more than fit).
pub fn scope<R>(f: impl FnOnce() -> R) -> (R, Vec<Ev>) {
    TL.with(|t| {
        t.n.set(0);
        t.logging.set(true);
    });
    let r = f();
    TL.with(|t| t.logging.set(false));
    let n = TL.with(|t| t.n.get());
    assert!(n <= LOG, "event log too short: {}", n);
    let v = TL.with(|t| unsafe { (&*t.ev.get())[..n].to_vec() });
    (r, v)
}

// ---- violations seen by the allocator (no allocation while recording) ----
#[derive(Clone, Copy)]
pub struct Bad {
    pub code: u64,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}
const NBAD: usize = 16;
static NB: AtomicUsize = AtomicUsize::new(0);
static BAD: [[AtomicU64; 4]; NBAD] = [const { [const { AtomicU64::new(0) }; 4] }; NBAD];
pub const NAMES: [&str; 6] =
    ["?", "free of a block with a different layout", "free of a block that is not live", "write outside the block (red zone damaged)",
     "write after free (poison damaged)", "zero-sized request to the allocator"];
fn bad(code: u64, a: u64, b: u64, c: u64) {
    let i = NB.fetch_add(1, SeqCst);
    if i < NBAD {
        for (k, v) in [code, a, b, c].iter().enumerate() {
            BAD[i][k].store(*v, SeqCst);
        }
    }
}
/// Violations recorded since the last call
pub fn take_violations() -> Vec<(&'static str, String)> {
    check_quarantine();
    let n = NB.swap(0, SeqCst).min(NBAD);
    (0..n)
        .map(|i| {
            let f = |k: usize| BAD[i][k].load(SeqCst);
            (NAMES[f(0) as usize], format!("{} ({} / {} / {})", NAMES[f(0) as usize], f(1), f(2), f(3)))
        })
        .collect()
}

// ---- guarded blocks ----
const MAGIC: u64 = 0x7461_6767_6564_2121;
const DEAD: u64 = 0x6465_6164_6465_6164;
const RZ: usize = 32;
#[repr(C)]
struct Hdr {
    magic: u64,
    size: u64,
    align: u64,
    base: u64,
}
fn front(align: usize) -> usize {
    let need = std::mem::size_of::<Hdr>() + RZ;
    (need + align - 1) / align * align
}
fn whole(l: Layout) -> Layout {
    let a = l.align().max(16);
    Layout::from_size_align(front(a) + l.size() + RZ, a).unwrap()
}
const GAP: u8 = 0xA5;
const FREED: u8 = 0xDD;

const NQ: usize = 512;
const QMAX: usize = 4096; // larger blocks are not quarantined
static QLOCK: AtomicBool = AtomicBool::new(false);
static mut Q: [usize; NQ] = [0; NQ];
static mut QI: usize = 0;
fn lock() {
    while QLOCK.compare_exchange(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    QLOCK.store(false, Release);
}
unsafe fn hdr(p: *mut u8) -> *mut Hdr {
    p.sub(RZ + std::mem::size_of::<Hdr>()) as *mut Hdr
}
unsafe fn poisoned(p: *mut u8) -> bool {
    let n = (*hdr(p)).size as usize;
    std::slice::from_raw_parts(p, n).iter().all(|b| *b == FREED)
}
unsafe fn zones_ok(p: *mut u8, size: usize) -> bool {
    std::slice::from_raw_parts(p.sub(RZ), RZ).iter().all(|b| *b == GAP)
        && std::slice::from_raw_parts(p.add(size), RZ).iter().all(|b| *b == GAP)
}
unsafe fn release(p: *mut u8) {
    let h = &*hdr(p);
    let l = Layout::from_size_align_unchecked(h.size as usize, h.align as usize);
    let base = h.base as *mut u8;
    System.dealloc(base, whole(l));
}
fn check_quarantine() {
    if !GUARDED {
        return;
    }
    lock();
    unsafe {
        for i in 0..NQ {
            let p = Q[i] as *mut u8;
            if !p.is_null() && !poisoned(p) {
                bad(4, p as u64, (*hdr(p)).size, 0);
                std::ptr::write_bytes(p, FREED, (*hdr(p)).size as usize);
            }
        }
    }
    unlock();
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        if l.size() == 0 {
            bad(5, l.align() as u64, 0, 0);
        }
        if !GUARDED {
            let p = System.alloc(l);
            note(true, p as usize, l);
            return p;
        }
        let w = whole(l);
        let base = System.alloc(w);
        if base.is_null() {
            return base;
        }
        let p = base.add(front(l.align().max(16)));
        std::ptr::write_bytes(p.sub(RZ), GAP, RZ);
        std::ptr::write_bytes(p, 0xC3, l.size());
        std::ptr::write_bytes(p.add(l.size()), GAP, RZ);
        *hdr(p) = Hdr { magic: MAGIC, size: l.size() as u64, align: l.align() as u64, base: base as u64 };
        note(true, p as usize, l);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(false, p as usize, l);
        if !GUARDED {
            return System.dealloc(p, l);
        }
        let h = &mut *hdr(p);
        if h.magic != MAGIC {
            return bad(2, p as u64, l.size() as u64, l.align() as u64);
        }
        let size = h.size as usize;
        if size != l.size() || h.align as usize != l.align() {
            bad(1, h.size, l.size() as u64, h.align << 32 | l.align() as u64);
        }
        if !zones_ok(p, size) {
            bad(3, p as u64, h.size, h.align);
        }
        h.magic = DEAD;
        std::ptr::write_bytes(p, FREED, size);
        if size > QMAX {
            return release(p);
        }
        lock();
        let i = QI % NQ;
        let old = Q[i] as *mut u8;
        Q[i] = p as usize;
        QI += 1;
        if !old.is_null() {
            if !poisoned(old) {
                bad(4, old as u64, (*hdr(old)).size, 0);
            }
            unlock();
            release(old);
        } else {
            unlock();
        }
    }
}

/// Is this the start of a live block? (guarded builds only; None elsewhere)
/// # Safety
/// `p` must be the address of a block handed out by this allocator, live or quarantined.
pub unsafe fn block_at(p: usize) -> Option<(usize, usize)> {
    if !GUARDED {
        return None;
    }
    let h = &*hdr(p as *mut u8);
    if h.magic == MAGIC {
        Some((h.size as usize, h.align as usize))
    } else {
        Some((usize::MAX, usize::MAX))
    }
}
/// # Safety
/// as for [`block_at`]
pub unsafe fn block_intact(p: usize) -> bool {
    !GUARDED || ((*hdr(p as *mut u8)).magic == MAGIC && zones_ok(p as *mut u8, (*hdr(p as *mut u8)).size as usize))
}
