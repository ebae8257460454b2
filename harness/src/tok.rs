//! Destructor-carrying tokens and the ledger of their lives, plus the fuses that make the n-th
//! piece of user code panic or report an error.
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};

const CAP: usize = if cfg!(miri) { 1 << 14 } else { 1 << 20 };
static STATE: [AtomicU8; CAP] = [const { AtomicU8::new(0) }; CAP];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static ZLIVE: AtomicI64 = AtomicI64::new(0);
static DROPS: AtomicU64 = AtomicU64::new(0);
static ZDROPS: AtomicU64 = AtomicU64::new(0);
/// (double drops, drops of garbage)
static DOUBLE: AtomicU64 = AtomicU64::new(0);
static GARBAGE: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static ERRFUSE: Cell<i64> = const { Cell::new(-1) };
    static FERR: Cell<u64> = const { Cell::new(0) };
}
pub struct Blown;
/// Panic in the n-th piece of user code from now (0 disarms)
pub fn arm(n: i64) {
    FUSE.with(|f| f.set(if n == 0 { -1 } else { n }));
}
pub fn armed() -> bool {
    FUSE.with(|f| f.get() > 0)
}
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}
/// Every piece of user code calls this
pub fn tick() {
    TICKS.with(|t| t.set(t.get() + 1));
    FUSE.with(|f| {
        let n = f.get();
        if n > 0 {
            f.set(n - 1);
            if n == 1 {
                f.set(-1);
                std::panic::panic_any(Blown);
            }
        }
    })
}
/// The n-th formatting of a token from now reports fmt::Error (0 disarms)
pub fn arm_fmt_error(n: i64) {
    ERRFUSE.with(|f| f.set(if n == 0 { -1 } else { n }));
}
pub fn fmt_errors() -> u64 {
    FERR.with(|f| f.get())
}
pub fn fmt_gate() -> fmt::Result {
    ERRFUSE.with(|f| {
        let n = f.get();
        if n > 0 {
            f.set(n - 1);
            if n == 1 {
                f.set(-1);
                FERR.with(|x| x.set(x.get() + 1));
                return Err(fmt::Error);
            }
        }
        Ok(())
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Census {
    pub live: i64,
    pub zlive: i64,
    pub drops: u64,
    pub zdrops: u64,
    pub double: u64,
    pub garbage: u64,
}
pub fn census() -> Census {
    Census {
        live: LIVE.load(SeqCst),
        zlive: ZLIVE.load(SeqCst),
        drops: DROPS.load(SeqCst),
        zdrops: ZDROPS.load(SeqCst),
        double: DOUBLE.load(SeqCst),
        garbage: GARBAGE.load(SeqCst),
    }
}
pub fn alive(id: u32) -> bool {
    (id as usize) < CAP && STATE[id as usize].load(SeqCst) == 1
}
/// Forget all tokens (to be called when none is reachable any more)
pub fn reset() {
    let n = NEXT.swap(0, SeqCst).min(CAP);
    for s in &STATE[..n] {
        s.store(0, SeqCst);
    }
    LIVE.store(0, SeqCst);
    ZLIVE.store(0, SeqCst);
}
pub fn issued() -> usize {
    NEXT.load(SeqCst)
}
/// Is it time for a reset?
pub fn filling() -> bool {
    NEXT.load(SeqCst) > CAP / 2
}

const CANARY: u64 = 0x0dd_c0ffee_0dd_f00d;
/// A value with an identity, heap data and an observable destructor
pub struct Tok {
    canary: u64,
    pub id: u32,
    pub val: u32,
    heap: Box<u64>,
}
impl Tok {
    pub fn new(val: u32) -> Self {
        let id = NEXT.fetch_add(1, SeqCst);
        assert!(id < CAP, "token ledger full");
        STATE[id].store(1, SeqCst);
        LIVE.fetch_add(1, SeqCst);
        Tok { canary: CANARY ^ id as u64, id: id as u32, val, heap: Box::new(CANARY ^ val as u64) }
    }
    /// Does this look like a token that is alive?
    pub fn sound(&self) -> bool {
        self.canary == CANARY ^ self.id as u64 && alive(self.id) && *self.heap == CANARY ^ self.val as u64
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        DROPS.fetch_add(1, SeqCst);
        let id = self.id as usize;
        if self.canary != CANARY ^ self.id as u64 || id >= CAP {
            GARBAGE.fetch_add(1, SeqCst);
            std::mem::forget(std::mem::replace(&mut self.heap, Box::new(0))); // not ours to free
            return;
        }
        match STATE[id].swap(2, SeqCst) {
            1 => {
                LIVE.fetch_sub(1, SeqCst);
            }
            _ => {
                DOUBLE.fetch_add(1, SeqCst);
                std::mem::forget(std::mem::replace(&mut self.heap, Box::new(0))); // already freed
            }
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        tick();
        Tok::new(self.val)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.val == o.val
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        tick();
        Some(self.val.cmp(&o.val))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.val.cmp(&o.val)
    }
}
impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick();
        fmt_gate()?;
        f.debug_struct("Tok").field("val", &self.val).finish()
    }
}
impl fmt::Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick();
        fmt_gate()?;
        fmt::Display::fmt(&self.val, f)
    }
}

macro_rules! zst {
    ($name:ident $(, $attr:meta)?) => {
        /// A zero-sized value with an observable destructor
        $(#[$attr])?
        #[derive(PartialEq, Eq, PartialOrd, Ord)]
        pub struct $name(());
        impl $name {
            pub fn new() -> Self {
                ZLIVE.fetch_add(1, SeqCst);
                $name(())
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::new()
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                ZDROPS.fetch_add(1, SeqCst);
                if ZLIVE.fetch_sub(1, SeqCst) <= 0 {
                    DOUBLE.fetch_add(1, SeqCst);
                }
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                tick();
                Self::new()
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                tick();
                fmt_gate()?;
                f.write_str(stringify!($name))
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                tick();
                fmt_gate()?;
                f.pad(stringify!($name))
            }
        }
    };
}
zst!(ZTok);
zst!(ZTok64, repr(align(64)));
