//! C18: boxes on several threads
#![recursion_limit = "4096"]
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt::{self, Debug, Display};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::mpsc;
use std::sync::{Barrier, MutexGuard};
use tbmon::prelude::*;
tbmon::subjects!();

// ---- who may be sent and shared ----
struct P<T>(PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for P<T> {}
struct Send_<T>(PhantomData<T>);
struct Sync_<T>(PhantomData<T>);
impl<T> No for Send_<T> {}
impl<T> No for Sync_<T> {}
impl<T: Send> Send_<T> {
    const SEND: bool = true;
}
impl<T: Sync> Sync_<T> {
    const SYNC: bool = true;
}
macro_rules! kinds {
    ($($m:ident: $v:tt;)*) => { $( kinds!(@one $m $v); )* };
    (@one $m:ident {$($v:tt)*}) => { #[allow(dead_code)] mod $m { use super::*; tagged_box! { pub struct C, pub enum I { $($v)* } } } };
}
pub struct NotSend(PhantomData<MutexGuard<'static, u8>>, pub u8); // shared, not sent
pub struct Neither(PhantomData<*const u8>, pub u8);
pub struct Forced(*const u8);
unsafe impl Send for Forced {}
kinds! {
    both: { A(u8), B(String, f64), C0 { x: Vec<u8>, }, D, };
    sent: { A(u8), B(Cell<u8>), };
    sent2: { A(u8), B(u16, RefCell<u8>), };
    sent3: { A { x: Cell<u8>, y: u8 }, };
    sent4: { U, A(mpsc::Receiver<u8>), };
    shared: { A(NotSend), };
    shared2: { U, A(u8, NotSend), };
    shared3: { U, S { a: u8, b: NotSend, }, };
    neither: { A(Rc<u8>), };
    neither2: { A(u8), B(u8, Neither), };
    neither3: { A { a: u8, b: *mut u8 }, };
    neither4: { A(Cell<u8>), B(NotSend), };
    units: { A, B, C0, };
    forced: { A(Forced), };
    refs: { A(&'static str), B(&'static AtomicU32), };
    refs2: { A(&'static Cell<u8>), };
    boxes: { A(TaggedBox<u8>), };
    boxes2: { A(TaggedBox<Rc<u8>>), };
    nested: { A(both::C), B(units::C), };
    nested2: { A(neither::C), };
    nested3: { A(sent::C), };
}
fn probes(cx: &mut Cx) {
    macro_rules! same {
        ($($c:ty, $i:ty);* $(;)?) => { $( {
            cx.case(format!("{} and {}", stringify!($c), stringify!($i)));
            let (a, b) = ((Send_::<$c>::SEND, Sync_::<$c>::SYNC), (Send_::<$i>::SEND, Sync_::<$i>::SYNC));
            cx.check(a == b, "auto-traits", || format!("(Send, Sync) of {} is {:?}, of {} {:?}", stringify!($c), a, stringify!($i), b));
            cx.eval(stringify!($c $i).as_bytes());
            cx.count(match b { (true, true) => "types sent and shared", (true, false) => "types sent only", (false, true) => "types shared only", _ => "types confined" }, 1);
        } )* };
    }
    macro_rules! enums { ($($m:ident)*) => { same! { $( $m::C, $m::I; TaggedBox<$m::I>, $m::I; Option<Box<$m::C>>, $m::I; )* } } }
    enums!(both sent sent2 sent3 sent4 shared shared2 shared3 neither neither2 neither3 neither4 units forced refs refs2 boxes boxes2 nested nested2 nested3);
    same! {
        TaggedBox<u8>, u8; TaggedBox<String>, String; TaggedBox<Rc<u8>>, Rc<u8>; TaggedBox<Cell<u8>>, Cell<u8>; TaggedBox<MutexGuard<'static, u8>>, MutexGuard<'static, u8>;
        TaggedBox<*const u8>, *const u8; TaggedBox<&'static Cell<u8>>, &'static Cell<u8>; TaggedBox<TaggedBox<Rc<u8>>>, Rc<u8>; TaggedBox<Arc<Cell<u8>>>, Arc<Cell<u8>>; TaggedBox<dyn_::F>, dyn_::F;
    }
}
mod dyn_ {
    pub type F = Box<dyn Fn()>;
}

// ---- values whose destruction is counted across threads ----
const CAP: usize = 1 << 20;
static DROPS: [AtomicU32; CAP] = [const { AtomicU32::new(0) }; CAP];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static TWICE: AtomicU64 = AtomicU64::new(0);
pub struct STok {
    id: u32,
    val: u64,
    heap: Box<u64>,
}
impl STok {
    fn new(val: u64) -> Self {
        let id = NEXT.fetch_add(1, SeqCst);
        assert!(id < CAP);
        STok { id: id as u32, val, heap: Box::new(val ^ 0x55) }
    }
    fn sound(&self) -> bool {
        *self.heap == self.val ^ 0x55 && DROPS[self.id as usize].load(SeqCst) == 0
    }
}
impl Clone for STok {
    fn clone(&self) -> Self {
        STok::new(self.val)
    }
}
impl Drop for STok {
    fn drop(&mut self) {
        if DROPS[self.id as usize].fetch_add(1, SeqCst) != 0 {
            TWICE.fetch_add(1, SeqCst);
        }
    }
}
impl PartialEq for STok {
    fn eq(&self, o: &Self) -> bool {
        self.val == o.val
    }
}
impl PartialOrd for STok {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.val.partial_cmp(&o.val)
    }
}
impl Debug for STok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "STok({})", self.val)
    }
}
tagged_box! {
    #[derive(Debug, Clone, PartialEq, PartialOrd)]
    struct H, enum HI {
        A(STok),
        B(STok, u64),
        N { x: STok, y: String, },
        U,
        W(u64),
    }
}
fn hgen(v: u64, val: u64) -> HI {
    match v % 5 {
        0 => HI::A(STok::new(val)),
        1 => HI::B(STok::new(val), val),
        2 => HI::N { x: STok::new(val), y: format!("{:x}", val) },
        3 => HI::U,
        _ => HI::W(val),
    }
}
/// (variant, value) if everything in it is sound
fn hval(i: &HI) -> Option<(u64, u64)> {
    match i {
        HI::A(t) if t.sound() => Some((0, t.val)),
        HI::B(t, v) if t.sound() && *v == t.val => Some((1, t.val)),
        HI::N { x, y } if x.sound() && *y == format!("{:x}", x.val) => Some((2, x.val)),
        HI::U => Some((3, 0)),
        HI::W(v) => Some((4, *v)),
        _ => None,
    }
}
fn hview(c: &H) -> Option<(u64, u64)> {
    let mut o = None;
    unsafe { HI::ref_from_tagged_box(&c.value, |i| o = hval(i)) };
    o
}
/// The order in which the threads took their steps
static TICKET: AtomicUsize = AtomicUsize::new(0);
const LOG: usize = 1 << 14;
static ORDER: [AtomicUsize; LOG] = [const { AtomicUsize::new(0) }; LOG];
fn step(thread: usize) {
    tbmon::report::tick();
    let t = TICKET.fetch_add(1, SeqCst);
    if t < LOG {
        ORDER[t].store(thread + 1, SeqCst)
    }
}
fn interleaving() -> (u64, usize) {
    let n = TICKET.swap(0, SeqCst).min(LOG);
    let v: Vec<u8> = ORDER[..n].iter().map(|x| x.load(SeqCst) as u8).collect();
    (tbmon::rng::hash(&v), v.windows(2).filter(|w| w[0] != w[1]).count())
}
fn wait(r: &mut Rng) {
    if cfg!(miri) {
        if r.chance(2) {
            std::thread::yield_now()
        }
        return;
    }
    match r.below(6) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(300) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}
/// Containers go from thread to thread; each arrives once and unchanged
fn pipeline(cx: &mut Cx, stages: usize, items: u64, seen: &mut HashSet<u64>) {
    let seed = cx.rng.u64();
    cx.case(format!("{} containers through {} threads (seed {:#x})", items, stages, seed));
    let bad = std::sync::Mutex::new(Vec::<(&'static str, String)>::new());
    let first = NEXT.load(SeqCst);
    let got = std::thread::scope(|s| {
        let (tx, mut rx) = mpsc::channel::<(u64, H)>();
        s.spawn(move || {
            let mut r = Rng::new(seed);
            for k in 0..items {
                step(0);
                let i = hgen(k, seed ^ k);
                let c = match k % 3 { 0 => H::from(i), 1 => H { value: i.into_tagged_box() }, _ => H::from(H::from(i).into_inner()) };
                wait(&mut r);
                tx.send((k, c)).unwrap();
            }
        });
        for t in 1..stages {
            let (tx, next) = mpsc::channel();
            let rx = std::mem::replace(&mut rx, next);
            let bad = &bad;
            s.spawn(move || {
                let mut r = Rng::new(seed ^ t as u64);
                for (k, c) in rx {
                    step(t);
                    let want = (k % 5, if k % 5 == 3 { 0 } else { seed ^ k });
                    let see = hview(&c);
                    if see != Some(want) {
                        bad.lock().unwrap().push(("pipeline:altered", format!("thread {} sees {:?} instead of {:?}", t, see, want)));
                    }
                    wait(&mut r);
                    let c = match r.below(5) {
                        0 => H::from(c.into_inner()),
                        1 => {
                            let d = c.clone();
                            drop(c.into_inner());
                            d
                        }
                        2 => H { value: c.value },
                        3 => {
                            if c != c.clone_and_leak() {
                                bad.lock().unwrap().push(("pipeline:unequal", format!("thread {} finds a clone of {:?} unequal", t, c)));
                            }
                            c
                        }
                        _ => c,
                    };
                    tx.send((k, c)).unwrap();
                }
            });
        }
        let mut got = vec![];
        for (k, c) in rx {
            step(stages);
            let i = c.into_inner();
            got.push((k, hval(&i)));
        }
        got
    });
    let (h, switches) = interleaving();
    seen.insert(h);
    cx.count("switches between threads", switches as u64);
    for (s, d) in bad.into_inner().unwrap() {
        cx.violation(s, d)
    }
    let want: Vec<_> = (0..items).map(|k| (k, Some((k % 5, if k % 5 == 3 { 0 } else { seed ^ k })))).collect();
    cx.check(got == want, "pipeline:delivery", || format!("{} of {} containers arrived, or in another state", got.len(), items));
    cx.check(TWICE.load(SeqCst) == 0, "pipeline:destroyed-twice", || format!("{} times", TWICE.load(SeqCst)));
    let _ = first;
    cx.eval(format!("pipeline {} {}", seed, h).as_bytes());
    cx.count("containers sent", items * stages as u64);
}
impl H {
    /// A clone taken out and put in again, so that its tokens are destroyed with it only if taken out
    fn clone_and_leak(&self) -> H {
        H::from(self.clone().into_inner())
    }
}
/// All threads read the same containers
fn shared(cx: &mut Cx, threads: usize, n: u64, ops: u64, seen: &mut HashSet<u64>) {
    let seed = cx.rng.u64();
    cx.case(format!("{} containers read by {} threads (seed {:#x})", n, threads, seed));
    let cs: Vec<H> = (0..n).map(|k| H::from(hgen(k, seed ^ (k / 2)))).collect();
    let is: Vec<HI> = (0..n).map(|k| hgen(k, seed ^ (k / 2))).collect();
    let want: Vec<_> = is.iter().map(hval).collect();
    let debug: Vec<String> = is.iter().map(|i| format!("{:?}", i)).collect();
    let words: Vec<u64> = cs.iter().map(word).collect();
    let bad = std::sync::Mutex::new(Vec::<(&'static str, String)>::new());
    let gate = Barrier::new(threads);
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (cs, is, want, debug, bad, gate, done) = (&cs, &is, &want, &debug, &bad, &gate, &done);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ 0x77 ^ t as u64);
                gate.wait();
                for _ in 0..ops {
                    let (x, y) = (r.idx(n as usize), r.idx(n as usize));
                    step(t);
                    let c = &cs[x];
                    let fail = match r.below(6) {
                        0 => (hview(c) != want[x]).then(|| "shared:view"),
                        1 => (format!("{:?}", c.value) != debug[x]).then(|| "shared:debug"),
                        2 => {
                            let d = c.clone();
                            wait(&mut r);
                            let i = d.into_inner();
                            (hval(&i) != want[x]).then(|| "shared:clone")
                        }
                        3 => ((*c == cs[y]) != (is[x] == is[y])).then(|| "shared:=="),
                        4 => (c.partial_cmp(&cs[y]) != is[x].partial_cmp(&is[y])).then(|| "shared:partial_cmp"),
                        _ => {
                            // a view during which others go on
                            let mut ok = true;
                            unsafe {
                                HI::ref_from_tagged_box(&c.value, |i| {
                                    wait(&mut r);
                                    ok = hval(i) == want[x] && hview(&cs[y]) == want[y];
                                })
                            };
                            (!ok).then(|| "shared:nested-view")
                        }
                    };
                    if let Some(f) = fail {
                        bad.lock().unwrap().push((f, format!("thread {}, containers {} and {}", t, x, y)));
                    }
                    done.fetch_add(1, Relaxed);
                    wait(&mut r);
                }
            });
        }
    });
    let (h, switches) = interleaving();
    seen.insert(h);
    cx.count("switches between threads", switches as u64);
    for (s, d) in bad.into_inner().unwrap() {
        cx.violation(s, d)
    }
    cx.count("reads of shared containers", done.load(SeqCst));
    for ((c, w), k) in cs.into_iter().zip(words).zip(0u64..) {
        cx.check(word(&c) == w, "shared:word", || format!("of container {} changed", k));
        let i = c.into_inner();
        cx.check(hval(&i) == want[k as usize], "shared:left", || format!("container {} holds {:?}", k, i));
    }
    cx.check(TWICE.load(SeqCst) == 0, "shared:destroyed-twice", || format!("{} times", TWICE.load(SeqCst)));
    cx.eval(format!("shared {} {}", seed, h).as_bytes());
}
/// A container goes to another thread and back, mutated on the way, many times
fn ping_pong(cx: &mut Cx, rounds: u64) {
    let seed = cx.rng.u64();
    cx.case(format!("one box to and fro {} times (seed {:#x})", rounds, seed));
    let (tx, rx) = mpsc::channel::<TaggedBox<HI>>();
    let (tx2, rx2) = mpsc::channel::<TaggedBox<HI>>();
    let v = std::thread::scope(|s| {
        s.spawn(move || {
            for mut b in rx {
                tbmon::report::tick();
                unsafe { *b.as_mut_ref::<u64>() += 1 };
                if tx2.send(b).is_err() {
                    break;
                }
            }
        });
        let mut b = HI::W(seed >> 1).into_tagged_box();
        for _ in 0..rounds {
            tx.send(b).unwrap();
            b = rx2.recv().unwrap();
            unsafe { *b.as_mut_ref::<u64>() += 1 };
        }
        drop(tx);
        HI::from_tagged_box(b)
    });
    cx.check(v == HI::W((seed >> 1) + 2 * rounds), "ping-pong", || format!("{:?} instead of {}", v, (seed >> 1) + 2 * rounds));
    cx.eval(format!("ping {}", seed).as_bytes());
}
// ---- generated enums (of types that may all be sent and shared) ----
struct Wrap<T>(T);
unsafe impl<T> Send for Wrap<T> {}
unsafe impl<T> Sync for Wrap<T> {}
struct D<'a>(&'a mut Cx, &'a mut HashSet<u64>);
impl GoFull for D<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        let threads = if cfg!(miri) { 2 } else { 6 };
        for round in 0..if cfg!(miri) { 1 } else { cx.n(6) } {
            let seed = cx.rng.u64();
            cx.case(format!("{} on {} threads, round {} (seed {:#x})", S::NAME, threads, round, seed));
            let mut r = Rng::new(seed);
            // made here, shared, then each sent to a thread that takes it apart
            let held: Vec<(S::C, Enc)> = (0..S::n() * 2).map(|k| make::<S>(k % S::n(), &mut r, k % MAKES)).map(|x| (x.0, x.1)).collect();
            let held = Wrap(held);
            let bad = std::sync::Mutex::new(Vec::<(&'static str, String)>::new());
            let ops = if cfg!(miri) { 10 } else { 200 };
            let reads = AtomicU64::new(0);
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (held, bad, reads) = (&held, &bad, &reads);
                    s.spawn(move || {
                        let held = &held.0;
                        let mut r = Rng::new(seed ^ t as u64);
                        for _ in 0..ops {
                            step(t);
                            let (x, y) = (r.idx(held.len()), r.idx(held.len()));
                            let (c, e) = &held[x];
                            let ok = match r.below(4) {
                                0 => view::<S>(c).1.as_ref() == Some(e),
                                1 => view::<S>(&c.clone()).1.as_ref() == Some(e),
                                2 => {
                                    let _ = (c == &held[y].0, c.partial_cmp(&held[y].0), tbmon::drive::sink(c), tbmon::drive::sink_display(S::boxed(c)));
                                    view::<S>(c).1.as_ref() == Some(e)
                                }
                                _ => {
                                    let i = take::<S>(e.0, c.clone(), r.idx(TAKES));
                                    S::enc(&i) == *e
                                }
                            };
                            if !ok {
                                bad.lock().unwrap().push(("generated:shared", format!("thread {} read {}", t, show(e))));
                            }
                            reads.fetch_add(1, Relaxed);
                        }
                    });
                }
            });
            let n = held.0.len();
            let parts: Vec<Wrap<Vec<(S::C, Enc)>>> = {
                let mut p: Vec<Vec<(S::C, Enc)>> = (0..threads).map(|_| vec![]).collect();
                for (k, x) in held.0.into_iter().enumerate() {
                    p[k % threads].push(x)
                }
                p.into_iter().map(Wrap).collect()
            };
            let out = AtomicUsize::new(0);
            std::thread::scope(|s| {
                for (t, p) in parts.into_iter().enumerate() {
                    let (bad, out) = (&bad, &out);
                    s.spawn(move || {
                        let p = p;
                        for (c, e) in { p }.0 {
                            step(t);
                            let i = take::<S>(e.0, c, t % TAKES);
                            if S::enc(&i) != e {
                                bad.lock().unwrap().push(("generated:sent", format!("thread {} took {} instead of {}", t, show(&S::enc(&i)), show(&e))));
                            }
                            out.fetch_add(1, SeqCst);
                        }
                    });
                }
            });
            let (h, switches) = interleaving();
            self.1.insert(h);
            cx.count("switches between threads", switches as u64);
            cx.count("reads of shared containers", reads.load(SeqCst));
            for (s, d) in bad.into_inner().unwrap() {
                cx.violation(s, d)
            }
            cx.check(out.load(SeqCst) == n, "generated:lost", || format!("{} of {} containers", n - out.load(SeqCst), n));
            cx.eval(format!("{} {}", S::NAME, h).as_bytes());
        }
        cx.collect();
    }
}
fn main() {
    let mut cx = Cx::new("C18");
    let mut seen = HashSet::new();
    probes(&mut cx);
    let miri = cfg!(miri);
    let part = std::env::args().nth(1);
    let all = part.is_none();
    if all || part.as_deref() == Some("stress") {
        for k in 0..if miri { 1 } else { cx.n(12) } {
            let stages = if miri { 2 } else { 2 + k as usize % 5 };
            pipeline(&mut cx, stages, if miri { 6 } else { 400 }, &mut seen);
            let threads = if miri { 2 } else { 2 + k as usize % 7 };
            shared(&mut cx, threads, if miri { 5 } else { 4 + 8 * (k % 4) }, if miri { 8 } else { 400 }, &mut seen);
            ping_pong(&mut cx, if miri { 3 } else { 200 });
        }
    }
    if all || part.as_deref() == Some("generated") {
        subjects::full(&mut D(&mut cx, &mut seen));
    }
    cx.count("distinct interleavings", seen.len() as u64);
    cx.finish()
}
