//! C27: user code that runs inside an operation uses the crate itself, also on the very boxes of that operation
#![recursion_limit = "4096"]
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display, Formatter};
use tbmon::prelude::*;

thread_local! {
    static RNG: RefCell<Rng> = RefCell::new(Rng::new(1));
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    /// How much more may be done from within the operation at the top
    static BUDGET: Cell<u32> = const { Cell::new(0) };
    static POOL: RefCell<Vec<Rc<Slot>>> = const { RefCell::new(vec![]) };
    static BAD: RefCell<Vec<(&'static str, String)>> = const { RefCell::new(vec![]) };
    static DONE: RefCell<std::collections::BTreeMap<(u32, &'static str, &'static str), u64>> = const { RefCell::new(std::collections::BTreeMap::new()) };
}
fn rnd(n: u64) -> u64 {
    RNG.with(|r| r.borrow_mut().below(n))
}
fn bad(kind: &'static str, d: String) {
    BAD.with(|b| b.borrow_mut().push((kind, format!("at depth {}: {}", DEPTH.with(Cell::get), d))))
}

/// A value all of whose code does something else with the crate first
pub struct Busy {
    val: u32,
    tok: Tok,
}
impl Busy {
    fn new(val: u32) -> Self {
        Busy { val, tok: Tok::new(val) }
    }
    fn sound(&self) -> bool {
        self.tok.sound() && self.tok.val == self.val
    }
}
/// The same without
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Calm(u32);
impl Debug for Calm {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "b{}", self.0)
    }
}
impl Display for Calm {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.0, f)
    }
}
impl Clone for Busy {
    fn clone(&self) -> Self {
        busy("clone");
        if !self.sound() {
            bad("value", "clone of a value that is none".into());
        }
        Busy::new(self.val)
    }
}
impl PartialEq for Busy {
    fn eq(&self, o: &Self) -> bool {
        let x = self.val == o.val;
        busy("eq");
        x && self.val == o.val
    }
}
impl Eq for Busy {}
impl PartialOrd for Busy {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        busy("partial_cmp");
        self.val.partial_cmp(&o.val)
    }
}
impl Ord for Busy {
    fn cmp(&self, o: &Self) -> Ordering {
        let x = self.val.cmp(&o.val);
        busy("cmp");
        x
    }
}
impl Debug for Busy {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "b")?;
        busy("debug");
        write!(f, "{}", self.val)
    }
}
impl Display for Busy {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        busy("display");
        Display::fmt(&self.val, f)
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        busy("drop");
        if !self.sound() {
            bad("value", "drop of a value that is none".into());
        }
    }
}

macro_rules! both {
    () => {
        pub mod real {
            use super::*;
            type P = Busy;
            tagged_box! {
                #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
                pub struct Cont, pub enum Kind {
                    One(P),
                    Two(P, u8),
                    Named { a: P, b: String, c: P },
                    Nothing,
                    Several(Vec<P>),
                    Far(Box<P>),
                    Tail { only: Option<P>, },
                }
            }
            show!();
            impl Cont {
                pub fn inside(&self) -> &TaggedBox<Kind> { &self.value }
                pub fn unwrapped(self) -> TaggedBox<Kind> { self.value }
                pub fn wrapped(b: TaggedBox<Kind>) -> Self { Cont { value: b } }
            }
        }
        pub mod calm {
            use super::*;
            type P = Calm;
            #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
            pub struct Cont { pub value: Kind }
            #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
            pub enum Kind {
                One(P),
                Two(P, u8),
                Named { a: P, b: String, c: P },
                Nothing,
                Several(Vec<P>),
                Far(Box<P>),
                Tail { only: Option<P>, },
            }
            show!();
        }
    };
}
macro_rules! show {
    () => {
        impl Display for Kind {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                match self {
                    Kind::One(p) => Display::fmt(p, f),
                    Kind::Two(p, n) => write!(f, "{:>3}/{}", p, n),
                    Kind::Named { a, b, c } => write!(f, "{}{}{}", c, b, a),
                    Kind::Nothing => f.pad("none"),
                    Kind::Several(v) => v.iter().try_for_each(|p| Display::fmt(p, f)),
                    Kind::Far(p) => Display::fmt(p, f),
                    Kind::Tail { only } => write!(f, "{:?}", only),
                }
            }
        }
    };
}
both!();
use real::{Cont, Kind};

pub struct Slot {
    c: Cont,
    m: calm::Cont,
}

fn fresh() -> Kind {
    let n = |k| rnd(k) as u32;
    match rnd(7) {
        0 => Kind::One(Busy::new(n(4))),
        1 => Kind::Two(Busy::new(n(4)), n(3) as u8),
        2 => Kind::Named { a: Busy::new(n(3)), b: ["", "x", "yy"][n(3) as usize].into(), c: Busy::new(n(4)) },
        3 => Kind::Nothing,
        4 => Kind::Several((0..n(4)).map(|_| Busy::new(n(3))).collect()),
        5 => Kind::Far(Box::new(Busy::new(n(5)))),
        _ => Kind::Tail { only: if n(2) == 0 { None } else { Some(Busy::new(n(5))) } },
    }
}
/// What a value ought to look like, read from it without running any of its code
fn calm_of(k: &Kind) -> calm::Kind {
    let p = |b: &Busy| {
        if !b.sound() {
            bad("value", "a value that is none".into());
        }
        Calm(b.val)
    };
    match k {
        Kind::One(a) => calm::Kind::One(p(a)),
        Kind::Two(a, n) => calm::Kind::Two(p(a), *n),
        Kind::Named { a, b, c } => calm::Kind::Named { a: p(a), b: b.clone(), c: p(c) },
        Kind::Nothing => calm::Kind::Nothing,
        Kind::Several(v) => calm::Kind::Several(v.iter().map(p).collect()),
        Kind::Far(a) => calm::Kind::Far(Box::new(p(a))),
        Kind::Tail { only } => calm::Kind::Tail { only: only.as_ref().map(p) },
    }
}
fn contained(c: &Cont) -> calm::Cont {
    let mut m = None;
    unsafe { Kind::ref_from_tagged_box(c.inside(), |k| m = Some(calm_of(k))) };
    calm::Cont { value: m.expect("no view") }
}
fn pick() -> Option<Rc<Slot>> {
    POOL.with(|p| {
        let p = p.borrow();
        if p.is_empty() { None } else { Some(p[rnd(p.len() as u64) as usize].clone()) }
    })
}

/// Something done with the crate, from within its own operations
fn busy(from: &'static str) {
    let d = DEPTH.with(Cell::get);
    if d >= 6 || BUDGET.with(Cell::get) == 0 || rnd(3) == 0 {
        return;
    }
    BUDGET.with(|b| b.set(b.get() - 1));
    DEPTH.with(|x| x.set(d + 1));
    operation(from);
    DEPTH.with(|x| x.set(d));
}
macro_rules! expect {
    ($kind:literal, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        if a != b {
            bad($kind, format!("{:?} instead of {:?}", a, b))
        }
    }};
}
fn operation(from: &'static str) {
    let (Some(a), Some(b)) = (pick(), pick()) else { return };
    let (w, v) = (word(&a.c), word(&b.c));
    let what = match rnd(13) {
        0 => {
            expect!("view", contained(&a.c), a.m.clone());
            "view"
        }
        1 => {
            // views of both, and whatever else in the middle
            unsafe {
                Kind::ref_from_tagged_box(a.c.inside(), |x| {
                    busy("callback");
                    Kind::ref_from_tagged_box(b.c.inside(), |y| {
                        busy("callback");
                        expect!("nested views", (calm_of(x), calm_of(y)), (a.m.value.clone(), b.m.value.clone()));
                        expect!("nested views compared", x == y, a.m == b.m);
                    });
                    expect!("view after", calm_of(x), a.m.value.clone());
                })
            };
            "nested views"
        }
        2 => {
            let c = if rnd(2) == 0 { a.c.clone() } else { Cont::wrapped(a.c.inside().clone()) };
            expect!("clone", contained(&c), a.m.clone());
            let k = c.into_inner();
            expect!("clone taken out", calm_of(&k), a.m.value.clone());
            "clone"
        }
        3 => {
            expect!("eq", a.c == b.c, a.m == b.m);
            "eq"
        }
        4 => {
            expect!("partial_cmp", a.c.partial_cmp(&b.c), a.m.partial_cmp(&b.m));
            "partial_cmp"
        }
        5 => {
            expect!("cmp", a.c.inside().cmp(b.c.inside()), a.m.cmp(&b.m));
            "cmp"
        }
        6 => {
            expect!("less", (a.c < b.c, a.c.inside() >= b.c.inside()), (a.m < b.m, a.m >= b.m));
            "less"
        }
        7 => {
            expect!("debug", format!("{:?}", a.c), format!("{:?}", a.m));
            "debug"
        }
        8 => {
            expect!("display", format!("{:>5}", a.c.inside()), format!("{:>5}", a.m.value));
            "display"
        }
        9 => {
            // a new value through a box and back
            let k = fresh();
            let m = calm_of(&k);
            let c = if rnd(2) == 0 { Cont::from(k) } else { Cont::wrapped(k.into_tagged_box()) };
            busy("in between");
            expect!("new", contained(&c).value, m.clone());
            let k = if rnd(2) == 0 { c.into_inner() } else { Kind::from_tagged_box(c.unwrapped()) };
            expect!("new taken out", calm_of(&k), m);
            "round trip"
        }
        10 => {
            // a new one to stay, or one that goes
            let k = fresh();
            let m = calm::Cont { value: calm_of(&k) };
            let s = Rc::new(Slot { c: Cont::from(k), m });
            let old = POOL.with(|p| {
                let mut p = p.borrow_mut();
                p.push(s);
                if p.len() > 9 { let n = p.len() as u64; Some(p.swap_remove(rnd(n) as usize)) } else { None }
            });
            if let Some(Ok(s)) = old.map(Rc::try_unwrap) {
                let k = s.c.into_inner();
                expect!("taken out", calm_of(&k), s.m.value);
            }
            "pool"
        }
        11 => {
            // a panic within
            let r = catch(|| unsafe {
                Kind::ref_from_tagged_box(a.c.inside(), |k| {
                    expect!("view before a panic", calm_of(k), a.m.value.clone());
                    if rnd(2) == 0 {
                        busy("callback");
                    }
                    std::panic::panic_any(tok::Blown);
                })
            });
            if r.is_ok() {
                bad("panic", "a panic got lost".into())
            }
            "panic"
        }
        _ => {
            let p = TaggedPointer::new(rnd(MAX_POINTER_VALUE), rnd(MAX_DISCRIMINANT as u64) as Discriminant);
            busy("in between");
            let q = TaggedBox::<Kind>::new(Busy::new(3), 200u8.min(MAX_DISCRIMINANT.min(200) as u8) as Discriminant);
            let x: Busy = unsafe { TaggedBox::into_inner(q) };
            expect!("raw box", (x.sound(), x.val, TaggedPointer::fetch_discriminant(p.as_raw_u64())), (true, 3, p.discriminant()));
            "raw"
        }
    };
    if word(&a.c) != w || word(&b.c) != v {
        bad("word", format!("{} changed a box", what));
    }
    DONE.with(|d| *d.borrow_mut().entry((DEPTH.with(Cell::get), from, what)).or_insert(0) += 1);
}

// operations within each other's user code, in one long chain
thread_local! {
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static NEXT: Cell<u32> = const { Cell::new(0) };
    static RUN: Cell<u32> = const { Cell::new(0) };
    static ODD: Cell<u32> = const { Cell::new(0) };
    static CHAIN: RefCell<Rc<Vec<ChainC>>> = RefCell::new(Rc::new(vec![]));
}
struct Link(u32);
/// (what is done within each other; the step from one box to the next)
const WAYS: [(&[u8], usize); 10] =
    [(&[0], 0), (&[1], 0), (&[2], 0), (&[3], 0), (&[4], 0), (&[5], 0), (&[6], 0), (&[0, 1, 2, 3, 4, 5, 6], 1), (&[1, 0, 6], 0), (&[4, 5, 2], 1)];
fn again() {
    if LEFT.with(|l| l.get()) == 0 {
        return;
    }
    LEFT.with(|l| l.set(l.get() - 1));
    let (ops, step) = WAYS[RUN.with(Cell::get) as usize];
    let k = NEXT.with(|n| n.replace(n.get() + 1)) as usize;
    let all = CHAIN.with(|c| c.borrow().clone());
    let at = k * step % all.len();
    let (x, next) = (&all[at], &all[(at + 1) % all.len()]);
    let fine = match ops[k % ops.len()] {
        0 => {
            let c = x.clone();
            let same = c.is(at);
            // (neither is looked at with operations that go on)
            std::mem::forget(c);
            same
        }
        1 => x == x && x != next,
        2 => x.partial_cmp(x) == Some(Ordering::Equal) && x.partial_cmp(next) == Some(at.cmp(&((at + 1) % all.len()))),
        3 => x.cmp(x) == Ordering::Equal,
        4 => format!("{:?}", x.inside()) == ["Un(7)", "Deux(1, 8)", "Trois { a: 9 }"][at],
        5 => format!("{}", x.inside()) == ["7", "8", "9"][at],
        _ => {
            let (mut n, mut ok) = (0, true);
            unsafe {
                Chain::ref_from_tagged_box(x.inside(), |v| {
                    n += 1;
                    ok = v.link().0 == 7 + at as u32;
                    again();
                    ok &= v.link().0 == 7 + at as u32;
                })
            }
            n == 1 && ok
        }
    };
    if !fine {
        ODD.with(|o| o.set(o.get() + 1))
    }
    tbmon::report::tick()
}
impl Clone for Link {
    fn clone(&self) -> Self {
        again();
        Link(self.0)
    }
}
impl PartialEq for Link {
    fn eq(&self, o: &Self) -> bool {
        again();
        self.0 == o.0
    }
}
impl Eq for Link {}
impl PartialOrd for Link {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        again();
        self.0.partial_cmp(&o.0)
    }
}
impl Ord for Link {
    fn cmp(&self, o: &Self) -> Ordering {
        again();
        self.0.cmp(&o.0)
    }
}
impl Debug for Link {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        again();
        Debug::fmt(&self.0, f)
    }
}
tagged_box! {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    struct ChainC, enum Chain {
        Un(Link),
        Deux(u8, Link),
        Trois { a: Link, },
    }
}
impl Chain {
    fn link(&self) -> &Link {
        match self {
            Chain::Un(l) | Chain::Deux(_, l) | Chain::Trois { a: l } => l,
        }
    }
}
impl Display for Chain {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        again();
        Display::fmt(&self.link().0, f)
    }
}
impl ChainC {
    fn inside(&self) -> &TaggedBox<Chain> {
        &self.value
    }
    fn is(&self, at: usize) -> bool {
        let mut n = None;
        unsafe { Chain::ref_from_tagged_box(&self.value, |v| n = Some(v.link().0)) };
        n == Some(7 + at as u32) && self.value.discriminant() as usize == at
    }
}
fn chains(cx: &mut Cx) {
    CHAIN.with(|c| *c.borrow_mut() = Rc::new(vec![ChainC::from(Chain::Un(Link(7))), ChainC::from(Chain::Deux(1, Link(8))), ChainC::from(Chain::Trois { a: Link(9) })]));
    for (way, (ops, _)) in WAYS.iter().enumerate() {
        for long in if cfg!(miri) { vec![12] } else { vec![20, 40, 70, 130, 260, 520, 1100, 5000] } {
            cx.case(format!("chain {} of {} operations ({:?})", way, long, ops));
            RUN.with(|r| r.set(way as u32));
            LEFT.with(|l| l.set(long));
            NEXT.with(|n| n.set(0));
            if let Err(m) = catch(again) {
                cx.violation("chain:panic", m);
            }
            let odd = ODD.with(|o| o.replace(0));
            cx.check(odd == 0, "chain:result", || format!("{} of the operations gave something else", odd));
            let left = LEFT.with(|l| l.replace(0));
            cx.check(left == 0, "chain:never-called", || format!("{} operations were never begun", left));
            let all = CHAIN.with(|c| c.borrow().clone());
            cx.check(all.iter().enumerate().all(|(i, c)| c.is(i)), "chain:changed", || "a box has changed".into());
            cx.eval(format!("chain {} {}", way, long).as_bytes());
            cx.max("most operations within one another", long as u64);
        }
    }
}

fn main() {
    if cfg!(miri) {
        return run();
    }
    // (for operations within operations)
    std::thread::Builder::new().stack_size(1 << 29).spawn(run).unwrap().join().unwrap()
}
fn run() {
    let mut cx = Cx::new("C27");
    chains(&mut cx);
    let steps = if cfg!(miri) { cx.n(30) } else { cx.n(3000) };
    RNG.with(|r| *r.borrow_mut() = Rng::new(cx.rng.u64()));
    for _ in 0..5 {
        let k = fresh();
        let m = calm::Cont { value: calm_of(&k) };
        POOL.with(|p| p.borrow_mut().push(Rc::new(Slot { c: Cont::from(k), m })));
    }
    for step in 0..steps {
        cx.case(format!("step {}", step));
        BUDGET.with(|b| b.set(if cfg!(miri) { 4 } else { 1 + rnd(40) as u32 }));
        if let Err(m) = catch(|| operation("top")) {
            cx.violation("panic", m);
            DEPTH.with(|d| d.set(0));
        }
        BUDGET.with(|b| b.set(0));
        for (k, d) in BAD.with(|b| std::mem::take(&mut *b.borrow_mut())) {
            cx.violation(k, d);
        }
        let all: Vec<Rc<Slot>> = POOL.with(|p| p.borrow().clone());
        let mut text = String::new();
        for (i, s) in all.iter().enumerate() {
            let c = contained(&s.c);
            cx.check(c == s.m, "changed", || format!("slot {} holds {:?} instead of {:?}", i, c, s.m));
            text += &format!("{:?}", c);
        }
        cx.eval(text.as_bytes());
        cx.observe(text.as_bytes());
        cx.collect();
        if step % 500 == 499 {
            // everything out
            drop(all);
            let held = POOL.with(|p| std::mem::take(&mut *p.borrow_mut()));
            let before = tok::census();
            let mut n = 0;
            for s in held {
                if let Ok(s) = Rc::try_unwrap(s) {
                    let k = s.c.into_inner();
                    cx.check(calm_of(&k) == s.m.value, "taken out at the end", || format!("{:?}", s.m));
                    n += format!("{:?}", s.m).matches('b').count() as u64 - matches!(s.m.value, calm::Kind::Named { .. }) as u64;
                    drop(k);
                }
            }
            let after = tok::census();
            cx.check(after.drops - before.drops == n, "taken out at the end", || format!("{} destroyed of {}", after.drops - before.drops, n));
            if tok::filling() {
                tok::reset();
            }
            for _ in 0..4 {
                let k = fresh();
                let m = calm::Cont { value: calm_of(&k) };
                POOL.with(|p| p.borrow_mut().push(Rc::new(Slot { c: Cont::from(k), m })));
            }
        }
    }
    let mut pairs = std::collections::BTreeSet::new();
    let done = DONE.with(|d| d.borrow().clone());
    for ((d, from, what), n) in done {
        cx.count("operations from within operations", if d > 0 { n } else { 0 });
        cx.max("most operations within one another", d as u64 + 1);
        if d > 0 {
            pairs.insert((from, what));
        }
    }
    cx.max("most different pairs of operation within user code", pairs.len() as u64);
    std::mem::forget(POOL.with(|p| std::mem::take(&mut *p.borrow_mut())));
    cx.finish()
}
