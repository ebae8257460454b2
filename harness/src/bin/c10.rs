//! C10: a view is a faithful borrow
#![recursion_limit = "4096"]
use std::cell::Cell;
use tbmon::drive::*;
use tbmon::prelude::*;
tbmon::subjects!();

fn bytes<S: Subject>(v: usize, c: &S::C) -> Vec<u8> {
    // raw storage, up to the size the variant certainly has (padding may be uninitialized: not under Miri)
    if cfg!(miri) {
        return vec![];
    }
    let n = S::storage(v).min;
    unsafe { std::slice::from_raw_parts(addr::<S>(c) as *const u8, n).to_vec() }
}
fn nest<S: Subject>(cx: &mut Cx, held: &[Held<S>], path: &[usize], depth: usize) {
    let Some((i, rest)) = path.split_first() else { return };
    let h = &held[*i];
    let w = word(&h.c);
    let mut n = 0;
    unsafe {
        S::I::ref_from_tagged_box(S::boxed(&h.c), |x| {
            n += 1;
            let e = S::enc(x);
            cx.check(e == h.enc, "view:value", || format!("depth {}: saw {} instead of {}", depth, show(&e), show(&h.enc)));
            let t = S::toks(x);
            cx.check(t == h.toks, "view:owned", || format!("depth {}: saw tokens {:?} instead of {:?}", depth, t, h.toks));
            cx.check(word(&h.c) == w, "view:word", || "the box changed during the view".into());
            nest(cx, held, rest, depth + 1);
            let e = S::enc(x);
            cx.check(e == h.enc, "view:value-after", || format!("depth {}: saw {} after nested views instead of {}", depth, show(&e), show(&h.enc)));
        })
    }
    cx.check(n == 1, "view:calls", || format!("the callback ran {} times", n));
    cx.check(word(&h.c) == w, "view:word", || "the box changed".into());
    cx.eval(format!("{}/{}/{:x}/{}", S::NAME, h.v, w, path.len()).as_bytes());
    cx.max("most nested views", depth as u64 + 1);
}
struct D<'a>(&'a mut Cx);
impl Go for D<'_> {
    fn go<S: Subject>(&mut self) {
        let cx = &mut *self.0;
        for k in 0..cx.n(3) {
            let mut r = Rng::new(cx.rng.u64());
            cx.case(format!("{} round {}", S::NAME, k));
            let held: Vec<Held<S>> = match catch(|| (0..S::n()).map(|v| Held::new(v, &mut r)).collect()) {
                Ok(h) => h,
                Err(m) => {
                    cx.violation("panic", m);
                    continue;
                }
            };
            let before: Vec<_> = held.iter().map(|h| bytes::<S>(h.v, &h.c)).collect();
            let c0 = tok::census();
            for (i, h) in held.iter().enumerate() {
                for rep in 0..6 {
                    cx.case(format!("{}::{} view {} round {}", S::NAME, S::VARIANTS[h.v], rep, k));
                    let mut path = vec![i];
                    for _ in 0..rep {
                        path.push(if r.chance(3) { i } else { r.idx(held.len()) });
                    }
                    if let Err(m) = catch(|| nest(cx, &held, &path, 0)) {
                        cx.violation("panic", m);
                    }
                }
            }
            // many views within each other: of one box, and of all of them in turn
            if k == 0 {
                for many in [12, 33, 70] {
                    for all in [false, true] {
                        let at = r.idx(held.len());
                        let path: Vec<_> = (0..many).map(|j| if all { j % held.len() } else { at }).collect();
                        cx.case(format!("{}::{} {} views deep", S::NAME, if all { "all" } else { S::VARIANTS[at] }, many));
                        if let Err(m) = catch(|| nest(cx, &held, &path, 0)) {
                            cx.violation("panic", m);
                        }
                    }
                }
            }
            for (i, h) in held.iter().enumerate() {
                cx.case(format!("{}::{} after the views of round {}", S::NAME, S::VARIANTS[h.v], k));
                cx.check(bytes::<S>(h.v, &h.c) == before[i], "view:storage", || "the stored bytes changed".into());
                cx.check(tok::census().drops == c0.drops && tok::census().zdrops == c0.zdrops, "view:destroyed", || "a destructor ran".into());
                if let Err(m) = h.intact() {
                    cx.violation("view:after", m);
                }
            }
            // other values in the same boxes, between views and within views of another box
            let mut held = held;
            for v in 0..held.len() {
                let mut other: Held<S> = Held::new(v, &mut r);
                for turn in 0..3 {
                    let h = &mut held[v];
                    if !exchange::<S>(&mut h.c, &mut other.c) {
                        break;
                    }
                    std::mem::swap(&mut h.enc, &mut other.enc);
                    std::mem::swap(&mut h.toks, &mut other.toks);
                    cx.case(format!("{}::{} once its value was changed, turn {} round {}", S::NAME, S::VARIANTS[v], turn, k));
                    for x in [&held[v], &other] {
                        if let Err(m) = x.intact() {
                            cx.violation("view:stale", m);
                        }
                    }
                    nest(cx, &held, &[v, v], 0);
                    cx.count("values changed between views", 1);
                }
                drop(other.c.into_inner());
            }
            for h in held {
                let v = h.v;
                let e = h.enc.clone();
                let i = take::<S>(v, h.c, r.idx(TAKES));
                cx.check(S::enc(&i) == e, "view:taken", || "the value changed".into());
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.count("enums", 1);
        cx.collect();
    }
}

// interior mutability: what a callback changes through the shared reference is a change to the stored value
tagged_box! {
    #[derive(Debug, Clone, PartialEq)]
    struct Cells, enum CellItem {
        One(Cell<u32>),
        Two(Cell<u32>, u8),
        Named { c: Cell<u64>, },
        NamedNoComma { a: u8, d: Cell<u16> },
        Shared(Rc<Cell<u32>>),
    }
}
impl CellItem {
    fn get(&self) -> u64 {
        match self {
            CellItem::One(c) => c.get() as u64,
            CellItem::Two(c, _) => c.get() as u64,
            CellItem::Named { c } => c.get(),
            CellItem::NamedNoComma { d, .. } => d.get() as u64,
            CellItem::Shared(c) => c.get() as u64,
        }
    }
    fn set(&self, x: u16) {
        match self {
            CellItem::One(c) => c.set(x as u32),
            CellItem::Two(c, _) => c.set(x as u32),
            CellItem::Named { c } => c.set(x as u64),
            CellItem::NamedNoComma { d, .. } => d.set(x),
            CellItem::Shared(c) => c.set(x as u32),
        }
    }
}
fn cells(cx: &mut Cx) {
    for k in 0..cx.n(50) {
        let x = 1 + cx.rng.below(60000) as u16;
        let items = || vec![CellItem::One(Cell::new(0)), CellItem::Two(Cell::new(0), 9), CellItem::Named { c: Cell::new(0) }, CellItem::NamedNoComma { a: 7, d: Cell::new(0) }, CellItem::Shared(Rc::new(Cell::new(0)))];
        for (n, i) in items().into_iter().enumerate() {
            cx.case(format!("interior mutability: {:?} set to {} in a view (round {})", i, x, k));
            let b = i.into_tagged_box();
            let mut inside = None;
            unsafe {
                CellItem::ref_from_tagged_box(&b, |i| {
                    i.set(x);
                    inside = Some(i.get());
                })
            };
            let mut seen = None;
            unsafe { CellItem::ref_from_tagged_box(&b, |i| seen = Some(i.get())) };
            let out = CellItem::from_tagged_box(b).get();
            cx.check(inside == Some(x as u64), "interior:inside", || format!("{:?}", inside));
            cx.check(seen == Some(out), "interior:inconsistent", || format!("a view sees {:?}, the value taken out is {}", seen, out));
            if n == 4 {
                // behind a pointer the change must be there
                cx.check(out == x as u64, "interior:shared", || format!("the value taken out is {}", out));
            } else if out != x as u64 {
                cx.violation(if out == 0 { "interior-mutation-of-a-viewed-value-is-lost" } else { "interior:garbled" }, format!("set to {}, afterwards {}", x, out));
            }
            cx.eval(format!("cell {} {}", n, x).as_bytes());
        }
    }
}
// views within views far deeper than an enum's type could tell
tagged_box! {
    #[derive(Debug, Clone, PartialEq)]
    struct Pits, enum Pit {
        Empty,
        Byte(u8),
        Pair(u16, u64),
        Named { a: u8, b: u32 },
        Text(&'static str),
    }
}
fn dig(b: &[(TaggedBox<Pit>, Pit)], step: usize, depth: usize, calls: &mut u64, wrong: &mut u64) {
    if depth == 0 {
        return;
    }
    let (x, is) = &b[depth * step % b.len()];
    unsafe {
        Pit::ref_from_tagged_box(x, |p| {
            *calls += 1;
            *wrong += (p != is) as u64;
            dig(b, step, depth - 1, calls, wrong);
            *wrong += (p != is) as u64;
        })
    }
    tbmon::report::tick()
}
fn deep(cx: &mut Cx) {
    let make = || vec![Pit::Empty, Pit::Byte(200), Pit::Pair(1, 1 << 60), Pit::Named { a: 3, b: 77 }, Pit::Text("deep")];
    let b: Vec<_> = make().into_iter().map(|p| p.into_tagged_box()).zip(make()).collect();
    for depth in if cfg!(miri) { vec![20, 40] } else { vec![130, 260, 300, 1100, 5000, 70_000] } {
        for step in 0..2 {
            cx.case(format!("{} views within each other, {}", depth, if step == 0 { "of one box" } else { "of five boxes in turn" }));
            let (mut calls, mut wrong) = (0, 0);
            if let Err(m) = catch(|| dig(&b, step, depth, &mut calls, &mut wrong)) {
                cx.violation("deep:panic", m)
            }
            cx.check(calls == depth as u64, "deep:calls", || format!("{} calls of the callback", calls));
            cx.check(wrong == 0, "deep:value", || format!("{} times another value was seen", wrong));
            cx.eval(format!("deep {} {}", depth, step).as_bytes());
            cx.max("most nested views", depth as u64);
        }
    }
    for (x, is) in b {
        cx.check(Pit::from_tagged_box(x) == is, "deep:after", || "the value changed".into());
    }
}
fn run() {
    let mut cx = Cx::new("C10");
    tbmon::never::all(&mut cx, &["view"]);
    subjects::all(&mut D(&mut cx));
    cells(&mut cx);
    deep(&mut cx);
    cx.finish()
}
fn main() {
    if cfg!(miri) {
        return run();
    }
    // (for views within views)
    std::thread::Builder::new().stack_size(1 << 29).spawn(run).unwrap().join().unwrap()
}
