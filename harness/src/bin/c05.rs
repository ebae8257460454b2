//! C05: destructors run exactly once, and never while a box holds the value
#![recursion_limit = "4096"]
use tbmon::drive::*;
use tbmon::prelude::*;
use std::fmt::{Debug, Display};
tbmon::subjects!();

fn steady(cx: &mut Cx, what: &str, before: tok::Census, live: i64, zlive: i64) {
    let c = tok::census();
    cx.check(c.double == before.double && c.garbage == before.garbage, &format!("{}:double-drop", what), || {
        format!("{} double and {} garbage drops", c.double - before.double, c.garbage - before.garbage)
    });
    cx.check(c.live == live && c.zlive == zlive, &format!("{}:count", what), || {
        format!("{} values and {} zero-sized values are alive, expected {} and {}", c.live, c.zlive, live, zlive)
    });
}

/// make .. operations .. take out .. drop, with the census checked at every step
struct Basic<'a>(&'a mut Cx);
impl Go for Basic<'_> {
    fn go<S: Subject>(&mut self) {
        let cx = &mut *self.0;
        let per = cx.n(4);
        // safe code must not be able to use a box twice
        cx.case(format!("{}: may it be copied?", S::NAME));
        let (c, b, i) = S::copies().into();
        cx.check(b == i && c == S::COPY && i == S::COPY, "copied", || format!("the container is {}Copy, its box {}, the enum {}", if c { "" } else { "not " }, b, i));
        cx.eval(format!("{} copies", S::NAME).as_bytes());
        for v in 0..S::n() {
            for mk in 0..MAKES {
                for tk in 0..TAKES + 1 {
                    for k in 0..per {
                        let mut r = Rng::new(cx.rng.u64());
                        let steps = r.below(5);
                        cx.case(format!("{}::{} make={} take={} steps={} value={}", S::NAME, S::VARIANTS[v], mk, tk, steps, k));
                        let c0 = tok::census();
                        let res = catch(|| {
                            let (mut c, e, _) = make::<S>(v, &mut r, mk);
                            let held = tok::census();
                            let toks = view_toks::<S>(&c);
                            steady(cx, "make", c0, held.live, held.zlive);
                            cx.check(held.drops == c0.drops && held.zdrops == c0.zdrops, "make:dropped", || {
                                format!("{} destructors ran while boxing", held.drops - c0.drops + held.zdrops - c0.zdrops)
                            });
                            for _ in 0..steps {
                                let what = ["view", "raw", "box", "enum", "nested view"][{
                                    let k = r.idx(5);
                                    match k {
                                        0 => drop(view::<S>(&c)),
                                        1 => c = S::wrap(S::into_raw_and_back(v, S::unbox(c))),
                                        2 => c = S::wrap(S::unbox(c)),
                                        3 => c = S::C::from(c.into_inner()),
                                        _ => unsafe {
                                            S::I::ref_from_tagged_box(S::boxed(&c), |_| drop(view::<S>(&c)));
                                        },
                                    }
                                    k
                                }];
                                let n = tok::census();
                                cx.check(n.drops == c0.drops && n.zdrops == c0.zdrops, &format!("{}:dropped", what), || {
                                    format!("{} destructors ran", n.drops - c0.drops + n.zdrops - c0.zdrops)
                                });
                                steady(cx, what, c0, held.live, held.zlive);
                            }
                            if tk == TAKES {
                                // by way of a Box
                                if let Some(b) = S::into_box_and_drop(v, S::unbox(c)) {
                                    cx.check(b == e.1, "into_box:value", || format!("{:02x?} instead of {}", b, show(&e)));
                                    return true;
                                }
                                return false;
                            }
                            let i = take::<S>(v, c, tk);
                            let n = tok::census();
                            cx.check(n.drops == c0.drops && n.zdrops == c0.zdrops, "take:dropped", || "destructors ran while taking the value out".into());
                            cx.check(S::toks(&i) == toks && toks.iter().all(|t| tok::alive(*t)), "take:owned", || "owned parts differ or are dead".into());
                            cx.check(S::enc(&i) == e, "take:value", || format!("{} instead of {}", show(&S::enc(&i)), show(&e)));
                            drop(i);
                            cx.check(toks.iter().all(|t| !tok::alive(*t)), "drop:not-destroyed", || "a token survived".into());
                            true
                        });
                        match res {
                            Ok(true) => {
                                steady(cx, "end", c0, c0.live, c0.zlive);
                                let c1 = tok::census();
                                cx.count("destructors observed", c1.drops - c0.drops + c1.zdrops - c0.zdrops);
                                cx.eval(format!("{}/{}/{}/{}/{}", S::NAME, v, mk, tk, r.0).as_bytes());
                            }
                            Ok(false) => {}
                            Err(m) => cx.violation("panic", m),
                        }
                    }
                }
            }
            // a discarded container may keep its value alive or destroy it, once
            let mut r = Rng::new(cx.rng.u64());
            cx.case(format!("{}::{} discarded", S::NAME, S::VARIANTS[v]));
            let c0 = tok::census();
            let res = catch(|| {
                let (c, _, _) = make::<S>(v, &mut r, 0);
                let held = tok::census();
                drop(c);
                held
            });
            if let Ok(held) = res {
                let c1 = tok::census();
                let kept = c1.live == held.live && c1.zlive == held.zlive && c1.drops == c0.drops && c1.zdrops == c0.zdrops;
                let gone = c1.live == c0.live && c1.zlive == c0.zlive;
                cx.check(kept || gone, "discard:count", || format!("before boxing {:?}, boxed {:?}, discarded {:?}", c0, held, c1));
            }
            if tok::filling() {
                tok::reset();
            }
        }
        cx.count("enums", 1);
        cx.collect();
    }
}

/// Random histories over several containers of one enum, with clones, comparisons and formatting
struct Hist<'a>(&'a mut Cx);
impl GoFull for Hist<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        for h in 0..cx.n(6) {
            let mut r = Rng::new(cx.rng.u64());
            let c0 = tok::census();
            let mut held: Vec<Held<S>> = vec![];
            let mut log = String::new();
            let res = catch(|| {
                for _ in 0..24 {
                    let k = r.idx(9);
                    let i = r.idx(held.len().max(1));
                    let j = r.idx(held.len().max(1));
                    log.push_str(&format!("{}({},{}) ", k, i, j));
                    cx.case(format!("{} history {}: {}", S::NAME, h, log));
                    let before = tok::census();
                    let quiet = match k {
                        0 | 1 if held.len() < 6 => {
                            held.push(Held::new(r.idx(S::n()), &mut r));
                            true
                        }
                        _ if held.is_empty() => true,
                        0..=2 => {
                            let c = held[i].c.clone();
                            let toks = view_toks::<S>(&c);
                            cx.check(toks.iter().all(|t| !held[i].toks.contains(t)), "clone:shares", || "the clone owns the original's tokens".into());
                            let (v, enc) = (held[i].v, held[i].enc.clone());
                            held.push(Held { c, v, enc, toks });
                            true
                        }
                        3 => {
                            let _ = held[i].c == held[j].c;
                            let _ = held[i].c.partial_cmp(&held[j].c);
                            true
                        }
                        4 => {
                            sink(&held[i].c);
                            sink(S::boxed(&held[i].c));
                            sink_display(S::boxed(&held[i].c));
                            true
                        }
                        5 => {
                            drop(held[i].intact());
                            true
                        }
                        6 => {
                            let x = held.swap_remove(i);
                            let c = S::wrap(S::into_raw_and_back(x.v, S::unbox(x.c)));
                            held.push(Held { c, ..x });
                            true
                        }
                        _ => {
                            let x = held.swap_remove(i);
                            let i = take::<S>(x.v, x.c, r.idx(TAKES));
                            cx.check(S::toks(&i) == x.toks && S::enc(&i) == x.enc, "take:value", || format!("{} instead of {}", show(&S::enc(&i)), show(&x.enc)));
                            let n = tok::census();
                            cx.check(n.drops == before.drops && n.zdrops == before.zdrops, "take:dropped", || "destructors ran while taking the value out".into());
                            drop(i);
                            cx.check(x.toks.iter().all(|t| !tok::alive(*t)), "drop:not-destroyed", || "a token survived".into());
                            false
                        }
                    };
                    let n = tok::census();
                    if quiet {
                        cx.check(n.drops == before.drops && n.zdrops == before.zdrops, "op:dropped", || {
                            format!("{} destructors ran during operation {}", n.drops - before.drops + n.zdrops - before.zdrops, k)
                        });
                    }
                    for x in &held {
                        if let Err(m) = x.intact() {
                            cx.violation("held:damaged", format!("after operation {}: {}", k, m));
                        }
                    }
                    let own: usize = held.iter().map(|x| x.toks.len()).sum();
                    cx.check(n.live - c0.live == own as i64, "op:count", || format!("{} tokens alive, {} owned", n.live - c0.live, own));
                    cx.eval(log.as_bytes());
                    cx.count("history steps", 1);
                }
                for x in held.drain(..) {
                    drop(x.c.into_inner());
                }
                steady(cx, "end", c0, c0.live, c0.zlive);
            });
            if let Err(m) = res {
                cx.violation("panic", m);
                std::mem::forget(held);
            }
            if tok::filling() {
                tok::reset();
            }
        }
        cx.collect();
    }
}

/// Boxes without an enum of their own
enum Any {}
fn raw<T: Val>(cx: &mut Cx, name: &str) {
    for k in 0..cx.n(60) {
        let mut r = Rng::new(cx.rng.u64());
        let how = r.below(12);
        let d = r.below(MAX_DISCRIMINANT as u64 + 1) as Discriminant;
        cx.case(format!("TaggedBox of {} way {} discriminant {} value {}", name, how, d, k));
        let c0 = tok::census();
        let res = catch(|| unsafe {
            let x = T::gen(&mut r);
            let held = tok::census();
            let mut toks = vec![];
            x.toks(&mut toks);
            let mut b: TaggedBox<Any> = if how % 2 == 0 { TaggedBox::new(x, d) } else { TaggedBox::new_unchecked(x, d) };
            let own = |cx: &mut Cx, at: &str| {
                let n = tok::census();
                cx.check(n.drops == c0.drops && n.zdrops == c0.zdrops && n.live == held.live && n.zlive == held.zlive && toks.iter().all(|t| tok::alive(*t)), &format!("raw:{}", at), || {
                    format!("{:?} before boxing, {:?} now", held, n)
                });
            };
            own(cx, "new");
            let mut o = vec![];
            b.as_ref::<T>().enc(&mut o);
            b.as_mut_ref::<T>().enc(&mut o);
            let _ = b.as_ptr::<T>();
            let _ = b.as_mut_ptr::<T>();
            own(cx, "access");
            match how / 2 {
                0 => {
                    let x: T = TaggedBox::into_inner(b);
                    own(cx, "into_inner");
                    drop(x);
                }
                1 => {
                    let x: Box<T> = TaggedBox::into_box(b);
                    own(cx, "into_box");
                    drop(x);
                }
                2 => {
                    let p: *mut T = TaggedBox::into_raw(b);
                    own(cx, "into_raw");
                    let b: TaggedBox<Any> = TaggedBox::from_raw(p, d);
                    own(cx, "from_raw");
                    let x: T = TaggedBox::into_inner(b);
                    own(cx, "into_inner");
                    drop(x);
                }
                3 => {
                    let p: *mut T = TaggedBox::into_raw(b);
                    own(cx, "into_raw");
                    drop(Box::from_raw(p));
                }
                4 => {
                    // replaced in place: the old value is destroyed, the new one is in the box
                    let n: T = T::gen(&mut r);
                    let mut t2 = vec![];
                    n.toks(&mut t2);
                    *b.as_mut_ref::<T>() = n;
                    cx.check(toks.iter().all(|t| !tok::alive(*t)) && t2.iter().all(|t| tok::alive(*t)), "raw:replace", || "wrong value destroyed".into());
                    let x: T = TaggedBox::into_inner(b);
                    drop(x);
                }
                _ => {
                    std::ptr::drop_in_place(b.as_mut_ptr::<T>());
                    let _ = b;
                }
            }
        });
        match res {
            Ok(()) => steady(cx, "raw:end", c0, c0.live, c0.zlive),
            Err(m) => cx.violation("raw:panic", m),
        }
        let c1 = tok::census();
        cx.count("destructors observed", c1.drops - c0.drops + c1.zdrops - c0.zdrops);
        cx.eval(format!("{}/{}/{}", name, how, r.0).as_bytes());
    }
    cx.collect();
}

/// Enums that have a destructor of their own: it runs once, on the value that was taken out
macro_rules! own {
    ($m:ident, { $($decl:tt)* }, [$($mk:expr,)*]) => { mod $m {
    use super::*;
    tagged_box::tagged_box! {
        #[derive(Debug, Clone, PartialEq, PartialOrd)]
        pub struct C, pub enum D { $($decl)* }
    }
    fn all() -> Vec<fn() -> D> {
        vec![$($mk,)*]
    }
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    static DROPS: AtomicU64 = AtomicU64::new(0);
    impl Drop for D {
        fn drop(&mut self) {
            DROPS.fetch_add(1, SeqCst);
        }
    }
    pub fn run(cx: &mut Cx) {
        for (v, mk) in all().into_iter().enumerate().take(MAX_DISCRIMINANT as usize + 1) {
            for how in 0..3 {
                for ops in 0..10 {
                    cx.case(format!("an enum with a destructor of its own: {:?} made {} operation {}", std::mem::ManuallyDrop::new(mk()), how, ops));
                    let res = catch(|| {
                        let n = DROPS.load(SeqCst);
                        let none = |cx: &mut Cx, at: &str| {
                            let k = DROPS.load(SeqCst) - n;
                            cx.check(k == 0, &format!("own:{}:dropped", at), || format!("its destructor ran {} times", k));
                        };
                        let mut c = match how {
                            0 => C::from(mk()),
                            1 => C { value: mk().into_tagged_box() },
                            _ => C { value: TaggedBox::clone(&C::from(mk()).value) },
                        };
                        none(cx, "boxing");
                        let mut more: Vec<C> = vec![];
                        match ops {
                            0 => {}
                            1 => {
                                for _ in 0..2 {
                                    unsafe { D::ref_from_tagged_box(&c.value, |_| ()) };
                                }
                            }
                            2 => unsafe {
                                let _ = catch(|| D::ref_from_tagged_box(&c.value, |_| panic!("out of a view")));
                            },
                            3 => more.push(c.clone()),
                            4 => drop(c == c.clone() && c.value <= c.value),
                            5 => drop(format!("{:?} {:?}", c, c.value)),
                            6 => c = C { value: D::from_tagged_box(c.value).into_tagged_box() },
                            7 => c = C::from(c.into_inner()),
                            8 => unsafe { D::ref_from_tagged_box(&c.value, |_| D::ref_from_tagged_box(&c.value, |_| ())) },
                            _ => {
                                let d = c.value.discriminant();
                                c = C { value: unsafe { TaggedBox::from_raw::<u8>(TaggedBox::into_raw::<u8>(c.value), d) } };
                            }
                        }
                        none(cx, ["nothing", "views", "a view left by a panic", "clone", "comparison", "formatting", "from_tagged_box", "into_inner", "nested views", "raw form"][ops]);
                        let values = 1 + more.len() as u64;
                        let i = if how == 1 { D::from_tagged_box(c.value) } else { c.into_inner() };
                        none(cx, "taking out");
                        let p = std::mem::ManuallyDrop::new(mk());
                        cx.check(i == *p, "own:value", || format!("{:?} instead of {:?}", i, *p));
                        drop(i);
                        more.into_iter().for_each(|c| drop(c.into_inner()));
                        let k = DROPS.load(SeqCst) - n;
                        cx.check(k == values, "own:end", || format!("the destructors of {} values ran {} times", values, k));
                        cx.count("destructors observed", k);
                    });
                    if let Err(m) = res {
                        cx.violation("own:panic", m);
                    }
                    cx.eval(format!("{} {} {} {}", stringify!($m), v, how, ops).as_bytes());
                }
            }
        }
        cx.collect();
    }
    } };
}
own!(own_shapes, { Unit, Empty(), One(u64), Single((u16,)), Ptr(*mut u8), Named { a: u8, b: u32 }, Trailing { a: u32, b: u8, }, Last, Nothing { z: () }, },
    [|| D::Unit, || D::Empty(), || D::One(!5), || D::Single((9,)), || D::Ptr(8 as *mut u8), || D::Named { a: 1, b: !2 }, || D::Trailing { a: !3, b: 4 }, || D::Last, || D::Nothing { z: () },]);
own!(own_tuples, { T2(u8, u32), T3(u8, u8, u32), T4(u8, u8, u8, u32), T5(u8, u8, u8, u8, u32), T6(u8, u8, u8, u8, u8, u32), T7(u8, u8, u8, u8, u8, u8, u32), T8(u8, u8, u8, u8, u8, u8, u8, u32), T9(u8, u8, u8, u8, u8, u8, u8, u8, u32), T10(u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T11(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T12(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T13(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T14(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T15(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T16(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), },
    [|| D::T2(1, 1002), || D::T3(1, 2, 1003), || D::T4(1, 2, 3, 1004), || D::T5(1, 2, 3, 4, 1005), || D::T6(1, 2, 3, 4, 5, 1006), || D::T7(1, 2, 3, 4, 5, 6, 1007), || D::T8(1, 2, 3, 4, 5, 6, 7, 1008), || D::T9(1, 2, 3, 4, 5, 6, 7, 8, 1009), || D::T10(1, 2, 3, 4, 5, 6, 7, 8, 9, 1010), || D::T11(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1011), || D::T12(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 1012), || D::T13(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 1013), || D::T14(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 1014), || D::T15(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 1015), || D::T16(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 1016),]);
own!(own_long_tuples, { T17(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T18(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T19(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T20(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T21(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T22(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T23(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T24(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T25(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T26(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T27(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T28(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T29(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T30(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T31(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), T32(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32), },
    [|| D::T17(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 1017), || D::T18(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 1018), || D::T19(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 1019), || D::T20(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 1020), || D::T21(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 1021), || D::T22(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 1022), || D::T23(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 1023), || D::T24(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 1024), || D::T25(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 1025), || D::T26(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 1026), || D::T27(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 1027), || D::T28(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 1028), || D::T29(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 1029), || D::T30(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 1030), || D::T31(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 1031), || D::T32(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 1032),]);

fn main() {
    let mut cx = Cx::new("C05");
    own_shapes::run(&mut cx);
    own_tuples::run(&mut cx);
    own_long_tuples::run(&mut cx);
    raw::<Tok>(&mut cx, "Tok");
    raw::<ZTok>(&mut cx, "ZTok");
    raw::<ZTok64>(&mut cx, "ZTok64");
    raw::<[Tok; 3]>(&mut cx, "[Tok; 3]");
    raw::<[ZTok; 4]>(&mut cx, "[ZTok; 4]");
    raw::<(Tok, u8)>(&mut cx, "(Tok, u8)");
    raw::<(ZTok, ZTok64)>(&mut cx, "(ZTok, ZTok64)");
    raw::<Vec<Tok>>(&mut cx, "Vec<Tok>");
    raw::<Box<Tok>>(&mut cx, "Box<Tok>");
    raw::<Box<ZTok>>(&mut cx, "Box<ZTok>");
    raw::<Option<Tok>>(&mut cx, "Option<Tok>");
    raw::<Rc<Tok>>(&mut cx, "Rc<Tok>");
    raw::<String>(&mut cx, "String");
    tok::reset();
    subjects::all(&mut Basic(&mut cx));
    subjects::full(&mut Hist(&mut cx));
    cx.finish()
}
