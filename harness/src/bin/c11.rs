//! C11: clones and copies are equal and independent
#![recursion_limit = "4096"]
use std::fmt::{Debug, Display};
use tbmon::drive::*;
use tbmon::prelude::*;
tbmon::subjects!();

/// Exchange the stored values of two boxes of the same variant, as a user could through as_mut_ptr
unsafe fn exchange<S: Subject>(v: usize, a: &mut TaggedBox<S::I>, b: &mut TaggedBox<S::I>) {
    let (p, q): (*mut u8, *mut u8) = (a.as_mut_ptr(), b.as_mut_ptr());
    let n = mem::block_at(p as usize).map_or(S::storage(v).max, |(n, _)| n);
    std::ptr::swap_nonoverlapping(p as *mut std::mem::MaybeUninit<u8>, q as *mut std::mem::MaybeUninit<u8>, n);
}

struct D<'a>(&'a mut Cx);
impl GoFull for D<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            let heap = S::storage(v).min > 0;
            for k in 0..cx.n(8) {
                for how in 0..6 {
                    let mut r = Rng::new(cx.rng.u64());
                    cx.case(format!("{}::{} clone way {} value {}", S::NAME, S::VARIANTS[v], how, k));
                    let res = catch(|| {
                        let c: Held<S> = Held::new(v, &mut r);
                        let w = word(&c.c);
                        let d = match how {
                            0 => c.c.clone(),
                            1 => S::wrap(S::boxed(&c.c).clone()),
                            2 => {
                                let mut x = S::C::from(S::gen(r.clone().idx(S::n()), &mut r));
                                x.clone_from(&c.c);
                                x
                            }
                            // into a box that held another value: of the same variant, or of any
                            4 | 5 => {
                                let mut x = S::gen(if how == 4 { v } else { r.clone().idx(S::n()) }, &mut r).into_tagged_box();
                                x.clone_from(S::boxed(&c.c));
                                S::wrap(x)
                            }
                            _ => S::wrap(S::boxed(&S::wrap(S::boxed(&c.c).clone())).clone()),
                        };
                        cx.check(word(&c.c) == w, "clone:original", || "cloning changed the original's word".into());
                        let mut d = Held::<S> { v, enc: c.enc.clone(), toks: view_toks::<S>(&d), c: d };
                        if let Err(m) = d.intact() {
                            return cx.violation("clone:not-equal", m);
                        }
                        cx.check(d.toks.len() == c.toks.len() && d.toks.iter().all(|t| !c.toks.contains(t)), "clone:owned", || format!("original owns {:?}, clone {:?}", c.toks, d.toks));
                        if heap && addr::<S>(&c.c) == addr::<S>(&d.c) {
                            // nothing more can be told apart
                            let copied = S::COPY && (how == 0 || how == 2);
                            return cx.violation(if copied { "copies-of-a-Copy-container-share-storage" } else { "clone:shares-storage" }, format!("both at {:x}", addr::<S>(&c.c)));
                        }
                        if heap {
                            // bring another value into the clone
                            let mut e: Held<S> = Held::new(v, &mut r);
                            let mut db = S::unbox(d.c);
                            let mut eb = S::unbox(e.c);
                            unsafe { exchange::<S>(v, &mut db, &mut eb) };
                            (d.c, e.c) = (S::wrap(db), S::wrap(eb));
                            std::mem::swap(&mut d.enc, &mut e.enc);
                            std::mem::swap(&mut d.toks, &mut e.toks);
                            for (n, x) in [("original", &c), ("clone", &d), ("third", &e)] {
                                if let Err(m) = x.intact() {
                                    cx.violation("clone:dependent", format!("after a change of the clone, the {} {}", n, m));
                                }
                            }
                            cx.count("changes made to a clone", 1);
                            drop(e.c.into_inner());
                        }
                        // a change through the typed accessor
                        let mut cb = S::unbox(c.c);
                        let (mut enc, mut toks) = (c.enc, c.toks);
                        if let Some(x) = S::poke(v, &mut cb, &mut r) {
                            enc = x;
                            let w = S::wrap(cb);
                            toks = view_toks::<S>(&w);
                            cb = S::unbox(w);
                            cx.count("changes made to an original", 1);
                        }
                        let c = Held::<S> { v, enc, toks, c: S::wrap(cb) };
                        for (n, x) in [("original", &c), ("clone", &d)] {
                            if let Err(m) = x.intact() {
                                cx.violation("clone:dependent", format!("after a change of the original, the {} {}", n, m));
                            }
                        }
                        // consume one, then the other
                        let (a, b) = if r.chance(2) { (c, d) } else { (d, c) };
                        let i = take::<S>(v, a.c, r.idx(TAKES));
                        cx.check(S::enc(&i) == a.enc, "clone:taken", || format!("the first one taken out is {}, expected {}", show(&S::enc(&i)), show(&a.enc)));
                        drop(i);
                        if let Err(m) = b.intact() {
                            cx.violation("clone:dependent", format!("after the other was consumed: {}", m));
                        }
                        let i = take::<S>(v, b.c, r.idx(TAKES));
                        cx.check(S::enc(&i) == b.enc, "clone:taken", || format!("the second one taken out is {}, expected {}", show(&S::enc(&i)), show(&b.enc)));
                    });
                    if let Err(m) = res {
                        cx.violation("panic", m);
                    }
                    cx.eval(format!("{}/{}/{}/{}", S::NAME, v, how, r.0).as_bytes());
                }
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.count("enums", 1);
        cx.collect();
    }
}

struct Copies<'a>(&'a mut Cx);
impl GoCopy for Copies<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Copy + PartialEq + PartialOrd,
        S::C: Debug + Copy + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            for k in 0..cx.n(10) {
                let mut r = Rng::new(cx.rng.u64());
                cx.case(format!("{}::{} copies of value {}", S::NAME, S::VARIANTS[v], k));
                let res = catch(|| {
                    let i = S::gen(v, &mut r);
                    let e = S::enc(&i);
                    let c = S::C::from(i);
                    let n = 2 + r.idx(4);
                    let mut all: Vec<S::C> = (0..n).map(|_| c).collect();
                    while !all.is_empty() {
                        let x = all.swap_remove(r.idx(all.len()));
                        let got = match r.below(3) {
                            0 => S::enc(&x.into_inner()),
                            1 => S::enc(&S::I::from_tagged_box(S::unbox(x))),
                            _ => view::<S>(&x).1.unwrap(),
                        };
                        cx.check(got == e, "copy:value", || format!("one of {} copies gave {} instead of {}", n, show(&got), show(&e)));
                        // something else is boxed in between
                        let _ = S::C::from(S::gen(v, &mut r));
                    }
                    // boxes are Copy as well
                    let b = S::unbox(c);
                    let (b1, b2) = (b, b);
                    cx.check(S::enc(&S::I::from_tagged_box(b1)) == e && S::enc(&S::I::from_tagged_box(b2)) == e, "copy:box", || "a copy of the box gave another value".into());
                    // a change through one copy
                    let (one, mut two) = (S::unbox(c), S::unbox(c));
                    if let Some(x) = S::poke(v, &mut two, &mut r) {
                        let got = view::<S>(&S::wrap(one)).1.unwrap();
                        if S::storage(v).min > 0 && x != e {
                            if got == x {
                                cx.violation("copies-of-a-Copy-container-share-storage", format!("changing one copy to {} changes the other", show(&x)));
                            } else {
                                cx.check(got == e, "copy:garbled", || format!("{} became {}", show(&e), show(&got)));
                            }
                        }
                    }
                });
                if let Err(m) = res {
                    cx.violation("panic", m);
                }
                cx.eval(format!("{}/{}/copy/{}", S::NAME, v, r.0).as_bytes());
            }
        }
        cx.collect();
    }
}
fn main() {
    let mut cx = Cx::new("C11");
    tbmon::never::all(&mut cx, &["cloned box", "cloned container", "clone_from"]);
    subjects::full(&mut D(&mut cx));
    subjects::copy(&mut Copies(&mut cx));
    cx.finish()
}
