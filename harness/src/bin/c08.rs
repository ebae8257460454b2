//! C08: the discriminant is the variant's place in the declaration, however the box was made
#![recursion_limit = "4096"]
use tbmon::drive::*;
use tbmon::prelude::*;
use std::fmt::{Debug, Display};
tbmon::subjects!();

fn is<S: Subject>(cx: &mut Cx, c: &S::C, v: usize, what: &str) {
    let b = S::boxed(c);
    let d = b.discriminant() as usize;
    cx.check(d == v, what, || format!("discriminant {} for the variant declared at {}", d, v));
    let w = (word(c) >> POINTER_WIDTH) as usize;
    cx.check(w == v, &format!("{}:word", what), || format!("the word has {} above the reserved width, the variant is declared at {}", w, v));
    cx.eval(format!("{}/{}/{}/{:x}", S::NAME, v, what, word(c)).as_bytes());
}

struct Basic<'a>(&'a mut Cx);
impl Go for Basic<'_> {
    fn go<S: Subject>(&mut self) {
        let cx = &mut *self.0;
        let mut seen = std::collections::HashMap::new();
        for v in 0..S::n() {
            for mk in 0..MAKES {
                for k in 0..cx.n(6) {
                    let mut r = Rng::new(cx.rng.u64());
                    cx.case(format!("{}::{} make={} value={}", S::NAME, S::VARIANTS[v], mk, k));
                    let res = catch(|| {
                        let (mut c, _, _) = make::<S>(v, &mut r, mk);
                        is::<S>(cx, &c, v, "made");
                        let d = S::boxed(&c).discriminant();
                        if let Some(o) = seen.insert(d, v) {
                            cx.check(o == v, "shared", || format!("variants {} and {} share the discriminant {}", o, v, d));
                        }
                        for _ in 0..r.below(4) {
                            match r.below(5) {
                                0 => drop(view::<S>(&c)),
                                1 => c = S::wrap(S::into_raw_and_back(v, S::unbox(c))),
                                2 => {
                                    let mut b = S::unbox(c);
                                    S::poke(v, &mut b, &mut r);
                                    c = S::wrap(b)
                                }
                                3 => {
                                    let i = S::I::from_tagged_box(S::unbox(c));
                                    let w = S::enc(&i).0;
                                    cx.check(w == v, "variant", || format!("decoded as {} instead of {}", w, v));
                                    c = S::wrap(i.into_tagged_box())
                                }
                                _ => unsafe { S::I::ref_from_tagged_box(S::boxed(&c), |_| is::<S>(cx, &c, v, "during a view")) },
                            }
                            is::<S>(cx, &c, v, "later");
                        }
                        let w = S::enc(&take::<S>(v, c, r.idx(TAKES))).0;
                        cx.check(w == v, "variant", || format!("taken out as variant {} instead of {}", w, v));
                    });
                    if let Err(m) = res {
                        cx.violation("panic", m);
                    }
                }
            }
            cx.count("variants", 1);
            if tok::filling() {
                tok::reset()
            }
        }
        cx.count("enums", 1);
        let most = S::n() as u64;
        cx.max("most variants", most);
        cx.collect();
    }
}
struct Full<'a>(&'a mut Cx);
impl GoFull for Full<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            for k in 0..cx.n(4) {
                let mut r = Rng::new(cx.rng.u64());
                cx.case(format!("{}::{} cloned value={}", S::NAME, S::VARIANTS[v], k));
                let res = catch(|| {
                    let (c, _, _) = make::<S>(v, &mut r, (k as usize) % MAKES);
                    let d = c.clone();
                    is::<S>(cx, &d, v, "cloned container");
                    let b = S::wrap(S::boxed(&c).clone());
                    is::<S>(cx, &b, v, "cloned box");
                    let mut e = d.clone();
                    e.clone_from(&b);
                    is::<S>(cx, &e, v, "clone_from");
                    sink(&c);
                    sink_display(S::boxed(&c));
                    let _ = (c == d, c.partial_cmp(&b), S::boxed(&c) == S::boxed(&e));
                    is::<S>(cx, &c, v, "the original");
                });
                if let Err(m) = res {
                    cx.violation("panic", m);
                }
            }
        }
        cx.collect();
    }
}
struct Copies<'a>(&'a mut Cx);
impl GoCopy for Copies<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Copy + PartialEq + PartialOrd,
        S::C: Debug + Copy + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            let mut r = Rng::new(cx.rng.u64());
            cx.case(format!("{}::{} copied", S::NAME, S::VARIANTS[v]));
            let (c, _, _) = make::<S>(v, &mut r, 0);
            let (d, e) = (c, c);
            is::<S>(cx, &d, v, "copy");
            let w = S::enc(&d.into_inner()).0;
            is::<S>(cx, &e, v, "copy after another was consumed");
            cx.check(w == v, "variant", || format!("taken out as variant {} instead of {}", w, v));
        }
    }
}
fn main() {
    let mut cx = Cx::new("C08");
    tbmon::never::all(&mut cx, &["made", "cloned box", "cloned container", "clone_from"]);
    subjects::all(&mut Basic(&mut cx));
    subjects::full(&mut Full(&mut cx));
    subjects::copy(&mut Copies(&mut cx));
    cx.finish()
}
