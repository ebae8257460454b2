//! C15: panics in user code leave the boxes as they were
#![recursion_limit = "4096"]
use std::fmt::{Debug, Display};
use tbmon::drive::*;
use tbmon::prelude::*;
tbmon::subjects!();

/// Runs `f` with a panic in the n-th piece of user code, for n = 1, 2, .. until it gets through
fn blow<S: Subject>(cx: &mut Cx, what: &str, held: &[Held<S>], mut f: impl FnMut()) {
    for n in 1..40 {
        let c0 = tok::census();
        let l0 = mem::live();
        tok::arm(n);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut f));
        let still = tok::armed();
        tok::arm(0);
        let through = match res {
            Ok(()) => {
                cx.check(still, &format!("{}:swallowed", what), || format!("the panic in user code call {} did not reach the caller", n));
                true
            }
            Err(p) => {
                cx.check(p.is::<tok::Blown>(), &format!("{}:other-panic", what), || "another panic reached the caller".into());
                drop(p);
                false
            }
        };
        let c1 = tok::census();
        let l1 = mem::live();
        for h in held {
            if let Err(m) = h.intact() {
                cx.violation(&format!("{}:damaged", what), format!("after a panic in user code call {}: {}", n, m));
            }
        }
        cx.check(c1.double == c0.double && c1.garbage == c0.garbage, &format!("{}:double-drop", what), || format!("after a panic in user code call {}", n));
        cx.check(c1.live == c0.live && c1.zlive == c0.zlive, &format!("{}:count", what), || format!("after a panic in user code call {}: {:?} became {:?}", n, c0, c1));
        if !through {
            cx.check(l1.0 == l0.0, &format!("{}:blocks", what), || format!("after a panic in user code call {}: {} more blocks", n, l1.0 - l0.0));
            cx.count("panics injected", 1);
        }
        cx.eval(format!("{}/{}/{}/{:?}", S::NAME, what, n, held.iter().map(|h| h.enc.clone()).collect::<Vec<_>>()).as_bytes());
        if through {
            break;
        }
    }
    // and they are usable
    for h in held {
        if let Err(m) = h.intact() {
            cx.violation(&format!("{}:damaged", what), m);
        }
    }
}
struct Views<'a>(&'a mut Cx);
impl Go for Views<'_> {
    fn go<S: Subject>(&mut self) {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            for k in 0..cx.n(2) {
                let mut r = Rng::new(cx.rng.u64());
                let held: Vec<Held<S>> = match catch(|| vec![Held::new(v, &mut r), Held::new(r.clone().idx(S::n()), &mut r)]) {
                    Ok(h) => h,
                    Err(m) => {
                        cx.violation("panic", m);
                        continue;
                    }
                };
                cx.case(format!("{}::{} views, value {}", S::NAME, S::VARIANTS[v], k));
                let (a, b) = (S::boxed(&held[0].c), S::boxed(&held[1].c));
                blow::<S>(cx, "view", &held, || unsafe { S::I::ref_from_tagged_box(a, |_| tok::tick()) });
                blow::<S>(cx, "nested view", &held, || unsafe {
                    S::I::ref_from_tagged_box(a, |_| {
                        tok::tick();
                        S::I::ref_from_tagged_box(b, |_| tok::tick());
                        tok::tick();
                        S::I::ref_from_tagged_box(a, |_| tok::tick())
                    })
                });
                for h in held {
                    let i = take::<S>(h.v, h.c, r.idx(TAKES));
                    cx.check(S::enc(&i) == h.enc, "taken", || "the value changed".into());
                    drop(i);
                    cx.check(h.toks.iter().all(|t| !tok::alive(*t)), "drop:not-destroyed", || "a token survived".into());
                }
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.count("enums", 1);
        cx.collect();
    }
}
/// Cloning onto a box that holds something already
fn onto<S: Subject>(cx: &mut Cx, of: &Held<S>, r: &mut Rng)
where
    S::I: Clone,
    S::C: Clone,
{
    for n in 1..40 {
        let to = r.idx(S::n());
        let Ok(mut dest) = catch(|| Held::<S>::new(to, r)) else { return };
        let c0 = tok::census();
        let boxes = r.chance(2);
        tok::arm(n);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if boxes { S::boxed_mut(&mut dest.c).clone_from(S::boxed(&of.c)) } else { dest.c.clone_from(&of.c) }));
        tok::arm(0);
        if let Err(m) = of.intact() {
            cx.violation("clone_from:damaged", format!("the source, panic {}: {}", n, m));
        }
        cx.eval(format!("{}/clone_from/{}/{}/{}", S::NAME, of.v, to, n).as_bytes());
        let through = res.is_ok();
        if !through {
            cx.count("panics injected", 1);
            if let Err(m) = dest.intact() {
                cx.violation("clone_from:damaged", format!("the destination, panic {}: {}", n, m));
                return;
            }
            let c1 = tok::census();
            cx.check(c1.double == c0.double && c1.garbage == c0.garbage, "clone_from:double-drop", || format!("after a panic in user code call {}", n));
            cx.check(c1.live == c0.live && c1.zlive == c0.zlive, "clone_from:count", || format!("after a panic in user code call {}: {:?} became {:?}", n, c0, c1));
        }
        let want = if through { of } else { &dest };
        let (v, e) = (want.v, want.enc.clone());
        cx.check(S::boxed(&dest.c).discriminant() as usize == v, "clone_from:discriminant", || format!("{} instead of {}", S::boxed(&dest.c).discriminant(), v));
        let i = take::<S>(v, dest.c, r.idx(TAKES));
        cx.check(S::enc(&i) == e, "clone_from:taken", || format!("panic {}: {}", n, if through { "not a clone of the source" } else { "the value changed" }));
        if through {
            break;
        }
    }
}
struct Full<'a>(&'a mut Cx);
impl GoFull for Full<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            for k in 0..cx.n(3) {
                let mut r = Rng::new(cx.rng.u64());
                cx.case(format!("{}::{} operations, value {}", S::NAME, S::VARIANTS[v], k));
                let held: Vec<Held<S>> = {
                    let s = r.u64();
                    // two equal values, so that comparisons look at everything, and another one
                    match catch(|| vec![Held::new(v, &mut Rng::new(s)), Held::new(v, &mut Rng::new(s)), Held::new(r.clone().idx(S::n()), &mut r)]) {
                        Ok(h) => h,
                        Err(m) => {
                            cx.violation("panic", m);
                            continue;
                        }
                    }
                };
                let (a, b, c) = (&held[0].c, &held[1].c, &held[2].c);
                let c0 = tok::census();
                // clones that succeed are taken out again and dropped
                blow::<S>(cx, "clone", &held, || drop(a.clone().into_inner()));
                blow::<S>(cx, "clone box", &held, || drop(S::I::from_tagged_box(S::boxed(a).clone())));
                for (x, y, w) in [(a, b, "equal"), (a, a, "self"), (a, c, "other"), (c, a, "other")] {
                    blow::<S>(cx, &format!("eq {}", w), &held, || drop(x == y));
                    blow::<S>(cx, &format!("partial_cmp {}", w), &held, || drop(x.partial_cmp(y)));
                    blow::<S>(cx, &format!("lt {}", w), &held, || drop(S::boxed(x) < S::boxed(y)));
                }
                blow::<S>(cx, "debug", &held, || drop(sink(a)));
                blow::<S>(cx, "debug box", &held, || drop(sink(S::boxed(a))));
                blow::<S>(cx, "display box", &held, || drop(sink_display(S::boxed(a))));
                let c1 = tok::census();
                cx.check(c1.live == c0.live && c1.zlive == c0.zlive, "all:count", || format!("{:?} became {:?}", c0, c1));
                for of in [&held[0], &held[2]] {
                    onto::<S>(cx, of, &mut r)
                }
                for h in held {
                    let i = take::<S>(h.v, h.c, r.idx(TAKES));
                    cx.check(S::enc(&i) == h.enc, "taken", || "the value changed".into());
                    drop(i);
                    cx.check(h.toks.iter().all(|t| !tok::alive(*t)), "drop:not-destroyed", || "a token survived".into());
                }
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.collect();
    }
}
struct Ordered<'a>(&'a mut Cx);
impl GoOrd for Ordered<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + Ord,
        S::C: Debug + Clone + Ord,
    {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            let mut r = Rng::new(cx.rng.u64());
            let s = r.u64();
            cx.case(format!("{}::{} cmp", S::NAME, S::VARIANTS[v]));
            let held: Vec<Held<S>> = vec![Held::new(v, &mut Rng::new(s)), Held::new(v, &mut Rng::new(s))];
            blow::<S>(cx, "cmp", &held, || drop(held[0].c.cmp(&held[1].c)));
            blow::<S>(cx, "cmp self", &held, || drop(S::boxed(&held[0].c).cmp(S::boxed(&held[0].c))));
        }
        cx.collect();
    }
}
fn main() {
    let mut cx = Cx::new("C15");
    // panics with payloads of their own need no message
    std::panic::set_hook(Box::new(|_| ()));
    let _ = tok::ticks();
    subjects::all(&mut Views(&mut cx));
    subjects::full(&mut Full(&mut cx));
    subjects::ord(&mut Ordered(&mut cx));
    cx.finish()
}
