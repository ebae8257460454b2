//! C19, C22: a program makes the same observations everywhere. All that this one observes goes into
//! digests, one for each enum, which check.py compares between builds.
#![recursion_limit = "8192"]
use std::fmt::{Debug, Display};
use tbmon::prelude::*;
use tbmon::rng::hash;
tbmon::subjects!();

struct Obs {
    h: u64,
    n: u64,
}
impl Obs {
    fn b(&mut self, b: &[u8]) {
        self.h = self.h.rotate_left(9).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ hash(b);
        self.n += 1;
    }
    fn s(&mut self, s: String) {
        self.b(s.as_bytes())
    }
    fn e(&mut self, e: &Enc) {
        self.b(&(e.0 as u64).to_le_bytes());
        self.b(&e.1)
    }
}
struct D<'a>(&'a mut Cx);
impl GoFull for D<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        let mut o = Obs { h: hash(S::NAME.as_bytes()), n: 0 };
        let reps = cx.n(2);
        let mut keep: Vec<(S::C, Enc)> = vec![];
        for v in 0..S::n() {
            for mk in 0..MAKES {
                for k in 0..reps {
                    let seed = hash(format!("{} {} {} {} {}", cx.seed, S::NAME, v, mk, k).as_bytes());
                    let mut r = Rng::new(seed);
                    cx.case(format!("{}::{} make {} value {}", S::NAME, S::VARIANTS[v], mk, k));
                    let res = catch(|| {
                        let (c, e, _) = make::<S>(v, &mut r, mk);
                        o.e(&e);
                        let seen = view::<S>(&c);
                        o.s(format!("{} {}", seen.0, S::boxed(&c).discriminant()));
                        let seen = seen.1.expect("a view");
                        cx.check(seen == e && S::boxed(&c).discriminant() as usize == v, "view", || format!("{} was seen as {}", show(&e), show(&seen)));
                        o.e(&seen);
                        o.s(format!("{:?} {:#?} {} {:>8}", c, S::boxed(&c), S::boxed(&c), S::boxed(&c)));
                        let d = c.clone();
                        let f = view::<S>(&d).1.expect("a view");
                        o.e(&f);
                        cx.check(f == e, "clone", || format!("of {} is {}", show(&e), show(&f)));
                        if let Some(p) = S::peek(v, S::boxed(&c)) {
                            o.b(&p)
                        }
                        let i = take::<S>(v, d, (seed >> 7) as usize % TAKES);
                        o.e(&S::enc(&i));
                        cx.check(S::enc(&i) == e, "taken", || format!("{} instead of {}", show(&S::enc(&i)), show(&e)));
                        let j = S::I::from_tagged_box(S::boxed(&c).clone());
                        o.s(format!("{:?} {}", i == j, S::C::from(i) == c));
                        for (x, _) in keep.iter().rev().take(6) {
                            o.s(format!("{} {:?} {:?} {} {}", *x == c, x.partial_cmp(&c), S::boxed(&c).partial_cmp(S::boxed(x)), *x < c, S::boxed(x) >= S::boxed(&c)));
                        }
                        (c, e)
                    });
                    match res {
                        Ok(x) => keep.push(x),
                        Err(m) => {
                            cx.violation("panic", m.clone());
                            o.s(m)
                        }
                    }
                    cx.eval_hash(o.h);
                    cx.count("observations", o.n);
                    o.n = 0;
                }
            }
            if tok::filling() {
                keep.clear();
                tok::reset()
            }
        }
        // a history of moves, mutations and replacements
        let mut r = Rng::new(hash(format!("{} {} history", cx.seed, S::NAME).as_bytes()));
        for step in 0..cx.n(40) {
            cx.case(format!("{} history step {}", S::NAME, step));
            let n = keep.len();
            if n == 0 {
                break;
            }
            let res = catch(|| {
                let (c, mut e) = keep.swap_remove(r.idx(n));
                let v = S::boxed(&c).discriminant() as usize;
                let c = match r.below(4) {
                    0 => {
                        let mut b = S::unbox(c);
                        if let Some(f) = S::poke(v, &mut b, &mut r) {
                            e = f
                        }
                        S::wrap(b)
                    }
                    1 => S::wrap(S::into_raw_and_back(v, S::unbox(c))),
                    2 => S::C::from(c.into_inner()),
                    _ => c.clone(),
                };
                let f = view::<S>(&c).1.expect("a view");
                cx.check(f == e, "history", || format!("{} instead of {}", show(&f), show(&e)));
                o.e(&f);
                o.s(format!("{}", S::boxed(&c).discriminant()));
                (c, e)
            });
            match res {
                Ok(x) => keep.push(x),
                Err(m) => cx.violation("panic", m),
            }
            cx.eval_hash(o.h);
        }
        cx.digests.push((S::NAME.into(), o.h));
        if tok::filling() {
            tok::reset()
        }
        cx.collect();
    }
}
fn main() {
    let mut cx = Cx::new("C19");
    // the same values whatever the width
    cx.rng = Rng::new(cx.seed);
    subjects::full(&mut D(&mut cx));
    for (_, h) in cx.digests.clone() {
        cx.observe(&h.to_le_bytes())
    }
    cx.finish()
}
