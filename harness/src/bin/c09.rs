//! C09: a discriminant that names no variant is refused by every decoder
#![recursion_limit = "4096"]
use std::fmt::{Debug, Display, Write};
use tbmon::drive::*;
use tbmon::prelude::*;
tbmon::subjects!();

/// Ways to make a box with a given discriminant and known contents
const FILLS: usize = 5;
struct Filled {
    tok: Option<u32>,
    bytes: Vec<u8>,
    at: usize,
}
fn fill<S: Subject>(d: Discriminant, k: usize, r: &mut Rng) -> (S::C, Filled) {
    let mut f = Filled { tok: None, bytes: vec![], at: 0 };
    let b: TaggedBox<S::I> = match k {
        0 => {
            let t = Tok::gen(r);
            f.tok = Some(t.id);
            TaggedBox::new(t, d)
        }
        1 => {
            let x: [u64; 40] = std::array::from_fn(|_| r.u64());
            f.bytes = x.iter().flat_map(|w| w.to_ne_bytes()).collect();
            TaggedBox::new(x, d)
        }
        2 => TaggedBox::dangling::<u64>(d),
        3 => unsafe {
            // the contents of a real variant under a discriminant that is not its own
            let v = r.idx(S::n());
            let b = S::gen(v, r).into_tagged_box();
            let p: *mut u8 = TaggedBox::into_raw(b);
            TaggedBox::from_raw(p, d)
        },
        _ => TaggedBox::new((), d),
    };
    f.at = b.as_ptr::<u8>() as usize;
    (S::wrap(b), f)
}
fn untouched(cx: &mut Cx, what: &str, f: &Filled, c0: tok::Census) {
    let c1 = tok::census();
    cx.check(c1.drops == c0.drops && c1.zdrops == c0.zdrops && f.tok.map_or(true, tok::alive), &format!("{}:destroyed", what), || "a destructor ran".into());
    if !f.bytes.is_empty() {
        let now = unsafe { std::slice::from_raw_parts(f.at as *const u8, f.bytes.len()) };
        cx.check(now == &f.bytes[..], &format!("{}:changed", what), || "the stored bytes changed".into());
        cx.check(unsafe { mem::block_intact(f.at) }, &format!("{}:freed", what), || "the block is no longer live".into());
    }
}
fn discriminants<S: Subject>(r: &mut Rng, many: u64) -> Vec<Discriminant> {
    let (n, max) = (S::n() as u64, MAX_DISCRIMINANT as u64);
    if n > max {
        return vec![];
    }
    let mut v: Vec<u64> = if max - n < many { (n..=max).collect() } else { vec![n, n + 1, max, max - 1, (n + max) / 2] };
    if max - n >= many {
        // every single bit, values that agree with a variant in their low bits, and random ones
        for b in 0..16 {
            for lo in 0..2 {
                v.push((1u64 << b) + lo * r.below(n));
                v.push((max & !((1 << b) - 1)) | r.below(n) & ((1 << b) - 1));
            }
        }
        for _ in 0..many / 2 {
            v.push(n + r.below(max - n + 1));
        }
        v.retain(|d| *d >= n && *d <= max);
        v.sort();
        v.dedup();
    }
    v.into_iter().map(|d| d as Discriminant).collect()
}

struct Basic<'a>(&'a mut Cx);
impl Go for Basic<'_> {
    fn go<S: Subject>(&mut self) {
        let cx = &mut *self.0;
        let mut r = Rng::new(cx.rng.u64());
        for d in discriminants::<S>(&mut r, cx.n(32)) {
            for k in 0..FILLS {
                for op in 0..5 {
                    cx.case(format!("{} discriminant {} fill {} op {}", S::NAME, d, k, op));
                    let (c, f) = fill::<S>(d, k, &mut r);
                    let c0 = tok::census();
                    let ran = std::cell::Cell::new(0);
                    let w = word(&c);
                    let res: Result<Option<Enc>, String> = match op {
                        0 => catch(|| Some(S::enc(&c.into_inner()))),
                        1 => catch(|| Some(S::enc(&S::I::from_tagged_box(S::unbox(c))))),
                        2 => {
                            let x = catch(|| unsafe {
                                S::I::ref_from_tagged_box(S::boxed(&c), |_| ran.set(ran.get() + 1));
                                None
                            });
                            cx.check(word(&c) == w, "view:word", || "the box changed".into());
                            x
                        }
                        3 => {
                            // inside a view of a good box
                            let (g, e, _) = make::<S>(0, &mut r, 0);
                            let c1 = tok::census();
                            let x = catch(|| unsafe {
                                S::I::ref_from_tagged_box(S::boxed(&g), |_| S::I::ref_from_tagged_box(S::boxed(&c), |_| ran.set(ran.get() + 1)));
                                None
                            });
                            cx.check(view::<S>(&g).1 == Some(e), "nested:other box", || "the good box changed".into());
                            cx.check(tok::census().drops == c1.drops, "nested:destroyed", || "a destructor ran".into());
                            x
                        }
                        _ => {
                            // after a trip through the raw form
                            let p: *mut u8 = TaggedBox::into_raw(S::unbox(c));
                            let c: TaggedBox<S::I> = unsafe { TaggedBox::from_raw(p, d) };
                            cx.check(c.discriminant() == d, "raw:discriminant", || "changed".into());
                            catch(|| Some(S::enc(&S::wrap(c).into_inner())))
                        }
                    };
                    let what = ["into_inner", "from_tagged_box", "view", "nested", "raw"][op];
                    match res {
                        Ok(Some(e)) => {
                            cx.violation(&format!("{}:accepted", what), format!("an enum value came out: {}", show(&e)));
                        }
                        Ok(None) => cx.violation(&format!("{}:accepted", what), "no panic".into()),
                        Err(_) => {
                            cx.check(ran.get() == 0, &format!("{}:called", what), || "the callback ran".into());
                        }
                    }
                    untouched(cx, what, &f, c0);
                    cx.eval(format!("{}/{}/{}/{}", S::NAME, d, k, op).as_bytes());
                }
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.count("enums", 1);
        cx.collect();
    }
}

struct Full<'a>(&'a mut Cx);
impl GoFull for Full<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        let mut r = Rng::new(cx.rng.u64());
        for d in discriminants::<S>(&mut r, cx.n(12)) {
            for k in 0..FILLS {
                let (c, f) = fill::<S>(d, k, &mut r);
                let (c2, _) = fill::<S>(d, 2, &mut r);
                let (g, e, _) = make::<S>(r.clone().idx(S::n()), &mut r, 0);
                for op in 0..16 {
                    if op == 0 && S::COPY {
                        continue; // a copy of the word, nothing is decoded
                    }
                    cx.case(format!("{} discriminant {} fill {} comparison or formatting {}", S::NAME, d, k, op));
                    let c0 = tok::census();
                    let t0 = tok::ticks();
                    let mut out = String::new();
                    let res: Result<String, String> = catch(|| match op {
                        0 => {
                            let x = c.clone();
                            std::mem::forget(x);
                            "clone".into()
                        }
                        1 => format!("eq {}", c == g),
                        2 => format!("eq {}", g == c),
                        3 => format!("eq {}", c == c),
                        4 => format!("partial_cmp {:?}", c.partial_cmp(&g)),
                        5 => format!("partial_cmp {:?}", g.partial_cmp(&c)),
                        6 => format!("lt {:?}", g < c),
                        7 => format!("debug {:?}", write!(out, "{:?}", c)),
                        8 => format!("debug {:?}", write!(out, "{:?}", S::boxed(&c))),
                        9 => format!("display {:?}", write!(out, "{}", S::boxed(&c))),
                        10 => {
                            let x = S::boxed(&c).clone();
                            std::mem::forget(x);
                            "clone".into()
                        }
                        11 => format!("ne {}", S::boxed(&c) != S::boxed(&g)),
                        12 => format!("eq {}", c == c2),
                        13 => format!("partial_cmp {:?}", c.partial_cmp(&c2)),
                        14 => format!("eq {}", S::boxed(&g) == S::boxed(&c)),
                        _ => format!("ge {:?}", c >= c2),
                    });
                    if let Ok(m) = &res {
                        cx.violation(&format!("{}:accepted", m.split(' ').next().unwrap()), m.clone());
                    }
                    cx.check(tok::ticks() == t0, "user code ran", || format!("operation {}: user code was given a value", op));
                    cx.check(out.is_empty() || op == 7, "wrote", || format!("operation {} wrote {:?}", op, out));
                    untouched(cx, "compare/format", &f, c0);
                    cx.eval(format!("{}/{}/{}/f{}", S::NAME, d, k, op).as_bytes());
                }
                cx.check(view::<S>(&g).1 == Some(e), "other box", || "the good box changed".into());
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.collect();
    }
}
struct Ordered<'a>(&'a mut Cx);
impl GoOrd for Ordered<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + Ord,
        S::C: Debug + Clone + Ord,
    {
        let cx = &mut *self.0;
        let mut r = Rng::new(cx.rng.u64());
        for d in discriminants::<S>(&mut r, cx.n(12)) {
            let (c, f) = fill::<S>(d, 0, &mut r);
            let (g, _, _) = make::<S>(0, &mut r, 0);
            cx.case(format!("{} discriminant {} cmp", S::NAME, d));
            let c0 = tok::census();
            for (k, res) in [catch(|| c.cmp(&g)), catch(|| g.cmp(&c)), catch(|| c.cmp(&c)), catch(|| S::boxed(&g).cmp(S::boxed(&c)))].iter().enumerate() {
                cx.check(res.is_err(), "cmp:accepted", || format!("operation {} gave {:?}", k, res));
                cx.eval(format!("{}/{}/c{}", S::NAME, d, k).as_bytes());
            }
            untouched(cx, "cmp", &f, c0);
        }
        cx.collect();
    }
}
fn main() {
    let mut cx = Cx::new("C09");
    subjects::all(&mut Basic(&mut cx));
    subjects::full(&mut Full(&mut cx));
    subjects::ord(&mut Ordered(&mut cx));
    cx.finish()
}
