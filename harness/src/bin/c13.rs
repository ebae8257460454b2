//! C13: formatting a box is formatting the enum it holds
#![recursion_limit = "4096"]
use std::fmt::{self, Debug, Display};
use tbmon::prelude::*;
tbmon::subjects!();

struct Model<'a, I>(&'static str, &'a I);
impl<I: Debug> Debug for Model<'_, I> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct(self.0).field("value", self.1).finish()
    }
}
type W<'a> = &'a dyn Fn(usize) -> (bool, String);
fn both(cx: &mut Cx, name: &str, kind: &str, fmt: &str, r: &mut Rng, a: W, b: W) {
    // a is the enum, b the box
    let (x, y) = (a(usize::MAX), b(usize::MAX));
    cx.check(x == y, kind, || format!("{}: the enum gives {:?}, the box {:?}", fmt, x, y));
    cx.eval(format!("{}/{}/{}/{}", name, kind, fmt, x.1).as_bytes());
    cx.observe(x.1.as_bytes());
    // a writer that fails part of the way
    if !x.1.is_empty() {
        let mut at = vec![0, x.1.len() - 1, r.idx(x.1.len())];
        if r.chance(4) {
            at = (0..x.1.len().min(60)).collect();
        }
        for n in at {
            let (x, y) = (a(n), b(n));
            cx.check(x == y, &format!("{}:failing-writer", kind), || format!("{} into a writer for {} bytes: the enum gives {:?}, the box {:?}", fmt, n, x, y));
            cx.check(!y.0, &format!("{}:error-lost", kind), || format!("{} into a writer for {} bytes reported success", fmt, n));
            cx.count("failing writers", 1);
        }
    }
    // an error from the value
    for n in 1..4 {
        let e0 = tok::fmt_errors();
        tok::arm_fmt_error(n);
        let x = a(usize::MAX);
        tok::arm_fmt_error(n);
        let y = b(usize::MAX);
        tok::arm_fmt_error(0);
        if tok::fmt_errors() == e0 {
            break;
        }
        cx.check(x == y && !y.0, &format!("{}:failing-value", kind), || format!("{} with an error from the value: the enum gives {:?}, the box {:?}", fmt, x, y));
        cx.count("failing values", 1);
    }
}
struct D<'a>(&'a mut Cx);
impl GoFull for D<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            for k in 0..cx.n(2) {
                let seed = cx.rng.u64();
                let i = S::gen(v, &mut Rng::new(seed));
                cx.case(format!("{}::{} value {}: {}", S::NAME, S::VARIANTS[v], k, show(&S::enc(&i))));
                let res = catch(|| {
                    let c = S::C::from(S::gen(v, &mut Rng::new(seed)));
                    let b = S::boxed(&c);
                    let m = Model(S::CNAME, &i);
                    let mut r = Rng::new(seed ^ 1);
                    let w = word(&c);
                    tbmon::each_debug!(&i, b, |f, x: W, y: W| both(cx, S::NAME, "debug", f, &mut r, x, y));
                    tbmon::each_display!(&i, b, |f, x: W, y: W| both(cx, S::NAME, "display", f, &mut r, x, y));
                    tbmon::each_debug!(&m, &c, |f, x: W, y: W| both(cx, S::NAME, "container", f, &mut r, x, y));
                    // with width and precision as arguments
                    for _ in 0..2 {
                        let (w, p) = (r.idx(40), r.idx(9));
                        both(cx, S::NAME, "debug", &format!("{{:{}.{}?}}", w, p), &mut r, &|l| tbmon::fmtmon::limited(l, format_args!("{:w$.p$?}", i)), &|l| {
                            tbmon::fmtmon::limited(l, format_args!("{:w$.p$?}", b))
                        });
                        both(cx, S::NAME, "display", &format!("{{:{}.{}}}", w, p), &mut r, &|l| tbmon::fmtmon::limited(l, format_args!("{:w$.p$}", i)), &|l| {
                            tbmon::fmtmon::limited(l, format_args!("{:w$.p$}", b))
                        });
                    }
                    // as part of larger structures
                    both(cx, S::NAME, "debug in Some", "{:#?}", &mut r, &|l| tbmon::fmtmon::limited(l, format_args!("{:#?}", Some(&i))), &|l| tbmon::fmtmon::limited(l, format_args!("{:#?}", Some(b))));
                    both(cx, S::NAME, "debug in a slice", "{:#04?}", &mut r, &|l| tbmon::fmtmon::limited(l, format_args!("{:#04?}", [&i, &i])), &|l| {
                        tbmon::fmtmon::limited(l, format_args!("{:#04?}", [b, b]))
                    });
                    cx.check(i.to_string() == b.to_string(), "to_string", || format!("{:?}", b.to_string()));
                    cx.check(word(&c) == w, "word", || "formatting changed the box".into());
                    cx.check(view::<S>(&c).1 == Some(S::enc(&i)), "value", || "formatting changed the value".into());
                    // the same box again, once another value is in it
                    let mut c = c;
                    let mut d = S::C::from(S::gen(v, &mut Rng::new(seed ^ 2)));
                    let j = S::gen(v, &mut Rng::new(seed ^ 2));
                    for turn in 0..2 {
                        if !exchange::<S>(&mut c, &mut d) {
                            break;
                        }
                        let (i, j) = if turn == 0 { (&j, &i) } else { (&i, &j) };
                        cx.check(format!("{:?}", S::boxed(&c)) == format!("{:?}", i) && format!("{}", S::boxed(&c)) == format!("{}", i), "changed:box", || format!("{:?} instead of {:?}", S::boxed(&c), i));
                        cx.check(format!("{:?}", d) == format!("{:?}", Model(S::CNAME, j)), "changed:container", || format!("{:?} instead of {:?}", d, j));
                        cx.count("values changed between formatting", 1);
                    }
                });
                if let Err(m) = res {
                    cx.violation("panic", m);
                }
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.count("enums", 1);
        cx.collect();
    }
}
fn main() {
    let mut cx = Cx::new("C13");
    tbmon::never::all(&mut cx, &["debug"]);
    subjects::full(&mut D(&mut cx));
    cx.finish()
}
