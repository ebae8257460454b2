//! C12: comparing boxes is comparing the enums they hold
#![recursion_limit = "4096"]
use std::cmp::Ordering;
use std::fmt::{Debug, Display};
use tbmon::prelude::*;
tbmon::subjects!();

struct Pair<S: Subject> {
    i: S::I,
    c: S::C,
    e: Enc,
    h: u64,
}
/// The same value as an enum and in a container. The values come from a small set of seeds, so that
/// equal, nearly equal and unrelated ones meet.
fn pool<S: Subject>(cx: &mut Cx) -> Vec<Pair<S>> {
    let mut out = vec![];
    let per = (24 / S::n()).max(2);
    let base = cx.rng.u64();
    for v in (0..S::n()).filter(|v| S::n() <= 40 || v % (S::n() / 32) == 0 || v + 4 > S::n()) {
        for k in 0..per {
            let seed = if k % 3 == 2 { base.wrapping_add(k as u64 / 3) } else { cx.rng.u64() };
            let i = S::gen(v, &mut Rng::new(seed));
            let c = S::C::from(S::gen(v, &mut Rng::new(seed)));
            let e = S::enc(&i);
            let h = tbmon::rng::hash(&e.1) ^ v as u64;
            out.push(Pair { i, c, e, h });
            if k == 0 {
                // the same value once more
                out.push(Pair { i: S::gen(v, &mut Rng::new(seed)), c: S::C::from(S::gen(v, &mut Rng::new(seed))), e: out.last().unwrap().e.clone(), h });
            }
        }
    }
    out
}
fn same<S: Subject, T: PartialEq + Debug>(cx: &mut Cx, op: &str, a: &Pair<S>, b: &Pair<S>, mut want: impl FnMut() -> T, mut got: impl FnMut() -> T) {
    let (w, g) = (want(), catch(|| got()));
    cx.eval_hash(tbmon::rng::hash(op.as_bytes()) ^ a.h.rotate_left(9) ^ b.h.rotate_left(23));
    match g {
        Err(m) => cx.violation(&format!("{}:panic", op), m),
        Ok(g) => {
            if w != g {
                cx.violation(op, format!("{} of boxes of {} and {}: {:?}, of the enums: {:?}", op, show(&a.e), show(&b.e), g, w));
            }
        }
    }
}
/// Exchange the values in two containers of one variant
fn trade<S: Subject>(p: &mut [Pair<S>], x: usize, y: usize) -> bool {
    if x == y {
        return false;
    }
    let (a, b) = p.split_at_mut(x.max(y));
    let (a, b) = (&mut a[x.min(y)], &mut b[0]);
    exchange::<S>(&mut a.c, &mut b.c) && {
        std::mem::swap(&mut a.i, &mut b.i);
        std::mem::swap(&mut a.e, &mut b.e);
        std::mem::swap(&mut a.h, &mut b.h);
        true
    }
}
struct D<'a>(&'a mut Cx);
impl GoFull for D<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        for _ in 0..cx.n(1) {
            let p = pool::<S>(cx);
            let words: Vec<u64> = p.iter().map(|x| word(&x.c)).collect();
            for x in 0..p.len() {
                for y in 0..p.len() {
                    let (a, b) = (&p[x], &p[y]);
                    cx.case_at(S::NAME, x, y);
                    let (ab, bb) = (S::boxed(&a.c), S::boxed(&b.c));
                    same(cx, "==", a, b, || a.i == b.i, || a.c == b.c);
                    same(cx, "!=", a, b, || a.i != b.i, || a.c != b.c);
                    same(cx, "== boxes", a, b, || a.i == b.i, || ab == bb);
                    same(cx, "!= boxes", a, b, || a.i != b.i, || ab != bb);
                    same(cx, "partial_cmp", a, b, || a.i.partial_cmp(&b.i), || a.c.partial_cmp(&b.c));
                    same(cx, "partial_cmp boxes", a, b, || a.i.partial_cmp(&b.i), || ab.partial_cmp(bb));
                    same(cx, "< <= > >=", a, b, || (a.i < b.i, a.i <= b.i, a.i > b.i, a.i >= b.i), || (a.c < b.c, a.c <= b.c, a.c > b.c, a.c >= b.c));
                    same(cx, "< <= > >= boxes", a, b, || (a.i < b.i, a.i <= b.i, a.i > b.i, a.i >= b.i), || (ab < bb, ab <= bb, ab > bb, ab >= bb));
                    let o = a.i.partial_cmp(&b.i);
                    cx.count(match o { None => "incomparable pairs", Some(Ordering::Equal) => "equal pairs", _ => "ordered pairs" }, 1);
                    if x == y && a.i != a.i {
                        cx.count("values unequal to themselves", 1);
                    }
                }
            }
            for (x, w) in p.iter().zip(words) {
                cx.case(format!("{} {} after the comparisons", S::NAME, show(&x.e)));
                cx.check(word(&x.c) == w && view::<S>(&x.c).1.as_ref() == Some(&x.e), "changed", || "the operand changed".into());
            }
            // the same boxes again, once other values are in them
            let mut p = p;
            let mut r = Rng::new(cx.rng.u64());
            for _ in 0..p.len() * 2 {
                let x = r.idx(p.len());
                let alike: Vec<usize> = (0..p.len()).filter(|k| p[*k].e.0 == p[x].e.0 && *k != x).collect();
                let (y, z) = (alike[r.idx(alike.len())], alike[r.idx(alike.len())]);
                let other = r.idx(p.len());
                for turn in 0..3 {
                    for (a, b) in [(x, y), (y, x), (x, other), (x, x)] {
                        cx.case_at(S::NAME, a, b);
                        let (a, b) = (&p[a], &p[b]);
                        let (ab, bb) = (S::boxed(&a.c), S::boxed(&b.c));
                        same(cx, "==", a, b, || a.i == b.i, || a.c == b.c);
                        same(cx, "== boxes", a, b, || a.i == b.i, || ab == bb);
                        same(cx, "partial_cmp", a, b, || a.i.partial_cmp(&b.i), || a.c.partial_cmp(&b.c));
                        same(cx, "< >= boxes", a, b, || (a.i < b.i, a.i >= b.i), || (ab < bb, ab >= bb));
                    }
                    if y == z || !trade(&mut p, if turn == 0 { y } else { x }, z) {
                        break;
                    }
                    cx.count("operands changed between comparisons", 1);
                }
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.count("enums", 1);
        cx.collect();
    }
}
/// Compares as the value, and tells which of two equal ones it is
struct Numbered<'a, T>(&'a T, i32);
impl<T: PartialEq> PartialEq for Numbered<'_, T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: Eq> Eq for Numbered<'_, T> {}
impl<T: PartialOrd> PartialOrd for Numbered<'_, T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.0.partial_cmp(o.0)
    }
}
impl<T: Ord> Ord for Numbered<'_, T> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(o.0)
    }
}
struct Ordered<'a>(&'a mut Cx);
impl GoOrd for Ordered<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + Ord,
        S::C: Debug + Clone + Ord,
    {
        let cx = &mut *self.0;
        for _ in 0..cx.n(2) {
            let p = pool::<S>(cx);
            for a in &p {
                for b in &p {
                    cx.case_at(S::NAME, a.e.0, b.e.0);
                    let (ab, bb) = (S::boxed(&a.c), S::boxed(&b.c));
                    same(cx, "cmp", a, b, || a.i.cmp(&b.i), || a.c.cmp(&b.c));
                    same(cx, "cmp boxes", a, b, || a.i.cmp(&b.i), || ab.cmp(bb));
                    same(cx, "max/min", a, b, || (std::cmp::max(&a.i, &b.i) as *const _ == &a.i, std::cmp::min(&a.i, &b.i) as *const _ == &a.i), || (std::cmp::max(ab, bb) as *const _ == ab, std::cmp::min(ab, bb) as *const _ == ab));
                    if S::n() > 8 && (a.h ^ b.h) % 8 != 0 {
                        continue;
                    }
                    // by value: which of the two comes back
                    let own = |i: &S::I| S::C::from(i.clone());
                    let of = |a: u64, b: u64, x: u64| if x == a { 0 } else if x == b { 1 } else { 2 };
                    same(cx, "max/min by value", a, b, || {
                        let (x, n) = (Numbered(&a.i, 0).max(Numbered(&b.i, 1)).1, Numbered(&a.i, 0).min(Numbered(&b.i, 1)).1);
                        (x, n, x, n)
                    }, || {
                        let (x, y, x2, y2) = (own(&a.i), own(&b.i), own(&a.i), own(&b.i));
                        let (w, w2) = ((word(&x), word(&y)), (word(&x2), word(&y2)));
                        if w.0 == w.1 {
                            // no storage to tell them apart by
                            let (x, n) = (Numbered(&a.i, 0).max(Numbered(&b.i, 1)).1, Numbered(&a.i, 0).min(Numbered(&b.i, 1)).1);
                            return (x, n, x, n);
                        }
                        let (bx, by, bx2, by2) = (S::unbox(own(&a.i)), S::unbox(own(&b.i)), S::unbox(own(&a.i)), S::unbox(own(&b.i)));
                        let (v, v2) = ((word(&bx), word(&by)), (word(&bx2), word(&by2)));
                        (of(w.0, w.1, word(&x.max(y))), of(w2.0, w2.1, word(&x2.min(y2))), of(v.0, v.1, word(&bx.max(by))), of(v2.0, v2.1, word(&bx2.min(by2))))
                    });
                    let c = &p[(a.h ^ b.h) as usize % p.len()];
                    if a.i <= b.i {
                        same(cx, "clamp", a, b, || S::enc(&c.i.clone().clamp(a.i.clone(), b.i.clone())), || view::<S>(&own(&c.i).clamp(own(&a.i), own(&b.i))).1.unwrap());
                        same(cx, "clamp boxes", a, b, || S::enc(&c.i.clone().clamp(a.i.clone(), b.i.clone())), || S::enc(&S::I::from_tagged_box(S::unbox(own(&c.i)).clamp(S::unbox(own(&a.i)), S::unbox(own(&b.i))))));
                    }
                }
            }
            let mut p = p;
            let mut r = Rng::new(cx.rng.u64());
            for _ in 0..p.len() * 2 {
                let x = r.idx(p.len());
                let alike: Vec<usize> = (0..p.len()).filter(|k| p[*k].e.0 == p[x].e.0 && *k != x).collect();
                let (y, z) = (alike[r.idx(alike.len())], alike[r.idx(alike.len())]);
                for turn in 0..3 {
                    for (a, b) in [(x, y), (y, x), (x, x)] {
                        cx.case_at(S::NAME, a, b);
                        let (a, b) = (&p[a], &p[b]);
                        same(cx, "cmp", a, b, || a.i.cmp(&b.i), || a.c.cmp(&b.c));
                    }
                    if y == z || !trade(&mut p, if turn == 0 { y } else { x }, z) {
                        break;
                    }
                    cx.count("operands changed between comparisons", 1);
                }
            }
            drop(p);
            if tok::filling() {
                tok::reset()
            }
        }
        cx.collect();
    }
}

// relations written by the user for the enum itself
tagged_box! {
    struct Odd, enum OddItem { A(u8), B(i16, i16), N { x: u32, }, }
}
impl OddItem {
    fn key(&self) -> i64 {
        match self {
            OddItem::A(a) => *a as i64,
            OddItem::B(a, b) => *a as i64 * 3 - *b as i64,
            OddItem::N { x } => *x as i64 % 7,
        }
    }
}
impl PartialEq for OddItem {
    fn eq(&self, o: &Self) -> bool {
        self.key() % 3 == o.key() % 2
    }
}
impl Eq for OddItem {}
impl PartialOrd for OddItem {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if (self.key() + 2 * o.key()) % 5 == 0 {
            None
        } else {
            Some((self.key() * 2).cmp(&o.key()))
        }
    }
}
impl Ord for OddItem {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.key() % 4).cmp(&(o.key() % 9))
    }
}
fn odd(cx: &mut Cx) {
    let mk = |s: u64| {
        let mut r = Rng::new(s);
        match r.below(3) {
            0 => OddItem::A(r.u64() as u8),
            1 => OddItem::B(r.u64() as i16, r.u64() as i16),
            _ => OddItem::N { x: r.u64() as u32 },
        }
    };
    let base = cx.rng.u64();
    let n = cx.n(60).min(400);
    for x in 0..n {
        for y in 0..n {
            let (i, j) = (mk(base + x), mk(base + y));
            let (a, b) = (mk(base + x).into_tagged_box(), mk(base + y).into_tagged_box());
            cx.case(format!("user-defined relations on values {} and {}", base + x, base + y));
            cx.check((a == b) == (i == j), "user ==", || format!("{}", a == b));
            cx.check((a != b) == (i != j), "user !=", || format!("{}", a != b));
            cx.check(a.partial_cmp(&b) == i.partial_cmp(&j), "user partial_cmp", || format!("{:?}", a.partial_cmp(&b)));
            cx.check(a.cmp(&b) == i.cmp(&j), "user cmp", || format!("{:?}", a.cmp(&b)));
            cx.check((a < b, a >= b) == (i < j, i >= j), "user < >=", || String::new());
            let (c, d) = (Odd { value: a }, Odd { value: b });
            cx.check((c.value == d.value) == (i == j), "user ==", String::new);
            cx.eval(format!("odd {} {}", i.key(), j.key()).as_bytes());
            drop((OddItem::from_tagged_box(c.value), d.into_inner()));
        }
    }
}
// zero-sized enums: nothing to tell their boxes apart, but their relations are still the user's
mod zero {
    use std::cell::Cell;
    use std::cmp::Ordering;
    use tagged_box::tagged_box;
    thread_local! { pub static ANSWER: Cell<(u8, u32)> = const { Cell::new((0, 0)) }; }
    fn ask() -> u8 {
        ANSWER.with(|a| {
            let (x, n) = a.get();
            a.set((x, n + 1));
            x
        })
    }
    macro_rules! relations {
        ($($t:ident),*) => { $(
            impl PartialEq for $t {
                fn eq(&self, _: &Self) -> bool {
                    ask() & 1 != 0
                }
            }
            impl Eq for $t {}
            impl PartialOrd for $t {
                fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
                    match ask() & 3 {
                        0 => None,
                        1 => Some(Ordering::Less),
                        2 => Some(Ordering::Equal),
                        _ => Some(Ordering::Greater),
                    }
                }
            }
            impl Ord for $t {
                fn cmp(&self, _: &Self) -> Ordering {
                    [Ordering::Less, Ordering::Equal, Ordering::Greater][ask() as usize % 3]
                }
            }
        )* }
    }
    tagged_box! {
        pub struct Unit, pub enum UnitItem { A, }
    }
    tagged_box! {
        pub struct Empty, pub enum EmptyItem { A(()), B((), ()), C { x: [u64; 0], }, }
    }
    tagged_box! {
        pub struct Small, pub enum SmallItem { A, B, }
    }
    relations!(UnitItem, EmptyItem, SmallItem);
}
fn zero_sized<I: TaggableInner + Ord>(cx: &mut Cx, name: &str, make: &dyn Fn(usize) -> I, n: usize) {
    for x in 0..n {
        for y in 0..n {
            for answer in 0..12u8 {
                cx.case(format!("{} {} and {}, whose relations answer {}", name, x, y, answer));
                let (a, b) = (make(x).into_tagged_box(), make(y).into_tagged_box());
                let (i, j) = (make(x), make(y));
                for (l, r, li, ri) in [(&a, &b, &i, &j), (&a, &a, &i, &i)] {
                    let mut ask = |what: &str, box_: &dyn Fn() -> String, value: &dyn Fn() -> String| {
                        zero::ANSWER.with(|x| x.set((answer, 0)));
                        let got = box_();
                        let asked = zero::ANSWER.with(|x| x.get().1);
                        let want = value();
                        cx.check(got == want, "zero-sized", || format!("{}: {} instead of {}", what, got, want));
                        cx.count("relations asked", asked as u64);
                        cx.eval(format!("{} {} {} {} {}", name, x, y, answer, what).as_bytes());
                    };
                    ask("==", &|| format!("{}", l == r), &|| format!("{}", li == ri));
                    ask("!=", &|| format!("{}", l != r), &|| format!("{}", li != ri));
                    ask("partial_cmp", &|| format!("{:?}", l.partial_cmp(r)), &|| format!("{:?}", li.partial_cmp(ri)));
                    ask("cmp", &|| format!("{:?}", l.cmp(r)), &|| format!("{:?}", li.cmp(ri)));
                    ask("<", &|| format!("{}", l < r), &|| format!("{}", li < ri));
                    ask(">=", &|| format!("{}", l >= r), &|| format!("{}", li >= ri));
                }
            }
        }
    }
}
fn main() {
    let mut cx = Cx::new("C12");
    tbmon::never::all(&mut cx, &["compared"]);
    subjects::full(&mut D(&mut cx));
    subjects::ord(&mut Ordered(&mut cx));
    odd(&mut cx);
    zero_sized(&mut cx, "an enum of one unit variant", &|_| zero::UnitItem::A, 1);
    zero_sized(&mut cx, "an enum of empty fields", &|k| [zero::EmptyItem::A(()), zero::EmptyItem::B((), ()), zero::EmptyItem::C { x: [] }].into_iter().nth(k).unwrap(), 3);
    zero_sized(&mut cx, "an enum of two unit variants", &|k| if k == 0 { zero::SmallItem::A } else { zero::SmallItem::B }, 2);
    cx.finish()
}
