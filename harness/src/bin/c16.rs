//! C16, C22: short random programs that use all of the crate, small enough for the interpreters.
//! What they observe goes into digests, which don't depend on addresses, widths or the target.
#![recursion_limit = "4096"]
use std::fmt::{Debug, Display};
use tbmon::drive::*;
use tbmon::prelude::*;
use tbmon::rng::hash;
tbmon::subjects!();

struct Obs(u64);
impl Obs {
    fn n(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(9) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15)
    }
    fn e(&mut self, e: &Enc) {
        self.n(e.0 as u64 ^ hash(&e.1))
    }
}
struct Full<'a>(&'a mut Cx);
impl GoFull for Full<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        let mut r = Rng::new(cx.seed ^ hash(S::NAME.as_bytes()));
        let mut o = Obs(0);
        let mut held: Vec<(S::C, Enc)> = vec![];
        let mut log = String::new();
        for step in 0..cx.n(120).max(4 * S::n() as u64) {
            let n = held.len();
            let op = if n < 2 || step < 2 * S::n() as u64 { 0 } else { r.idx(17) };
            let (i, j) = (r.idx(n.max(1)), r.idx(n.max(1)));
            log.clear();
            if !cfg!(miri) {
                cx.case(format!("{} step {} operation {}", S::NAME, step, op));
            }
            cx.case_at(S::NAME, step as usize, op);
            o.n(op as u64);
            let res = catch(|| match op {
                0 | 1 if n < 8 || step < 2 * S::n() as u64 => {
                    let v = if step < 2 * S::n() as u64 { step as usize % S::n() } else { r.idx(S::n()) };
                    let mk = r.idx(MAKES);
                    let (c, e, _) = make::<S>(v, &mut r, mk);
                    cx.check(S::boxed(&c).discriminant() as usize == v, "discriminant", || format!("of variant {}", v));
                    o.e(&e);
                    held.push((c, e));
                }
                0..=2 => {
                    let (c, e) = held.swap_remove(i);
                    let x = take::<S>(e.0, c, r.idx(TAKES));
                    o.e(&S::enc(&x));
                    cx.check(S::enc(&x) == e, "taken", || show(&e));
                }
                3 => {
                    // views within views
                    let mut seen = vec![];
                    unsafe {
                        S::I::ref_from_tagged_box(S::boxed(&held[i].0), |x| {
                            seen.push(S::enc(x));
                            S::I::ref_from_tagged_box(S::boxed(&held[j].0), |y| {
                                seen.push(S::enc(y));
                                o.n((x == y) as u64);
                                seen.push(S::enc(x));
                            });
                            seen.push(S::enc(x));
                        })
                    }
                    cx.check(seen == [&held[i].1, &held[j].1, &held[i].1, &held[i].1].map(|e| e.clone()), "view", || format!("{:?}", seen));
                    o.e(&seen[0]);
                }
                4 | 5 => {
                    let c = if op == 4 { held[i].0.clone() } else { S::wrap(S::boxed(&held[i].0).clone()) };
                    let e = held[i].1.clone();
                    cx.check(view::<S>(&c).1.as_ref() == Some(&e), "clone", || show(&e));
                    if n < 8 {
                        held.push((c, e))
                    } else {
                        o.e(&S::enc(&c.into_inner()))
                    }
                }
                6 => {
                    use std::fmt::Write;
                    let (b, c) = (S::boxed(&held[i].0), &held[i].0);
                    match r.below(4) {
                        0 => write!(log, "{:?}", c),
                        1 => write!(log, "{:?}", b),
                        2 => write!(log, "{:>9}", b),
                        _ => write!(log, "{:#?}", b),
                    }
                    .unwrap();
                    o.n(hash(log.as_bytes()));
                    // addresses: they differ, but not between the box and the integer
                    let a = b.as_ptr::<u8>() as usize;
                    cx.check(format!("{:x}", b) == format!("{:x}", a), "hex", || format!("{:x}", b));
                }
                7 => {
                    let (a, b) = (&held[i].0, &held[j].0);
                    o.n((a == b) as u64 | (a != b) as u64 * 2 | (a < b) as u64 * 4 | (a >= b) as u64 * 8);
                    let (a, b) = (S::boxed(a), S::boxed(b));
                    o.n(a.partial_cmp(b).map_or(9, |x| x as i8 as u64));
                    o.n((a == b) as u64 | (a <= b) as u64 * 4 | (a > b) as u64 * 8);
                }
                8 => {
                    let (c, e) = held.swap_remove(i);
                    let c = S::wrap(S::into_raw_and_back(e.0, S::unbox(c)));
                    held.push((c, e));
                }
                9 | 10 if !S::COPY => {
                    let (c, e) = held.swap_remove(i);
                    let mut b = S::unbox(c);
                    if op == 9 {
                        let e = S::poke(e.0, &mut b, &mut r).unwrap_or(e);
                        o.e(&e);
                        held.push((S::wrap(b), e));
                    } else if S::peek(e.0, &b).is_some() {
                        cx.check(S::into_box_and_drop(e.0, b).as_ref() == Some(&e.1), "into_box", || show(&e));
                    } else {
                        held.push((S::wrap(b), e))
                    }
                }
                11 => {
                    if let Some(p) = S::peek(held[i].1 .0, S::boxed(&held[i].0)) {
                        cx.check(p == held[i].1 .1, "peek", || show(&held[i].1));
                    }
                }
                12 => {
                    // a panic while viewing, cloning or comparing
                    let (a, b) = (&held[i].0, &held[j].0);
                    let k = r.below(4);
                    let m = 1 + r.below(3) as i64;
                    let res = catch(|| {
                        if k == 0 {
                            unsafe {
                                S::I::ref_from_tagged_box(S::boxed(a), |_| {
                                    S::I::ref_from_tagged_box(S::boxed(b), |_| panic!("user"))
                                })
                            }
                        }
                        tok::arm(m);
                        match k {
                            1 => drop(a.clone().into_inner()),
                            2 => drop((a == b, a.partial_cmp(b))),
                            _ => drop(format!("{:?}", a)),
                        }
                    });
                    tok::arm(0);
                    o.n(res.is_err() as u64);
                }
                13 => {
                    // another enum value over an old one
                    let v = r.idx(S::n());
                    let (c, e, _) = make::<S>(v, &mut r, 0);
                    let (old, eold) = std::mem::replace(&mut held[i], (c, e));
                    let x = old.into_inner();
                    cx.check(S::enc(&x) == eold, "replaced", || show(&eold));
                }
                14 if (S::n() as u64) < MAX_DISCRIMINANT as u64 => {
                    // an unknown discriminant
                    let d = (S::n() as u64 + r.below(MAX_DISCRIMINANT as u64 - S::n() as u64)) as Discriminant;
                    let res = catch(|| {
                        let b: TaggedBox<S::I> = TaggedBox::new(7u64, d);
                        match d % 3 {
                            0 => drop(S::I::from_tagged_box(b)),
                            1 => unsafe { S::I::ref_from_tagged_box(&b, |x| drop(S::enc(x))) },
                            _ => drop(S::wrap(b).into_inner()),
                        }
                    });
                    cx.check(res.is_err(), "unknown-discriminant", || format!("{} was decoded", d));
                }
                15 => {
                    let v = held.iter().map(|x| &x.1).collect::<Vec<_>>().len();
                    o.n(v as u64);
                    held.sort_by(|a, b| a.1.cmp(&b.1));
                }
                _ => {
                    let c = &held[i].0;
                    let x = view::<S>(c);
                    cx.check(x.0 == 1 && x.1.as_ref() == Some(&held[i].1), "view", || format!("{:?}", x));
                }
            });
            if let Err(m) = res {
                cx.violation("panic", m);
            }
            cx.eval_hash(o.0);
        }
        for (c, e) in held {
            let x = c.into_inner();
            cx.check(S::enc(&x) == e, "taken", || show(&e));
            cx.eval_hash(o.0 ^ hash(&e.1));
        }
        cx.digests.push((S::NAME.into(), o.0));
        if tok::filling() {
            tok::reset()
        }
        cx.collect();
    }
}
struct Ordered<'a>(&'a mut Cx);
impl GoOrd for Ordered<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + Ord,
        S::C: Debug + Clone + Ord,
    {
        let cx = &mut *self.0;
        let mut r = Rng::new(cx.seed ^ hash(S::NAME.as_bytes()) ^ 1);
        let mut o = Obs(1);
        let held: Vec<S::C> = (0..S::n()).map(|v| make::<S>(v, &mut r, 0).0).collect();
        for a in &held {
            for b in &held {
                if r.chance(1 + S::n() as u64 / 6) {
                    o.n(a.cmp(b) as i8 as u64);
                    o.n(S::boxed(a).cmp(S::boxed(b)) as i8 as u64);
                    cx.eval_hash(o.0);
                }
            }
        }
        for c in held {
            drop(c.into_inner())
        }
        cx.digests.push((format!("{} ord", S::NAME), o.0));
        cx.collect();
    }
}
struct Bare<'a>(&'a mut Cx);
impl Go for Bare<'_> {
    fn go<S: Subject>(&mut self) {
        let cx = &mut *self.0;
        let mut r = Rng::new(cx.seed ^ hash(S::NAME.as_bytes()) ^ 2);
        let mut o = Obs(2);
        for k in 0..cx.n(4) as usize {
            let v = (cx.seed as usize + k) % S::n();
            let (c, e, _) = make::<S>(v, &mut r, k % MAKES);
            let s = view::<S>(&c).1;
            let x = take::<S>(v, c, k % TAKES);
            cx.check(s.as_ref() == Some(&e) && S::enc(&x) == e, "bare", || show(&e));
            o.e(&e);
            cx.eval_hash(o.0);
        }
        cx.digests.push((format!("{} bare", S::NAME), o.0));
        cx.collect();
    }
}
/// Boxes of one type each
enum Any {}
fn raw<T: Val>(cx: &mut Cx, name: &'static str, o: &mut Obs) {
    for how in 0..7 {
        cx.case_at(name, how, 0);
        let mut r = Rng::new(cx.seed ^ hash(name.as_bytes()) ^ how as u64);
        let d = (r.u64() & MAX_DISCRIMINANT as u64 & 1) as Discriminant * MAX_DISCRIMINANT;
        let x = T::gen(&mut r);
        let (mut e, mut f, mut g) = (vec![], vec![], vec![]);
        x.enc(&mut e);
        let res = catch(|| unsafe {
            let mut b: TaggedBox<Any> = if how % 2 == 0 { TaggedBox::new(x, d) } else { TaggedBox::new_unchecked(x, d) };
            b.as_ref::<T>().enc(&mut f);
            b.as_mut_ref::<T>().enc(&mut g);
            (*b.as_ptr::<T>()).enc(&mut vec![]);
            // references and pointers that live at the same time
            let (p, q) = (b.as_ref::<T>(), b.as_ptr::<T>());
            let s = b.as_ref::<T>();
            let (mut ps, mut qs, mut ss) = (vec![], vec![], vec![]);
            p.enc(&mut ps);
            (*q).enc(&mut qs);
            s.enc(&mut ss);
            p.enc(&mut ss);
            cx.check(ps == e && qs == e && ss.len() == 2 * e.len(), "raw:references", || name.into());
            match how {
                0 => {
                    let n = T::gen(&mut r);
                    n.enc(&mut vec![]);
                    *b.as_mut_ref::<T>() = n;
                    drop(TaggedBox::into_inner::<T>(b))
                }
                1 => drop(TaggedBox::into_inner::<T>(b)),
                2 => drop(TaggedBox::into_box::<T>(b)),
                3 => {
                    let p = TaggedBox::into_raw::<T>(b);
                    let b: TaggedBox<Any> = TaggedBox::from_raw(p, 1 & MAX_DISCRIMINANT);
                    drop(TaggedBox::into_box::<T>(b))
                }
                4 => drop(Box::from_raw(TaggedBox::into_raw::<T>(b))),
                5 => {
                    let b: TaggedBox<Any> = TaggedBox::from_raw(Box::into_raw(TaggedBox::into_box::<T>(b)), d);
                    drop(TaggedBox::into_inner::<T>(b))
                }
                _ => std::ptr::drop_in_place(b.as_mut_ptr::<T>()),
            }
        });
        cx.check(res.is_ok() && e == f && e == g, "raw", || format!("{} way {}: {:?}", name, how, res));
        o.n(hash(&e));
        cx.eval_hash(o.0);
    }
    // a pointer to what stays where it is
    let mut r = Rng::new(cx.seed);
    let mut x = T::gen(&mut r);
    let mut t = TaggedPointer::new(&mut x as *mut T as usize as u64, 1 & MAX_DISCRIMINANT);
    let (mut e, mut f) = (vec![], vec![]);
    x.enc(&mut e);
    unsafe {
        t.as_ref::<T>().enc(&mut f);
        let (p, q, u) = (t.as_ref::<T>(), t.as_ref::<T>(), t.as_ptr::<T>());
        let (mut ps, mut us) = (vec![], vec![]);
        p.enc(&mut ps);
        q.enc(&mut ps);
        (*u).enc(&mut us);
        p.enc(&mut us);
        cx.check(ps == us, "pointer:references", || name.into());
        *t.as_mut_ref::<T>() = T::gen(&mut r);
        let (mut g, mut h) = (vec![], vec![]);
        t.as_ref::<T>().enc(&mut g);
        x.enc(&mut h);
        cx.check(e == f && g == h && t.as_ptr::<T>() == &x as *const T && t.as_mut_ptr::<T>() as *const T == &x, "pointer", || name.into());
        o.n(hash(&h));
    }
}
fn main() {
    let mut cx = Cx::new("C16");
    let mut o = Obs(3);
    macro_rules! raws { ($($t:ty),*) => { $( raw::<$t>(&mut cx, stringify!($t), &mut o); )* } }
    if std::env::args().nth(1).as_deref() != Some("enums") {
        raws!(u8, u64, u128, bool, (), Tok, ZTok, Z128, Al64, [Al16; 2], Padded, String, Vec<Tok>, Box<Tok>, Rc<u32>, &'static str, [u64; 0], Option<char>, (Tok, u8));
        cx.digests.push(("boxes".into(), o.0));
    }
    if std::env::args().nth(1).as_deref() != Some("boxes") {
        subjects::full(&mut Full(&mut cx));
        subjects::ord(&mut Ordered(&mut cx));
        subjects::all(&mut Bare(&mut cx));
    }
    for (_, h) in cx.digests.clone() {
        cx.observe(&h.to_le_bytes())
    }
    cx.finish()
}
