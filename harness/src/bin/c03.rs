//! C03: what is out of range is refused
#![recursion_limit = "8192"]
use std::hint::black_box;
use tbmon::prelude::*;
use tbmon::{addresses, discriminants, MAX_D, MAX_P};
tbmon::subjects!();

/// Values that the discriminant's type holds but the width doesn't
fn beyond(r: &mut Rng) -> Vec<u64> {
    let top = Discriminant::MAX as u64;
    let mut v: Vec<u64> = if top <= 255 { (MAX_D + 1..=top).collect() } else { vec![] };
    for b in 0..16 {
        v.push(1 << b);
        v.push(MAX_D + (1 << b));
        v.push(MAX_D + 1 + (1 << b));
    }
    v.push(top);
    for _ in 0..60 {
        v.push(MAX_D + 1 + r.below(top.max(MAX_D + 1) - MAX_D));
    }
    v.retain(|d| *d > MAX_D && *d <= top);
    v.sort();
    v.dedup();
    v
}
fn far(r: &mut Rng) -> Vec<u64> {
    let mut v = vec![MAX_P + 1, MAX_P + 2, u64::MAX, u64::MAX - 1, MAX_P * 2 + 1, i64::MIN as u64, MAX_P + 1 | 0x1000];
    for b in tbmon::WIDTH..64 {
        v.push(1 << b);
        v.push(1 << b | r.u64() & MAX_P);
        v.push(!0 << b);
    }
    for _ in 0..100 {
        v.push(r.u64() | (1 + r.below(MAX_D)) << tbmon::WIDTH);
    }
    v.retain(|p| *p > MAX_P);
    v
}
fn refused<R: std::fmt::Debug>(cx: &mut Cx, how: &str, what: impl Fn() -> String, f: impl FnOnce() -> R) {
    cx.case(format!("{} {}", how, what()));
    let r = catch(f);
    cx.check(r.is_err(), how, || format!("{} was accepted: {:?}", what(), r));
    cx.eval(format!("{} {}", how, what()).as_bytes());
    cx.count("refusals", 1);
}
fn accepted(cx: &mut Cx, how: &str, what: impl Fn() -> String, f: impl FnOnce() -> bool) {
    cx.case(format!("{} {}", how, what()));
    match catch(f) {
        Ok(ok) => cx.check(ok, &format!("{}:wrong", how), || format!("{} gave something else", what())),
        Err(m) => cx.check(false, &format!("{}:refused", how), || format!("{}: {}", what(), m)),
    };
    cx.eval(format!("{} {}", how, what()).as_bytes());
    cx.count("acceptances", 1);
}
enum E {}
fn w(b: TaggedBox<E>) -> u64 {
    word(&b)
}
fn boxes<T: Val>(cx: &mut Cx, name: &str, good: &[u64], bad: &[u64], far: &[u64]) {
    let mut r = Rng::new(cx.rng.u64());
    for d in bad {
        let dd = black_box(*d as Discriminant);
        let s = r.u64();
        let c0 = tok::census();
        refused(cx, "TaggedBox::new", || format!("{} with discriminant {}", name, d), || w(TaggedBox::new(T::gen(&mut Rng::new(s)), dd)));
        let c1 = tok::census();
        cx.check(c1.double == c0.double && c1.garbage == c0.garbage, "refused:double-drop", || "the refused value was destroyed twice".into());
        refused(cx, "TaggedBox::dangling", || format!("{} with discriminant {}", name, d), || w(TaggedBox::dangling::<T>(dd)));
        refused(cx, "TaggedPointer::dangling", || format!("{} with discriminant {}", name, d), || TaggedPointer::dangling::<T>(dd));
        let mut x = T::gen(&mut r);
        let p = &mut x as *mut T;
        refused(cx, "TaggedBox::from_raw", || format!("{} with discriminant {}", name, d), || w(unsafe { TaggedBox::from_raw(p, dd) }));
        refused(cx, "TaggedPointer::new", || format!("{} with discriminant {}", name, d), || TaggedPointer::new(p as usize as u64, dd));
    }
    for d in good {
        let dd = black_box(*d as Discriminant);
        accepted(cx, "TaggedBox::new", || format!("{} with discriminant {}", name, d), || {
            let b: TaggedBox<E> = TaggedBox::new(T::gen(&mut r), dd);
            let ok = b.discriminant() == dd;
            unsafe { drop(TaggedBox::into_box::<T>(b)) };
            ok
        });
        accepted(cx, "TaggedBox::new_unchecked", || format!("{} with discriminant {}", name, d), || {
            let b: TaggedBox<E> = unsafe { TaggedBox::new_unchecked(T::gen(&mut r), dd) };
            let ok = b.discriminant() == dd;
            unsafe { drop(TaggedBox::into_box::<T>(b)) };
            ok
        });
        accepted(cx, "TaggedBox::dangling", || format!("{} with discriminant {}", name, d), || TaggedBox::<E>::dangling::<T>(dd).discriminant() == dd);
        accepted(cx, "TaggedPointer::dangling", || format!("{} with discriminant {}", name, d), || TaggedPointer::dangling::<T>(dd).discriminant() == dd);
        let mut x = T::gen(&mut r);
        let p = &mut x as *mut T;
        accepted(cx, "TaggedBox::from_raw", || format!("{} with discriminant {}", name, d), || unsafe { TaggedBox::<E>::from_raw(p, dd).discriminant() == dd });
    }
    if usize::BITS == 64 {
        for p in far.iter().take(40) {
            let d = *r.pick(good);
            refused(cx, "TaggedBox::from_raw", || format!("{} at {:#x} with discriminant {}", name, p, d), || w(unsafe { TaggedBox::from_raw(*p as usize as *mut T, d as Discriminant) }));
        }
    }
}

/// Enums of all sizes: each variant either comes back or is refused with a panic
struct D<'a>(&'a mut Cx);
impl GoFull for D<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: std::fmt::Debug + std::fmt::Display + Clone + PartialEq + PartialOrd,
        S::C: std::fmt::Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        let mut r = Rng::new(cx.rng.u64());
        for v in 0..S::n() {
            for mk in 0..MAKES {
                for k in 0..2 {
                    let out = v as u64 > MAX_D;
                    cx.case(format!("{}::{} ({} of {}), make {} {}", S::NAME, S::VARIANTS[v], v, S::n(), mk, k));
                    let res = catch(|| {
                        let (c, e, _) = make::<S>(v, &mut r, mk);
                        (view::<S>(&c).1, take::<S>(v, c.clone(), 0), take::<S>(v, c, 1), e)
                    });
                    match res {
                        Err(m) => {
                            cx.check(out, "variant:refused", || m);
                            cx.count("variants refused", 1);
                        }
                        Ok((a, b, c, e)) => {
                            // beyond the limit there is no discriminant left that could be its own
                            cx.check(a.as_ref() == Some(&e) && S::enc(&b) == e && S::enc(&c) == e, "variant:became-another", || {
                                format!("{} came back as {:?}, {} and {}", show(&e), a.as_ref().map(show), show(&S::enc(&b)), show(&S::enc(&c)))
                            });
                            cx.count("variants that came back", 1);
                        }
                    }
                    cx.eval(format!("{} {} {}", S::NAME, v, mk).as_bytes());
                }
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.collect();
    }
}
fn main() {
    let mut cx = Cx::new("C03");
    {
        let cx = &mut cx;
        let mut r = Rng::new(cx.rng.u64());
        let (good, bad, far) = (discriminants(&mut r, 40), beyond(&mut r), far(&mut r));
        cx.count("discriminants beyond the limit", bad.len() as u64);
        cx.count("addresses beyond the limit", far.len() as u64);
        let near = addresses(&mut r, 50);
        for p in &far {
            for d in good.iter().take(12).chain(bad.iter().take(6)) {
                refused(cx, "TaggedPointer::new", || format!("({:#x}, {})", p, d), || TaggedPointer::new(black_box(*p), black_box(*d as Discriminant)));
            }
        }
        for p in &near {
            for d in bad.iter().take(30) {
                refused(cx, "TaggedPointer::new", || format!("({:#x}, {})", p, d), || TaggedPointer::new(black_box(*p), black_box(*d as Discriminant)));
            }
            for d in [0, MAX_D] {
                accepted(cx, "TaggedPointer::new", || format!("({:#x}, {})", p, d), || TaggedPointer::new(black_box(*p), black_box(d as Discriminant)).as_u64() == *p);
            }
        }
        macro_rules! objects { ($($t:ty),*) => { $( boxes::<$t>(cx, stringify!($t), &good, &bad, &far); )* } }
        objects!(u8, u64, String, (), Z128, [u64; 0], ZTok, Tok, Al64, Big<300>);
        if tok::filling() {
            tok::reset()
        }
    }
    subjects::full(&mut D(&mut cx));
    cx.finish()
}
