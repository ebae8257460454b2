//! Enums with variants that can't be made: those have discriminants, and nothing else
#![allow(unreachable_code, unused_variables)]
use crate::prelude::*;
use std::convert::Infallible;
use std::fmt::Debug;

macro_rules! never {
    ($($m:ident: [$($variants:tt)*], [$($v:expr => $d:expr),*];)*) => {$(
        mod $m {
            use super::*;
            tagged_box! {
                #[derive(Debug, Clone, PartialEq, PartialOrd)]
                pub struct C, pub enum I { $($variants)* }
            }
            pub fn all() -> Vec<(I, u64)> {
                #[allow(unused_imports)]
                use I::*;
                vec![$(($v, $d)),*]
            }
        }
    )*};
}
never! {
    last: [Never(Infallible), U,], [U => 1];
    first: [U, Never(Infallible),], [U => 0];
    middle: [A(Infallible), B { n: Infallible, x: u64 }, P(()), D(Infallible, u8),], [P(()) => 2];
    zero: [A(Infallible, Infallible), B { n: Infallible, }, E(),], [E() => 2];
    named: [A(Infallible), N { x: (), y: () },], [N { x: (), y: () } => 1];
    several: [A(Infallible), U, B(Infallible, String), T(u8), N { x: u16, }, W,], [U => 1, T(7) => 3, N { x: 300 } => 4, W => 5];
    kept: [A(Infallible), S(String), V { v: Vec<u8> },], [S("held".into()) => 1, V { v: vec![1, 2, 3] } => 2];
}

fn one<C, I>(cx: &mut Cx, which: &[&str], name: &str, vals: &dyn Fn() -> Vec<(I, u64)>)
where
    C: TaggableContainer<Inner = I> + From<I> + Clone + Debug + PartialEq + PartialOrd,
    I: TaggableInner + Clone + Debug + PartialEq + PartialOrd,
{
    let say = |cx: &mut Cx, ok: bool, what: &str, detail: &dyn Fn() -> String| {
        if which.iter().any(|w| what.ends_with(w)) {
            cx.check(ok, what, detail);
        }
    };
    let text = |i: &I| format!("{:?}", i);
    for (k, (i, d)) in vals().into_iter().enumerate() {
        cx.case(format!("enums with variants that can't be made: {}::{}", name, text(&i)));
        let res = catch(|| {
            let b = i.clone().into_tagged_box();
            say(cx, b.discriminant() as u64 == d, "never:made", &|| b.discriminant().to_string());
            let c = b.clone();
            say(cx, c.discriminant() as u64 == d, "never:cloned box", &|| c.discriminant().to_string());
            let c2 = C::from(i.clone()).clone();
            say(cx, word(&c2) >> POINTER_WIDTH == d, "never:cloned container", &|| format!("{:#x}", word(&c2)));
            say(cx, c2.clone().into_inner() == i && c2.clone().into_inner() == i, "never:into_inner", &|| text(&i));
            let mut c3 = C::from(vals().pop().unwrap().0);
            c3.clone_from(&c2);
            say(cx, word(&c3) >> POINTER_WIDTH == d && c3.into_inner() == i, "never:clone_from", &|| text(&i));
            let mut seen = 0;
            unsafe {
                I::ref_from_tagged_box(&b, |v| {
                    seen += 1;
                    say(cx, *v == i, "never:view", &|| text(v));
                })
            }
            say(cx, seen == 1, "never:view", &|| format!("{} callbacks", seen));
            say(cx, format!("{:?}", b) == text(&i), "never:debug", &|| format!("{:?}", b));
            for (l, (j, _)) in vals().into_iter().enumerate() {
                let e = C::from(j.clone());
                say(cx, (c2 == e, c2 != e) == (i == j, i != j) && c2.partial_cmp(&e) == i.partial_cmp(&j), "never:compared", &|| format!("{} and {}", text(&i), text(&j)));
                drop(e.into_inner());
                cx.eval(format!("{}/{}/{}", name, k, l).as_bytes());
            }
            let v = I::from_tagged_box(c);
            say(cx, v == i, "never:taken out", &|| text(&v));
            say(cx, c2.into_inner() == I::from_tagged_box(b), "never:taken out", &|| text(&i));
        });
        if let Err(m) = res {
            cx.violation("never:panic", m)
        }
        cx.count("variants beside such that can't be made", 1);
    }
}
/// `which` of the observations are judged, on enums some or all but one of whose variants can't be made, many of them of size zero
pub fn all(cx: &mut Cx, which: &[&str]) {
    macro_rules! go { ($($m:ident)*) => { $(one::<$m::C, $m::I>(cx, which, stringify!($m), &$m::all);)* } }
    go!(last first named);
    if tagged_box::discriminant::MAX_DISCRIMINANT >= 3 {
        go!(middle zero kept);
    }
    if tagged_box::discriminant::MAX_DISCRIMINANT >= 5 {
        go!(several);
    }
}
