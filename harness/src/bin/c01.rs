//! C01: what goes into a tagged pointer comes out of it
use std::hint::black_box;
use tbmon::prelude::*;
use tbmon::{addresses, discriminants, BITS, MAX_D, MAX_P, WIDTH};

fn all(cx: &mut Cx, how: &str, t: TaggedPointer, p: u64, d: u64) {
    let w = p | (d as u128 * (1u128 << WIDTH)) as u64;
    let at = || format!("({:#x}, {})", p, d);
    cx.check(t.as_u64() == p, "as_u64", || format!("{} {} gives {:#x}", how, at(), t.as_u64()));
    cx.check(t.discriminant() as u64 == d, "discriminant", || format!("{} {} gives {}", how, at(), t.discriminant()));
    cx.check(t.as_raw_u64() == w, "as_raw_u64", || format!("{} {} gives {:#x} instead of {:#x}", how, at(), t.as_raw_u64(), w));
    cx.check(word(&t) == w, "word", || format!("{} {} holds {:#x} instead of {:#x}", how, at(), word(&t), w));
    let a = p as usize;
    let ps = [t.as_ptr::<u8>() as usize, t.as_ptr::<()>() as usize, t.as_ptr::<Al4096>() as usize, t.as_mut_ptr::<u64>() as usize, t.as_mut_ptr::<Z128>() as usize];
    cx.check(ps.iter().all(|x| *x == a), "as_ptr", || format!("{} {} gives {:x?}", how, at(), ps));
    if a != 0 {
        // something without size is anywhere
        let mut t = t;
        let rs = unsafe { [t.as_ref::<()>() as *const () as usize, t.as_ref::<[u8; 0]>() as *const _ as usize, t.as_mut_ref::<()>() as *mut () as usize] };
        cx.check(rs.iter().all(|x| *x == a), "as_ref", || format!("{} {} refers to {:x?}", how, at(), rs));
    }
    // copies and clones
    let (u, v) = (t, t.clone());
    cx.check(word(&u) == w && word(&v) == w && u == t && v == t, "copy", at);
    cx.eval_hash(w);
}
fn statics(cx: &mut Cx, w: u64) {
    let (p, d) = (TaggedPointer::strip_discriminant(black_box(w)), TaggedPointer::fetch_discriminant(black_box(w)));
    cx.check(p == w & MAX_P, "strip", || format!("of {:#x} gives {:#x}", w, p));
    cx.check(d as u64 == w >> WIDTH, "fetch", || format!("of {:#x} gives {:#x}", w, d));
    cx.check(TaggedPointer::store_discriminant(p, d) == w, "store", || format!("the parts of {:#x} make {:#x}", w, TaggedPointer::store_discriminant(p, d)));
    let t = TaggedPointer::new(p, d);
    cx.check(t.as_raw_u64() == w, "recombine", || format!("the parts of {:#x} make the pointer {:#x}", w, t.as_raw_u64()));
    cx.eval_hash(w ^ 0x77);
}
fn object<T: Val>(cx: &mut Cx, name: &str) {
    let mut r = Rng::new(cx.rng.u64());
    let mut ds = discriminants(&mut r, 20);
    thin(&mut ds, 4, &mut r);
    for d in ds {
        cx.case(format!("a pointer to a {} tagged {}", name, d));
        let s = r.u64();
        let enc = |t: &T| {
            let mut o = vec![];
            t.enc(&mut o);
            o
        };
        let mut x = T::gen(&mut Rng::new(s));
        let e = enc(&x);
        let raw = &mut x as *mut T;
        let mut t = TaggedPointer::new(raw as usize as u64, d as Discriminant);
        all(cx, "new", t, raw as usize as u64, d);
        unsafe {
            cx.check(enc(t.as_ref::<T>()) == e, "as_ref", || "gives another value".into());
            cx.check(t.as_ref::<T>() as *const T as usize == raw as usize, "as_ref", || "refers elsewhere".into());
            cx.check(t.as_mut_ref::<T>() as *mut T as usize == raw as usize, "as_mut_ref", || "refers elsewhere".into());
            let y = T::gen(&mut r);
            let f = enc(&y);
            *t.as_mut_ref::<T>() = y;
            cx.check(enc(&*raw) == f && enc(&*t.as_ptr::<T>()) == f, "as_mut_ref", || "a write through it is not seen".into());
            let y = T::gen(&mut r);
            let f = enc(&y);
            *t.as_mut_ptr::<T>() = y;
            cx.check(enc(&*raw) == f && enc(t.as_ref::<T>()) == f, "as_mut_ptr", || "a write through it is not seen".into());
            cx.check(t.discriminant() as u64 == d && t.as_u64() == raw as usize as u64, "write", || "changed the pointer".into());
        }
        cx.eval(format!("{} {} {}", name, d, s).as_bytes());
    }
}
/// Under Miri, a few will have to do (others with another seed)
fn thin(v: &mut Vec<u64>, n: usize, r: &mut Rng) {
    while cfg!(miri) && v.len() > n {
        let k = r.below(v.len() as u64) as usize;
        v.swap_remove(k);
    }
}
static STATIC: u64 = 5;
fn main() {
    let mut cx = Cx::new("C01");
    let cx = &mut cx;
    let mut r = Rng::new(cx.rng.u64());
    let small = cfg!(miri);
    let mut ds = discriminants(&mut r, if small { 20 } else { cx.n(64) });
    let mut ps = addresses(&mut r, if small { 10 } else { cx.n(600) });
    thin(&mut ds, 10, &mut r);
    thin(&mut ps, 40, &mut r);
    // addresses of things
    let (b, l) = (Box::new(5u8), 7u8);
    ps.extend_from_slice(&[&*b as *const u8 as usize as u64, &l as *const u8 as usize as u64, &STATIC as *const u64 as usize as u64, main as fn() as usize as u64]);
    cx.case("pointers made of addresses and discriminants".into());
    for p in &ps {
        for d in &ds {
            let t = catch(|| TaggedPointer::new(black_box(*p), black_box(*d as Discriminant)));
            match t {
                Ok(t) => all(cx, "new", t, *p, *d),
                Err(m) => cx.violation("refused", format!("({:#x}, {}): {}", p, d, m)),
            }
            let w = TaggedPointer::store_discriminant(*p, *d as Discriminant);
            cx.check(w == p | d << WIDTH, "store", || format!("of ({:#x}, {}) gives {:#x}", p, d, w));
            statics(cx, w);
        }
    }
    if !small {
        // every discriminant at a few addresses
        for p in [0, 8, MAX_P, 0x7fff_ffff_fff0 & MAX_P] {
            for d in 0..=MAX_D {
                let t = TaggedPointer::new(black_box(p), black_box(d as Discriminant));
                if t.as_u64() != p || t.discriminant() as u64 != d || t.as_raw_u64() != p | d << WIDTH {
                    all(cx, "new", t, p, d);
                }
                cx.eval_hash(p | d << WIDTH);
            }
        }
    }
    cx.case("arbitrary words".into());
    for b in 0..64 {
        if small && b % 4 != 3 && b != WIDTH as u64 {
            continue;
        }
        for w in [1u64 << b, !(1 << b), (1 << b) - 1, !0 << b] {
            statics(cx, w);
        }
    }
    for _ in 0..if small { 50 } else { cx.n(40_000) } {
        let w = r.edgy() ^ r.u64() & r.u64();
        statics(cx, w);
    }
    macro_rules! objects { ($($t:ty),*) => { $( object::<$t>(cx, stringify!($t)); )* } }
    objects!(u8, u16, u32, u64, u128, usize, bool, char, f64, String, Vec<u16>, Box<u64>, [u8; 3], (u8, u64), Al2, Al16, Al64, Al256, Z2, Z128, (), Tok, Big<100>);
    let _ = BITS;
    cx.count("addresses", ps.len() as u64);
    cx.count("discriminants", ds.len() as u64);
    std::mem::replace(cx, Cx::new("C01")).finish()
}
