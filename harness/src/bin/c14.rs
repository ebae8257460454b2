//! C14: addresses print as addresses
#![recursion_limit = "4096"]
use tbmon::prelude::*;
use tbmon::{addresses, discriminants, MAX_D};
tbmon::subjects!();

type W<'a> = &'a dyn Fn(usize) -> (bool, String);
fn same(cx: &mut Cx, what: &str, f: &str, a: W, b: W, lim: usize) {
    let (x, y) = (a(usize::MAX), b(usize::MAX));
    cx.check(x == y, what, || format!("{} of the plain one gives {:?}, of the tagged one {:?}", f, x, y));
    cx.eval(format!("{} {} {}", what, f, y.1).as_bytes());
    if !x.1.is_empty() {
        let n = lim % x.1.len();
        let (x, y) = (a(n), b(n));
        cx.check(x == y, &format!("{}:failing-writer", what), || format!("{} into a writer for {} bytes: {:?} and {:?}", f, n, x, y));
    }
}
macro_rules! each_pointer {
    ($a:expr, $b:expr, $f:expr) => {
        tbmon::each_format!($a, $b, ["{:p}", "{:#p}", "{:20p}", "{:<30p}", "{:^24p}", "{:>22p}", "{:*^40p}", "{:020p}", "{:#030p}"], $f)
    };
}
fn options(cx: &mut Cx, what: &str, p: u64, b: &dyn Fn(usize, usize, usize) -> String, r: &mut Rng) {
    let (w, k) = (r.idx(80), r.idx(4));
    let x = match k { 0 => format!("{:w$x}", p), 1 => format!("{:#0w$X}", p), 2 => format!("{:^+w$o}", p), _ => format!("{:<#w$b}", p) };
    let y = b(k, w, 0);
    cx.check(x == y, what, || format!("with width {} the plain one gives {:?}, the tagged one {:?}", w, x, y));
    cx.eval(format!("{} {} {} {}", what, k, w, y).as_bytes());
}
macro_rules! opts {
    ($t:expr) => { &|k, w, _| match k { 0 => format!("{:w$x}", $t), 1 => format!("{:#0w$X}", $t), 2 => format!("{:^+w$o}", $t), _ => format!("{:<#w$b}", $t) } };
}
/// The number after `name: ` in a Debug form, however it is written
fn number(s: &str, name: &str) -> Option<u64> {
    let at = s.find(&format!("{}: ", name))? + name.len() + 2;
    let t: String = s[at..].chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    match t.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => t.parse().ok(),
    }
}
fn pointer(cx: &mut Cx, p: u64, d: u64, r: &mut Rng) {
    cx.case(format!("a pointer to {:#x} tagged {}", p, d));
    let t = TaggedPointer::new(p, d as Discriminant);
    let lim = r.idx(100);
    tbmon::each_numeric!(&p, &t, |f, a: W, b: W| same(cx, "pointer", f, a, b, lim));
    let plain = p as usize as *const ();
    each_pointer!(plain, t, |f, a: W, b: W| same(cx, "pointer:p", f, a, b, lim));
    options(cx, "pointer", p, opts!(t), r);
    debug_form(cx, t, p, d);
}
fn debug_form(cx: &mut Cx, t: TaggedPointer, p: u64, d: u64) {
    for s in [format!("{:?}", t), format!("{:#?}", t)] {
        let got = (number(&s, "raw"), number(&s, "ptr"), number(&s, "discriminant"));
        let want = (Some(p | d << tbmon::WIDTH), Some(p), Some(d));
        cx.check(got == want, "debug", || format!("of ({:#x}, {}) is {}", p, d, s));
        cx.check(s.starts_with("TaggedPointer"), "debug", || format!("is {}", s));
        cx.eval(s.as_bytes());
    }
}
struct D<'a>(&'a mut Cx);
impl Go for D<'_> {
    fn go<S: Subject>(&mut self) {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            let mut r = Rng::new(cx.rng.u64());
            let mk = r.idx(MAKES);
            let (c, e, _) = make::<S>(v, &mut r, mk);
            let b = S::boxed(&c);
            cx.case(format!("{}::{}", S::NAME, S::VARIANTS[v]));
            let p = word(b) & tbmon::MAX_P;
            cx.check(b.as_ptr::<u8>() as usize as u64 == p, "address", || format!("as_ptr gives another address than {:#x}", p));
            let lim = r.idx(100);
            tbmon::each_numeric!(&p, b, |f, x: W, y: W| same(cx, "box", f, x, y, lim));
            options(cx, "box", p, opts!(b), &mut r);
            cx.check(word(b) & tbmon::MAX_P == p && view::<S>(&c).1 == Some(e), "changed", || "formatting changed the box".into());
        }
        if tok::filling() {
            tok::reset()
        }
    }
}
fn main() {
    let mut cx = Cx::new("C14");
    let mut r = Rng::new(cx.rng.u64());
    let (few, some) = if cfg!(miri) { (3, 5) } else { (cx.n(16), cx.n(100)) };
    let mut ps = addresses(&mut r, some);
    if std::env::args().nth(1).as_deref() == Some("pointers") {
        // (for the interpreters; whatever the size of an address, any number within the limit is accepted as one)
        for _ in 0..40 {
            let (p, d) = (*r.pick(&ps), r.below(MAX_D + 1));
            if p <= usize::MAX as u64 {
                debug_form(&mut cx, TaggedPointer::new(p, d as Discriminant), p, d);
            }
            options(&mut cx, "pointer", p, opts!(TaggedPointer::new(p, d as Discriminant)), &mut r.clone());
        }
        return cx.finish();
    }
    if usize::BITS == 32 {
        // there are no other addresses
        ps.retain(|p| *p <= u32::MAX as u64);
    }
    if cfg!(miri) {
        ps = (0..12).map(|_| *r.pick(&ps)).collect();
    }
    for d in discriminants(&mut r, few) {
        for p in &ps {
            if cfg!(miri) || *p < 300 || r.chance(4) {
                pointer(&mut cx, *p, d, &mut r)
            }
        }
    }
    for d in [0, 1, MAX_D] {
        pointer(&mut cx, tbmon::MAX_P & usize::MAX as u64, d, &mut r)
    }
    // boxes of any content, under any discriminant
    enum E {}
    impl TaggableInner for E {
        fn into_tagged_box(self) -> TaggedBox<E> { match self {} }
        fn from_tagged_box(_: TaggedBox<E>) -> E { panic!("there is none") }
        unsafe fn ref_from_tagged_box<F: FnOnce(&E)>(_: &TaggedBox<E>, _: F) { panic!("there is none") }
    }
    for d in discriminants(&mut r, few) {
        for p in [8u64, 0x1000, 0xdead_beef & !7, tbmon::MAX_P & usize::MAX as u64 & !7] {
            cx.case(format!("a box at {:#x} tagged {}", p, d));
            let b: TaggedBox<E> = unsafe { TaggedBox::from_raw(p as usize as *mut u64, d as Discriminant) };
            let lim = r.idx(100);
            tbmon::each_numeric!(&p, &b, |f, x: W, y: W| same(&mut cx, "box", f, x, y, lim));
            options(&mut cx, "box", p, opts!(b), &mut r);
        }
    }
    subjects::all(&mut D(&mut cx));
    cx.finish()
}
