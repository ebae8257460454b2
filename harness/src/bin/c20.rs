//! C20: one word, made of the discriminant and the address
#![recursion_limit = "8192"]
use std::mem::{align_of, size_of};
use tbmon::prelude::*;
use tbmon::{discriminants, MAX_P, WIDTH};
tbmon::subjects!();

struct D<'a>(&'a mut Cx);
impl Go for D<'_> {
    fn go<S: Subject>(&mut self) {
        let cx = &mut *self.0;
        cx.case(S::NAME.into());
        let sizes = [size_of::<S::C>(), size_of::<TaggedBox<S::I>>()];
        cx.check(sizes == [8, 8], "size", || format!("of container and box: {:?}", sizes));
        let aligns = [align_of::<S::C>(), align_of::<TaggedBox<S::I>>()];
        cx.check(aligns == [align_of::<u64>(); 2], "alignment", || format!("of container and box: {:?}", aligns));
        cx.eval(format!("{} size", S::NAME).as_bytes());
        cx.max("most bytes of an enum", size_of::<S::I>() as u64);
        if sizes != [8, 8] {
            return;
        }
        for v in 0..S::n() {
            for mk in 0..MAKES {
                let mut r = Rng::new(cx.rng.u64());
                cx.case(format!("{}::{} make {}", S::NAME, S::VARIANTS[v], mk));
                let st = S::storage(v);
                let res = catch(|| {
                    let ((c, _, _), log) = mem::scope(|| make::<S>(v, &mut r, mk));
                    let w = word(&c);
                    let b = S::boxed(&c);
                    cx.check(w >> WIDTH == v as u64, "discriminant", || format!("the word is {:#x}, the variant {}", w, v));
                    cx.check(b.discriminant() as u64 == w >> WIDTH, "discriminant", || format!("the word is {:#x}, discriminant() {}", w, b.discriminant()));
                    let at = w & MAX_P;
                    cx.check(b.as_ptr::<u8>() as usize as u64 == at, "address", || format!("the word is {:#x}, as_ptr() {:?}", w, b.as_ptr::<u8>()));
                    cx.check(at != 0, "null", || format!("the word is {:#x}", w));
                    cx.check(at % st.align as u64 == 0, "misaligned", || format!("the word is {:#x}, the alignment {}", w, st.align));
                    if S::UNIT[v] {
                        cx.check(at % align_of::<S::I>() as u64 == 0, "misaligned", || format!("the word is {:#x}, the alignment of the enum {}", w, align_of::<S::I>()));
                    }
                    if st.max > 0 && !cfg!(any(mon_plain, miri)) {
                        cx.check(unsafe { mem::block_intact(at as usize) }, "no-block", || format!("no block at {:#x}", at));
                        // the block's address is one that the allocator has just returned
                        cx.check(log.iter().any(|e| e.addr as u64 == at), "no-block", || format!("{:#x} is not one of {:x?}", at, log.iter().map(|e| e.addr).collect::<Vec<_>>()));
                    }
                    // the container is its box, the box is its pointer, whichever way they are moved
                    let b = S::unbox(c);
                    cx.check(word(&b) == w, "unbox", || format!("{:#x} became {:#x}", w, word(&b)));
                    let c = S::wrap(b);
                    cx.check(word(&c) == w, "wrap", || format!("{:#x} became {:#x}", w, word(&c)));
                    let b = S::into_raw_and_back(v, S::unbox(c));
                    cx.check(word(&b) == w, "raw", || format!("{:#x} became {:#x}", w, word(&b)));
                    let p = TaggedPointer::new(at, b.discriminant());
                    cx.check(word(&p) == w && p.as_raw_u64() == w, "pointer", || format!("{:#x} became {:#x}", w, word(&p)));
                    let c = S::wrap(b);
                    drop(view::<S>(&c));
                    cx.check(word(&c) == w, "view", || format!("{:#x} became {:#x}", w, word(&c)));
                    cx.eval(format!("{} {} {} {}", S::NAME, v, mk, w).as_bytes());
                });
                if let Err(m) = res {
                    cx.violation("panic", m)
                }
            }
        }
        if tok::filling() {
            tok::reset()
        }
        cx.collect();
    }
}
#[allow(dead_code)]
struct Huge([u64; 1000]);
fn plain<T>(cx: &mut Cx, name: &str) {
    cx.case(name.into());
    cx.check(size_of::<TaggedBox<T>>() == 8 && align_of::<TaggedBox<T>>() == align_of::<u64>(), "size", || format!("{} bytes", size_of::<TaggedBox<T>>()));
    cx.eval(name.as_bytes());
}
enum E {}
fn any<T: Val>(cx: &mut Cx, name: &str) {
    let mut r = Rng::new(cx.rng.u64());
    for d in discriminants(&mut r, 30) {
        cx.case(format!("TaggedBox of a {} tagged {}", name, d));
        let b: TaggedBox<E> = TaggedBox::new(T::gen(&mut r), d as Discriminant);
        let at = b.as_ptr::<T>() as usize as u64;
        cx.check(word(&b) == at | d << WIDTH && at != 0 && at % align_of::<T>() as u64 == 0, "word", || format!("{:#x} at {:#x}", word(&b), at));
        unsafe { drop(TaggedBox::into_box::<T>(b)) };
        let b: TaggedBox<E> = TaggedBox::dangling::<T>(d as Discriminant);
        let at = b.as_ptr::<T>() as usize as u64;
        cx.check(word(&b) == at | d << WIDTH && at != 0 && at % align_of::<T>() as u64 == 0, "dangling", || format!("{:#x} at {:#x}", word(&b), at));
        cx.eval(format!("{} {}", name, d).as_bytes());
    }
}
fn main() {
    let mut cx = Cx::new("C20");
    cx.check(size_of::<TaggedPointer>() == 8 && align_of::<TaggedPointer>() == align_of::<u64>(), "size", || format!("a tagged pointer has {} bytes", size_of::<TaggedPointer>()));
    plain::<u8>(&mut cx, "TaggedBox<u8>");
    plain::<()>(&mut cx, "TaggedBox<()>");
    plain::<E>(&mut cx, "TaggedBox<E>");
    plain::<Huge>(&mut cx, "TaggedBox<Huge>");
    plain::<AlTop>(&mut cx, "TaggedBox<AlTop>");
    plain::<String>(&mut cx, "TaggedBox<String>");
    macro_rules! objects { ($($t:ty),*) => { $( any::<$t>(&mut cx, stringify!($t)); )* } }
    objects!(u8, u16, u64, u128, String, (), Z2, Z128, ZTop, [u64; 0], Al64, AlTop, Tok, ZTok64, Big<300>);
    subjects::all(&mut D(&mut cx));
    cx.finish()
}
