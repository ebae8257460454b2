//! C06: what every operation allocates and frees
#![recursion_limit = "4096"]
use std::fmt::{Debug, Display};
use tbmon::drive::*;
use tbmon::mem::Ev;
use tbmon::prelude::*;
tbmon::subjects!();

fn shapes(e: &[Ev]) -> Vec<(bool, usize, usize)> {
    e.iter().map(|e| e.shape()).collect()
}
/// Allocator events without pairs that cancel out within the operation (moves through temporaries)
fn own_block(s: &Storage, e: &[Ev]) -> bool {
    if s.max == 0 || (s.min == 0 && e.is_empty()) {
        e.is_empty()
    } else {
        e.len() == 1 && e[0].alloc && e[0].size >= s.min && e[0].size <= s.max && e[0].align == s.align
    }
}

struct Basic<'a>(&'a mut Cx);
impl Go for Basic<'_> {
    fn go<S: Subject>(&mut self) {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            let st = S::storage(v);
            for k in 0..cx.n(10) {
                let mut r = Rng::new(cx.rng.u64());
                cx.case(format!("{}::{} {:?} value={}", S::NAME, S::VARIANTS[v], st, k));
                let res = catch(|| {
                    // boxing
                    let i = S::gen(v, &mut r);
                    let how = r.below(3);
                    let (c, ev) = match how {
                        0 => scope(|| S::C::from(i)),
                        1 => scope(|| S::wrap(i.into_tagged_box())),
                        _ => {
                            let (x, ev) = scope(|| i.into_tagged_box());
                            (S::wrap(x), ev)
                        }
                    };
                    let ok = own_block(&st, &ev);
                    cx.check(ok, "boxing", || format!("way {}: expected one block of {:?}, saw {:?}", how, st, ev));
                    let blk = ev.first().copied();
                    if let (true, Some(b)) = (ok, blk) {
                        cx.check(addr::<S>(&c) == b.addr, "boxing:address", || format!("the box points to {:x}, the block is at {:x}", addr::<S>(&c), b.addr));
                    }
                    // reading
                    let (_, ev) = scope(|| {
                        let b = S::boxed(&c);
                        (b.discriminant(), b.as_ptr::<u8>(), word(&c))
                    });
                    cx.check(ev.is_empty(), "accessors", || format!("{:?}", ev));
                    let (_, ev) = scope(|| unsafe { S::I::ref_from_tagged_box(S::boxed(&c), |_| ()) });
                    cx.check(ev.is_empty(), "view", || format!("{:?}", ev));
                    let (_, ev) = scope(|| unsafe { S::I::ref_from_tagged_box(S::boxed(&c), |_| S::I::ref_from_tagged_box(S::boxed(&c), |_| ())) });
                    cx.check(ev.is_empty(), "nested view", || format!("{:?}", ev));
                    // conversions that keep the block
                    let a0 = addr::<S>(&c);
                    let (c, ev) = scope(|| S::wrap(S::into_raw_and_back(v, S::unbox(c))));
                    cx.check(ev.is_empty() && addr::<S>(&c) == a0, "raw round trip", || format!("{:?}", ev));
                    match r.below(4) {
                        // the container is discarded
                        0 => {
                            let t = view_toks::<S>(&c);
                            let z0 = tok::census();
                            let (_, ev) = scope(move || drop(c));
                            let z1 = tok::census();
                            let none = ev.is_empty() && z0 == z1;
                            if none && (blk.is_some() || !t.is_empty()) {
                                cx.violation("discard-releases-nothing", format!("the block {:?} is not freed and its contents are not destroyed", blk));
                            } else if let Some(b) = blk {
                                cx.check(ev.iter().filter(|e| **e == Ev { alloc: false, ..b }).count() == 1 && t.iter().all(|t| !tok::alive(*t)), "discard", || format!("block {:?}, saw {:?}", b, ev));
                            }
                        }
                        // by way of Box
                        1 if S::peek(v, S::boxed(&c)).is_some() => {
                            let b = S::unbox(c);
                            let (_, ev) = scope(|| S::into_box_and_drop(v, b));
                            if let Some(b) = blk {
                                let frees = ev.iter().filter(|e| **e == Ev { alloc: false, ..b }).count();
                                cx.check(frees == 1, "into_box", || format!("block {:?}, saw {:?}", b, ev));
                            }
                            cx.count("blocks freed by way of Box", 1);
                        }
                        // the value is taken out
                        _ => {
                            let tk = r.below(2);
                            let b0 = S::boxed(&c).discriminant();
                            let (i, ev) = if tk == 0 {
                                scope(|| c.into_inner())
                            } else {
                                let b = S::unbox(c);
                                scope(|| S::I::from_tagged_box(b))
                            };
                            let what = if tk == 0 { "into_inner" } else { "from_tagged_box" };
                            match blk {
                                None => {
                                    cx.check(ev.is_empty(), what, || format!("no block, but {:?}", ev));
                                }
                                Some(_) if ev.is_empty() => cx.violation("taking-out-frees-nothing", format!("{}: the block {:?} is not freed", what, blk)),
                                Some(b) => {
                                    cx.check(ev.len() == 1 && ev[0] == Ev { alloc: false, ..b }, what, || format!("block {:?} (discriminant {}), saw {:?}", b, b0, ev));
                                }
                            }
                            drop(i);
                        }
                    }
                    blk
                });
                match res {
                    Err(m) => cx.violation("panic", m),
                    Ok(b) => {
                        cx.count(if b.is_some() { "blocks" } else { "boxes without a block" }, 1);
                        cx.eval(format!("{}/{}/{}", S::NAME, v, r.0).as_bytes());
                    }
                }
            }
            // from the payload: one block, as from the variant
            let mut r = Rng::new(cx.rng.u64());
            cx.case(format!("{}::{} from payload", S::NAME, S::VARIANTS[v]));
            let res = catch(|| {
                let l0 = mem::live();
                let c = S::from_payload(v, &mut r.clone());
                let l1 = mem::live();
                // the same number of blocks as building the variant and boxing it
                let m0 = mem::live();
                let i = S::gen(v, &mut r);
                let d = S::C::from(i);
                let m1 = mem::live();
                let enc = c.as_ref().map_or(0, |(_, e)| (e.1.capacity() > 0) as i64);
                if c.is_some() {
                    cx.check(l1.0 - l0.0 - enc == m1.0 - m0.0, "payload", || format!("{} blocks from the payload, {} from the variant", l1.0 - l0.0 - enc, m1.0 - m0.0));
                }
                drop(d);
            });
            if let Err(m) = res {
                cx.violation("panic", m);
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.count("enums", 1);
        cx.collect();
    }
}

struct Full<'a>(&'a mut Cx);
impl GoFull for Full<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            let st = S::storage(v);
            for k in 0..cx.n(6) {
                let mut r = Rng::new(cx.rng.u64());
                cx.case(format!("{}::{} {:?} operations, value={}", S::NAME, S::VARIANTS[v], st, k));
                let res = catch(|| {
                    let mut r2 = r.clone();
                    let (i, j) = (S::gen(v, &mut r), S::gen(r.clone().idx(S::n()), &mut r));
                    let (c, d) = (S::C::from(S::gen(v, &mut r2)), S::C::from(S::gen(r2.clone().idx(S::n()), &mut r2)));
                    // each operation on boxes costs what it costs on the enums themselves
                    let mut same = |what: &str, a: Vec<Ev>, b: Vec<Ev>| {
                        cx.check(shapes(&a) == shapes(&b), what, || format!("boxes {:?}, enums {:?}", a, b));
                    };
                    same("eq", scope(|| c == d).1, scope(|| i == j).1);
                    same("eq box", scope(|| S::boxed(&c) == S::boxed(&d)).1, scope(|| i == j).1);
                    same("partial_cmp", scope(|| c.partial_cmp(&d)).1, scope(|| i.partial_cmp(&j)).1);
                    same("debug", scope(|| sink(S::boxed(&c))).1, scope(|| sink(&i)).1);
                    same("debug container", scope(|| sink(&c)).1, scope(|| sink(&i)).1);
                    same("display", scope(|| sink_display(S::boxed(&c))).1, scope(|| sink_display(&i)).1);
                    let (_, ev) = scope(|| format_args!("{:x}{:o}{:b}{:X}", S::boxed(&c), S::boxed(&c), S::boxed(&c), S::boxed(&c)).as_str().is_some());
                    cx.check(ev.is_empty(), "hex", || format!("{:?}", ev));
                    // a clone: what the enum's clone allocates and one block
                    let (i2, want) = scope(|| i.clone());
                    let (b2, got) = scope(|| S::boxed(&c).clone());
                    let own: Vec<Ev> = {
                        let mut w = shapes(&want);
                        got.iter().filter(|e| if let Some(p) = w.iter().position(|x| *x == e.shape()) { w.remove(p); false } else { true }).copied().collect()
                    };
                    // (the block may look like one of the enum's own, so count both ways)
                    let expect = want.len() + (st.min > 0) as usize;
                    cx.check(got.len() == expect, "clone:count", || format!("boxes {:?}, enums {:?}", got, want));
                    if got.len() == expect && st.min > 0 {
                        cx.check(own.len() == 1 && own_block(&st, &own), "clone:block", || format!("block {:?}, saw {:?} (the enum's own clone {:?})", st, got, want));
                    }
                    drop(i2);
                    let _ = b2;
                });
                if let Err(m) = res {
                    cx.violation("panic", m);
                }
                cx.eval(format!("{}/{}/full/{}", S::NAME, v, r.0).as_bytes());
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.collect();
    }
}

enum Any {}
fn raw<T: Val>(cx: &mut Cx, name: &str) {
    use std::alloc::Layout;
    let l = Layout::new::<T>();
    for k in 0..cx.n(40) {
        let mut r = Rng::new(cx.rng.u64());
        let how = r.below(12);
        let d = r.below(MAX_DISCRIMINANT as u64 + 1) as Discriminant;
        cx.case(format!("TaggedBox of {} way {} discriminant {} value {}", name, how, d, k));
        let res = catch(|| unsafe {
            let x = T::gen(&mut r);
            let (b, ev): (TaggedBox<Any>, _) = if how % 2 == 0 { scope(|| TaggedBox::new(x, d)) } else { scope(|| TaggedBox::new_unchecked(x, d)) };
            let ok = if l.size() == 0 { ev.is_empty() } else { ev.len() == 1 && ev[0].shape() == (true, l.size(), l.align()) && ev[0].addr == b.as_ptr::<T>() as usize };
            cx.check(ok, "raw:new", || format!("layout {:?}, box at {:p}, saw {:?}", l, b.as_ptr::<T>(), ev));
            let (mut b, ev) = scope(|| {
                let mut b = b;
                let _ = (b.as_ref::<T>() as *const T, b.as_mut_ref::<T>() as *mut T, b.as_ptr::<T>(), b.as_mut_ptr::<T>(), b.discriminant());
                b
            });
            cx.check(ev.is_empty(), "raw:access", || format!("{:?}", ev));
            let a = b.as_mut_ptr::<T>() as usize;
            let freed = |ev: &[Ev]| {
                let n = ev.iter().filter(|e| !e.alloc && e.addr == a && e.size == l.size() && e.align == l.align()).count();
                if l.size() == 0 {
                    n == 0
                } else {
                    n == 1
                }
            };
            match how / 2 {
                0 => {
                    let (x, ev) = scope(|| TaggedBox::into_inner::<T>(b));
                    if l.size() == 0 {
                        cx.check(ev.is_empty(), "raw:into_inner", || format!("{:?}", ev));
                    } else if ev.is_empty() {
                        cx.violation("taking-out-frees-nothing", format!("TaggedBox::into_inner: the block of {:?} is not freed", l));
                    } else {
                        cx.check(ev.len() == 1 && freed(&ev), "raw:into_inner", || format!("{:?}", ev));
                    }
                    drop(x);
                }
                1 | 2 => {
                    let (x, ev) = scope(|| TaggedBox::into_box::<T>(b));
                    cx.check(ev.is_empty(), "raw:into_box", || format!("{:?}", ev));
                    let (_, ev) = scope(|| drop(x));
                    cx.check(freed(&ev), "raw:into_box:drop", || format!("layout {:?} at {:x}, saw {:?}", l, a, ev));
                }
                3 | 4 => {
                    let (p, ev) = scope(|| TaggedBox::into_raw::<T>(b));
                    cx.check(ev.is_empty() && p as usize == a, "raw:into_raw", || format!("{:?}", ev));
                    let (b, ev): (TaggedBox<Any>, _) = scope(|| TaggedBox::from_raw(p, d));
                    cx.check(ev.is_empty(), "raw:from_raw", || format!("{:?}", ev));
                    let (_, ev) = scope(|| drop(TaggedBox::into_box::<T>(b)));
                    cx.check(freed(&ev), "raw:into_box:drop", || format!("layout {:?} at {:x}, saw {:?}", l, a, ev));
                }
                _ => {
                    std::ptr::drop_in_place(b.as_mut_ptr::<T>());
                    let (_, ev) = scope(|| drop(b));
                    if l.size() != 0 && ev.is_empty() {
                        cx.violation("discard-releases-nothing", format!("a discarded TaggedBox keeps its block of {:?}", l));
                    }
                }
            }
        });
        if let Err(m) = res {
            cx.violation("raw:panic", m);
        }
        cx.eval(format!("{}/{}/{}", name, how, r.0).as_bytes());
    }
    cx.collect();
}

/// Building from a Copy container over and over: every copy of it must keep its block
struct Copies<'a>(&'a mut Cx);
impl GoCopy for Copies<'_> {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Copy + PartialEq + PartialOrd,
        S::C: Debug + Copy + PartialEq + PartialOrd,
    {
        let cx = &mut *self.0;
        for v in 0..S::n() {
            let mut r = Rng::new(cx.rng.u64());
            cx.case(format!("{}::{} copies consumed", S::NAME, S::VARIANTS[v]));
            let c = S::C::from(S::gen(v, &mut r));
            let res = catch(|| {
                for _ in 0..3 {
                    let d = c;
                    let _ = d.into_inner();
                    let _ = S::I::from_tagged_box(S::unbox(c));
                }
            });
            cx.check(res.is_ok(), "copies", || format!("{:?}", res));
            cx.eval(format!("{}/{}/copies", S::NAME, v).as_bytes());
        }
        cx.collect();
    }
}

fn main() {
    tbmon::on_a_large_stack(all)
}
fn all() {
    let mut cx = Cx::new("C06");
    macro_rules! raws { ($($t:ty),* $(,)?) => { $( raw::<$t>(&mut cx, stringify!($t)); )* } }
    raws!(
        u8, u16, u32, u64, u128, (), bool, char, f64, String, Vec<u16>, Box<u64>, Tok, ZTok, ZTok64, [Tok; 3], [ZTok; 4], (u8, u64), (u8, u16, u32), Padded, Option<u32>, Al2,
        Al16, Al32, Al64, Al256, AlTop, Big<65536>, Big<1048577>, Big<3145733>, (Big<2097151>, Al64), Z2, Z16, Z128, ZTop, Big<1>, Big<3>, Big<257>, Big<5000>, Big<100000>, [u64; 0], [Al256; 3], Option<Al64>, Vec<AlTop>
    );
    subjects::all(&mut Basic(&mut cx));
    subjects::full(&mut Full(&mut cx));
    subjects::copy(&mut Copies(&mut cx));
    cx.finish()
}
