//! C04: boxes give back what was put in, from storage of their own
use std::any::type_name;
use tbmon::prelude::*;
use tbmon::{discriminants, MAX_D, MAX_P};

enum E {}
type B = TaggedBox<E>;

/// What can be done with a box of some type, found by an index
struct Kind {
    name: &'static str,
    size: usize,
    align: usize,
    new: fn(&mut Rng, Discriminant, bool) -> (B, Vec<u8>),
    read: fn(&mut B, usize) -> Vec<u8>,
    write: fn(&mut B, &mut Rng, usize) -> Vec<u8>,
    take: fn(B, usize) -> (Vec<u8>, usize),
    cycle: fn(B, Discriminant) -> B,
}
fn enc<T: Val>(t: &T) -> Vec<u8> {
    let mut o = vec![];
    t.enc(&mut o);
    o
}
const READS: usize = 5;
const WRITES: usize = 4;
const TAKES_: usize = 5;
fn kind<T: Val>() -> Kind {
    Kind {
        name: type_name::<T>(),
        size: std::mem::size_of::<T>(),
        align: std::mem::align_of::<T>(),
        new: |r, d, unchecked| {
            let t = T::gen(r);
            let e = enc(&t);
            (if unchecked { unsafe { B::new_unchecked(t, d) } } else { B::new(t, d) }, e)
        },
        read: |b, k| unsafe {
            match k {
                0 => enc(b.as_ref::<T>()),
                1 => enc(b.as_mut_ref::<T>()),
                2 => enc(&*b.as_ptr::<T>()),
                3 => enc(&*b.as_mut_ptr::<T>()),
                _ => {
                    // two at once
                    let (x, y) = (b.as_ref::<T>(), b.as_ref::<T>());
                    assert!(std::ptr::eq(x, y), "two references to one box differ");
                    enc(x)
                }
            }
        },
        write: |b, r, k| unsafe {
            let t = T::gen(r);
            let e = enc(&t);
            match k {
                0 => *b.as_mut_ref::<T>() = t,
                1 => *b.as_mut_ptr::<T>() = t,
                2 => drop(std::mem::replace(b.as_mut_ref::<T>(), t)),
                _ => {
                    let mut t = t;
                    std::mem::swap(b.as_mut_ref::<T>(), &mut t)
                }
            }
            e
        },
        take: |b, k| unsafe {
            match k {
                0 => {
                    let t: T = B::into_inner(b);
                    (enc(&t), 0)
                }
                1 => {
                    let t = B::into_box::<T>(b);
                    (enc(&*t), &*t as *const T as usize)
                }
                2 => {
                    let p = B::into_raw::<T>(b);
                    let t = Box::from_raw(p);
                    (enc(&*t), p as usize)
                }
                3 => {
                    let p = B::into_raw::<T>(b);
                    let e = enc(&*p);
                    p.drop_in_place();
                    if std::mem::size_of::<T>() != 0 {
                        std::alloc::dealloc(p as *mut u8, std::alloc::Layout::new::<T>());
                    }
                    (e, p as usize)
                }
                _ => {
                    // out of a Box and out of that by value
                    let t: T = *B::into_box::<T>(b);
                    (enc(&t), 0)
                }
            }
        },
        cycle: |b, d| unsafe { B::from_raw(B::into_raw::<T>(b), d) },
    }
}
struct Slot {
    b: B,
    k: usize,
    e: Vec<u8>,
    d: u64,
    at: usize,
}
fn look(cx: &mut Cx, s: &mut Slot, kinds: &[Kind], how: usize, when: &str) {
    let k = &kinds[s.k];
    let e = (k.read)(&mut s.b, how);
    cx.check(e == s.e, &format!("{}:value", when), || format!("a {} reads as {:02x?} instead of {:02x?}", k.name, &e[..e.len().min(40)], &s.e[..s.e.len().min(40)]));
    cx.check(s.b.discriminant() as u64 == s.d, &format!("{}:discriminant", when), || format!("of a {} is {} instead of {}", k.name, s.b.discriminant(), s.d));
    let at = s.b.as_ptr::<u8>() as usize;
    cx.check(at == s.at, &format!("{}:moved", when), || format!("a {} is at {:#x} instead of {:#x}", k.name, at, s.at));
}
fn placed(cx: &mut Cx, s: &Slot, slots: &[Slot], kinds: &[Kind]) {
    let k = &kinds[s.k];
    cx.check(s.at != 0, "null", || format!("a {} is at the null address", k.name));
    cx.check(s.at % k.align == 0, "misaligned", || format!("a {} is at {:#x}", k.name, s.at));
    if k.size > 0 {
        for o in slots {
            let ok = kinds[o.k].size == 0 || s.at + k.size <= o.at || o.at + kinds[o.k].size <= s.at;
            cx.check(ok, "overlap", || format!("a {} at {:#x} and a {} at {:#x}", k.name, s.at, kinds[o.k].name, o.at));
        }
        cx.check(unsafe { cfg!(mon_plain) || mem::block_intact(s.at) }, "no-block", || format!("a {} at {:#x} is not in a block of its own", k.name, s.at));
    }
}
/// Every type in every way
fn each(cx: &mut Cx, r: &mut Rng, kinds: &[Kind], n: u64, most: usize) {
    for (i, k) in kinds.iter().enumerate() {
        let mut all = discriminants(r, n);
        while all.len() > most {
            all.swap_remove(r.idx(all.len()));
        }
        for d in all {
            for t in 0..TAKES_ {
                let (w, rd, un) = (r.idx(WRITES + 1), r.idx(READS), r.chance(2));
                cx.case(format!("{} discriminant {} unchecked {} write {} read {} take {}", k.name, d, un, w, rd, t));
                let res = catch(|| {
                    let (b, e) = (k.new)(r, d as Discriminant, un);
                    let at = b.as_ptr::<u8>() as usize;
                    let mut s = Slot { b, k: i, e, d, at };
                    placed(cx, &s, &[], kinds);
                    look(cx, &mut s, &kinds, rd, "new");
                    if w < WRITES {
                        s.e = (k.write)(&mut s.b, r, w);
                        look(cx, &mut s, &kinds, rd, "written");
                    }
                    let dd = s.b.discriminant();
                    s.b = (k.cycle)(s.b, dd);
                    look(cx, &mut s, &kinds, rd, "raw");
                    let (e, p) = (k.take)(s.b, t);
                    cx.check(e == s.e, "taken:value", || format!("took {:02x?} instead of {:02x?}", &e[..e.len().min(40)], &s.e[..s.e.len().min(40)]));
                    cx.check(p == 0 || p == s.at, "taken:moved", || format!("{:#x} instead of {:#x}", p, s.at));
                    cx.eval(format!("{} {} {} {} {:x}", k.name, d, t, w, tbmon::rng::hash(&s.e)).as_bytes());
                });
                if let Err(m) = res {
                    cx.violation("panic", m)
                }
            }
        }
        if tok::filling() {
            tok::reset()
        }
    }
}
/// Boxes made of addresses: for something without size any will do
fn given(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let mut ps = tbmon::addresses(&mut r, if cfg!(miri) { 3 } else { 200 });
    ps.retain(|p| *p != 0 && *p as usize as u64 == *p);
    if cfg!(miri) {
        while ps.len() > 60 {
            ps.swap_remove(r.idx(ps.len()));
        }
        ps.extend([usize::MAX as u64 & MAX_P, 1 << 31, 1 << 31 | 8, 0xffff_f000]);
    }
    for p in ps {
        let d = r.u64() & MAX_D;
        cx.case(format!("a () at {:#x} with discriminant {}", p, d));
        let at = p as usize;
        let res = catch(|| unsafe {
            let make = || B::from_raw(at as *mut (), d as Discriminant);
            let mut b = make();
            let is = [b.as_ptr::<()>() as usize, b.as_mut_ptr::<()>() as usize, b.as_ref::<()>() as *const () as usize, b.as_mut_ref::<()>() as *mut () as usize];
            cx.check(is.iter().all(|x| *x == at), "given:accessors", || format!("{:x?}", is));
            cx.check(b.discriminant() as u64 == d, "given:discriminant", || b.discriminant().to_string());
            let raw = B::into_raw::<()>(b) as usize;
            cx.check(raw == at, "given:into_raw", || format!("{:#x}", raw));
            let t = B::into_box::<()>(make());
            let of = &*t as *const () as usize;
            cx.check(of == at, "given:into_box", || format!("{:#x}", of));
            B::into_inner::<()>(make());
        });
        if let Err(m) = res {
            cx.violation("given:panic", m)
        }
        cx.eval_hash(p ^ d << 50);
    }
}
/// Values at addresses where no allocator would put them: as low and as high as the system allows
#[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri), not(mon_plain)))]
fn mapped(cx: &mut Cx) {
    extern "C" {
        fn mmap(at: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> isize;
        fn munmap(at: usize, len: usize) -> i32;
    }
    let mut r = Rng::new(cx.rng.u64());
    const LEN: usize = 0x4000;
    for want in [0x1_0000usize, 0x20_0000, 0x7fff_c000, 0x8000_0000, 0xffff_c000, 0x1_0000_0000, 0x7f_ffff_c000, 0x80_0000_0000, 0x1000_0000_0000, 0x4000_0000_0000, 0x7fff_0000_0000 - LEN, 0x7ffd_ffff_0000] {
        let want = (want + 0x1_0000 * r.idx(8)) & !0xfff;
        // readable and writable, private, anonymous, there or nowhere
        let at = unsafe { mmap(want, LEN, 3, 0x2 | 0x20 | 0x10_0000, -1, 0) };
        if at != want as isize {
            if at > 0 {
                unsafe { munmap(at as usize, LEN) };
            }
            continue;
        }
        cx.count("mappings", 1);
        macro_rules! there { ($($t:ty),*) => { $({
            for _ in 0..12 {
                let align = std::mem::align_of::<$t>();
                let p = (want + r.idx(LEN - std::mem::size_of::<$t>() - align)) / align * align + if r.chance(2) { align } else { 0 };
                let p = p.min(want + (LEN - std::mem::size_of::<$t>()) / align * align).max(want);
                let d = r.u64() & MAX_D;
                cx.case(format!("a {} at {:#x} with discriminant {}", stringify!($t), p, d));
                let res = catch(|| unsafe {
                    let (v, w) = (<$t>::gen(&mut r), <$t>::gen(&mut r));
                    let (e, f) = (enc(&v), enc(&w));
                    (p as *mut $t).write(v);
                    let mut b = B::from_raw(p as *mut $t, d as Discriminant);
                    cx.check(enc(b.as_ref::<$t>()) == e && enc(b.as_mut_ref::<$t>()) == e && b.as_ptr::<$t>() as usize == p, "mapped:value", || format!("{:02x?}", enc(b.as_ref::<$t>())));
                    *b.as_mut_ref::<$t>() = w;
                    cx.check(enc(&*(p as *const $t)) == f && b.discriminant() as u64 == d, "mapped:written", || format!("{:02x?}", enc(&*(p as *const $t))));
                    let x: $t = B::into_inner(b);
                    cx.check(enc(&x) == f, "mapped:taken", || format!("{:02x?}", enc(&x)));
                });
                if let Err(m) = res {
                    cx.violation("mapped:panic", m)
                }
                cx.eval_hash(p as u64 ^ d << 50);
            }
        })* } }
        there!(u8, u64, String, Al16, Big<257>, Tok, [Tok; 2], (u8, u16, u32), Al256);
        unsafe { munmap(want, LEN) };
    }
}
/// Values far larger than a stack usually is
fn huge(cx: &mut Cx) {
    let kinds: Vec<Kind> = vec![
        kind::<Big<65537>>(),
        kind::<Big<1048579>>(),
        kind::<Big<2097151>>(),
        kind::<Big<4198405>>(),
        kind::<Big<9437200>>(),
        kind::<(Big<3145731>, AlTop, u8)>(),
        kind::<[Al64; 40001]>(),
    ];
    let mut r = Rng::new(cx.rng.u64());
    each(cx, &mut r, &kinds, 20, 1);
    cx.count("types of up to 9 MiB", kinds.len() as u64);
}
fn main() {
    let mut cx = Cx::new("C04");
    macro_rules! kinds { ($($t:ty),* $(,)?) => { vec![$( kind::<$t>() ),*] } }
    let kinds: Vec<Kind> = kinds![
        u8, u16, u32, u64, u128, i8, i64, usize, bool, char, f32, f64, String, Vec<u16>, Vec<String>, Box<u64>, Rc<String>, Arc<String>, [u8; 3], [u8; 7], [u32; 5], (u8, u64), (u8, u16, u32),
        Option<u32>, Option<Box<u8>>, (), [u64; 0], Z2, Z16, Z128, ZTop, Al2, Al16, Al32, Al64, Al256, AlTop, Big<100>, Big<257>, Big<5000>, Tok, ZTok, ZTok64, [Tok; 2], Vec<Tok>, (Tok, u8), Weird, Padded, &'static str,
        NonZeroU16, Option<NonZeroU64>, Result<u8, char>, PhantomData<String>, Duration, &'static [u16], (u8,), Box<str>, Box<[u16]>, BTreeMap<u8, u16>, Cow<'static, str>, Option<Tok>, Box<ZTok>, [ZTok; 3]
    ];
    if std::env::args().any(|a| a == "given") {
        given(&mut cx);
        cx.finish()
    }
    {
        let cx = &mut cx;
        let mut r = Rng::new(cx.rng.u64());
        each(cx, &mut r, &kinds, if cfg!(miri) { 3 } else { 20 }, 100);
        given(cx);
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri), not(mon_plain)))]
        mapped(cx);
        // many boxes at once
        for h in 0..if cfg!(miri) { 1 } else { cx.n(12) } {
            let seed = cx.rng.u64();
            let mut r = Rng::new(seed);
            let mut slots: Vec<Slot> = vec![];
            let most = 1 + r.idx(if h % 3 == 0 { 200 } else { 24 });
            let steps = if cfg!(miri) { 80 } else { 1500 };
            for step in 0..steps {
                cx.case(format!("history {} (seed {:#x}) step {} with {} boxes", h, seed, step, slots.len()));
                let res = catch(|| {
                    let n = slots.len();
                    match r.below(if n == 0 { 1 } else { 9 }) {
                        0 | 1 if n < most => {
                            let k = r.idx(kinds.len());
                            let d = r.u64() & MAX_D;
                            let (b, e) = (kinds[k].new)(&mut r, d as Discriminant, d & 1 == 1);
                            let at = b.as_ptr::<u8>() as usize;
                            let mut s = Slot { b, k, e, d, at };
                            placed(cx, &s, &slots, &kinds);
                            look(cx, &mut s, &kinds, 0, "new");
                            // pushing moves the boxes themselves
                            slots.push(s);
                        }
                        2 | 3 => {
                            let (i, w) = (r.idx(n), r.idx(WRITES));
                            slots[i].e = (kinds[slots[i].k].write)(&mut slots[i].b, &mut r, w);
                        }
                        4 => {
                            let s = slots.swap_remove(r.idx(n));
                            let (e, p) = (kinds[s.k].take)(s.b, r.idx(TAKES_));
                            cx.check(e == s.e, "taken:value", || format!("took {:02x?} of a {}", &e[..e.len().min(40)], kinds[s.k].name));
                            cx.check(p == 0 || p == s.at, "taken:moved", || format!("{:#x} instead of {:#x}", p, s.at));
                        }
                        5 => {
                            // through a raw pointer to another discriminant
                            let mut s = slots.swap_remove(r.idx(n));
                            s.d = if r.chance(2) { r.u64() & MAX_D } else { s.d };
                            s.b = (kinds[s.k].cycle)(s.b, s.d as Discriminant);
                            slots.insert(r.idx(slots.len() + 1), s);
                        }
                        6 => {
                            let (i, j) = (r.idx(n), r.idx(n));
                            slots.swap(i, j);
                        }
                        _ => {
                            let (i, h) = (r.idx(n), r.idx(READS));
                            look(cx, &mut slots[i], &kinds, h, "history");
                        }
                    }
                    if step % 50 == 0 || step + 1 == steps {
                        for s in slots.iter_mut() {
                            look(cx, s, &kinds, step as usize % READS, "sweep");
                        }
                        cx.count("sweeps over all boxes", 1);
                    }
                    cx.eval_hash(seed ^ step as u64);
                });
                if let Err(m) = res {
                    cx.violation("panic", m)
                }
            }
            cx.max("most boxes at once", slots.len() as u64);
            for s in slots {
                let (e, _) = (kinds[s.k].take)(s.b, 1);
                cx.check(e == s.e, "taken:value", || format!("a {} at the end", kinds[s.k].name));
            }
            if tok::filling() {
                tok::reset()
            }
        }
        cx.count("types", kinds.len() as u64);
        cx.collect();
    }
    if !cfg!(any(miri, mon_plain)) {
        return tbmon::on_a_large_stack(move || {
            huge(&mut cx);
            cx.finish()
        });
    }
    cx.finish()
}
