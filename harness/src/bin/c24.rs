//! C24: constants are what run time computes
use std::hint::black_box;
use std::mem::align_of;
use tbmon::prelude::*;
use tbmon::{MAX_D, MAX_P, WIDTH};

const N: usize = 3000;
const fn next(mut x: u64) -> u64 {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    x
}
/// The arguments: corner cases, then pseudo-random ones
const fn arg(i: usize) -> (u64, Discriminant) {
    let mut x = 0x9e37_79b9_7f4a_7c15 ^ (i as u64 + 1).wrapping_mul(0x2545_f491_4f6c_dd1d);
    x = next(next(next(x)));
    let p = match i % 7 {
        0 => x & MAX_P,
        1 => (1u64 << (i / 7 % WIDTH as usize)) & MAX_P,
        2 => ((1u64 << (i / 7 % WIDTH as usize)) - 1) & MAX_P,
        3 => MAX_P - (x & 0xff),
        4 => x & 0xffff_ffff & MAX_P,
        5 => !(1u64 << (i / 7 % 64)) & MAX_P,
        _ => x & 0xffff,
    };
    let y = next(x);
    let d = match i % 5 {
        0 => y & MAX_D,
        1 => (1 << (i / 5 % tbmon::BITS as usize)) & MAX_D,
        2 => MAX_D - ((y & 3) & MAX_D),
        3 => y & 3 & MAX_D,
        _ => y >> 3 & MAX_D,
    };
    (p, d as Discriminant)
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Row {
    p: u64,
    d: Discriminant,
    stored: u64,
    fetched: Discriminant,
    stripped: u64,
    wfetched: Discriminant,
    wstripped: u64,
    dangling: [u64; 5],
    dangling_u64: [u64; 5],
    dangling_d: [Discriminant; 5],
    boxed_d: [Discriminant; 5],
}
type B = TaggedBox<u8>;
const fn row(i: usize) -> Row {
    let (p, d) = arg(i);
    let stored = TaggedPointer::store_discriminant(p, d);
    let w = next(p ^ (i as u64) << 40);
    let t = [TaggedPointer::dangling::<u8>(d), TaggedPointer::dangling::<u64>(d), TaggedPointer::dangling::<Al256>(d), TaggedPointer::dangling::<Z4096>(d), TaggedPointer::dangling::<()>(d)];
    let b = [B::dangling::<u8>(d), B::dangling::<u64>(d), B::dangling::<Al256>(d), B::dangling::<Z4096>(d), B::dangling::<()>(d)];
    let ds = [b[0].discriminant(), b[1].discriminant(), b[2].discriminant(), b[3].discriminant(), b[4].discriminant()];
    // (boxes of Copy enums only could be forgotten otherwise)
    std::mem::forget(b);
    Row {
        p,
        d,
        stored,
        fetched: TaggedPointer::fetch_discriminant(stored),
        stripped: TaggedPointer::strip_discriminant(stored),
        wfetched: TaggedPointer::fetch_discriminant(w),
        wstripped: TaggedPointer::strip_discriminant(w),
        dangling: [t[0].as_raw_u64(), t[1].as_raw_u64(), t[2].as_raw_u64(), t[3].as_raw_u64(), t[4].as_raw_u64()],
        dangling_u64: [t[0].as_u64(), t[1].as_u64(), t[2].as_u64(), t[3].as_u64(), t[4].as_u64()],
        dangling_d: [t[0].discriminant(), t[1].discriminant(), t[2].discriminant(), t[3].discriminant(), t[4].discriminant()],
        boxed_d: ds,
    }
}
const fn table() -> [Row; N] {
    let mut t = [row(0); N];
    let mut i = 0;
    while i < N {
        t[i] = row(i);
        i += 1;
    }
    t
}
static TABLE: [Row; N] = table();

// in statics and constants of their own, also as the pointers and boxes themselves
macro_rules! consts {
    ($($m:ident $t:ty, $d:expr;)*) => {
        $( mod $m {
            use super::*;
            pub const D: Discriminant = ($d as u64 & MAX_D) as Discriminant;
            pub const P: TaggedPointer = TaggedPointer::dangling::<$t>(D);
            pub static SP: TaggedPointer = TaggedPointer::dangling::<$t>(D);
            pub const B: TaggedBox<u32> = TaggedBox::dangling::<$t>(D);
            pub static SB: TaggedBox<u32> = TaggedBox::dangling::<$t>(D);
            pub const DP: Discriminant = P.discriminant();
            pub const DB: Discriminant = SB_.discriminant();
            pub const SB_: TaggedBox<u32> = TaggedBox::dangling::<$t>(D);
            pub const U: u64 = P.as_u64();
            pub const R: u64 = P.as_raw_u64();
            pub const PTR: *const $t = P.as_ptr::<$t>();
            pub const BPTR: *const $t = SB_.as_ptr::<$t>();
        } )*
        fn own(cx: &mut Cx) {
            $( {
                use $m::*;
                let d = black_box(D);
                cx.case(format!("constants for {} under {}", stringify!($t), d));
                let p = TaggedPointer::dangling::<$t>(d);
                let b: TaggedBox<u32> = TaggedBox::dangling::<$t>(d);
                let w = p.as_raw_u64();
                cx.check(P == p && SP == p && word(&B) == w && word(&SB) == w && word(&SB_) == w && word(&b) == w, "dangling", || format!("{:?} {:?} {:?} {:#x} {:#x}", P, SP, p, word(&B), word(&SB)));
                cx.check(DP == p.discriminant() && DB == b.discriminant() && DP == d && DB == d && SB.discriminant() == d, "discriminant", || format!("{} {} {}", DP, DB, d));
                cx.check(U == p.as_u64() && R == w, "as_u64", || format!("{:#x} {:#x}", U, R));
                cx.check(PTR == p.as_ptr::<$t>() && BPTR == b.as_ptr::<$t>() && SB.as_ptr::<$t>() == PTR, "as_ptr", || format!("{:?} {:?} {:?}", PTR, BPTR, p.as_ptr::<$t>()));
                cx.check(!PTR.is_null() && PTR as usize % align_of::<$t>() == 0 && BPTR == PTR, "placeholder", || format!("{:?} {:?}", PTR, BPTR));
                cx.check(w == U | (d as u64) << WIDTH, "word", || format!("{:#x}", w));
                cx.eval(stringify!($m).as_bytes());
            } )*
        }
    };
}
consts! {
    a u8, 0; b u8, u64::MAX; c u16, 1; d u32, 0x5555; e u64, 0xaaaa; f u128, 3; g (), 0xff; h Z2, 0x100; i Z16, 0x7fff; j Z128, 0x8000;
    k Z4096, u64::MAX; l Al2, 7; m Al16, 8; n Al64, 0xfe; o Al4096, u64::MAX - 1; p String, 2; q Vec<u8>, 4; r [u64; 0], 0x101; s ZTok, 5; t ZTok64, u64::MAX; u Big<100>, 6; v (u8, u64), 0x80;
    w &'static str, 9; x Option<Box<u8>>, 10; y [Al16; 2], 15; z fn(), 14;
}
fn main() {
    let mut cx = Cx::new("C24");
    let aligns = [1u64, align_of::<u64>() as u64, 256, 4096, 1];
    for i in 0..if cfg!(miri) { 60 } else { N } {
        let c = TABLE[i];
        let r = row(black_box(i));
        cx.case(format!("row {}: ({:#x}, {})", i, c.p, c.d));
        cx.check(c == r, "differs", || format!("constant {:x?}, run time {:x?}", c, r));
        // and both are right
        for r in [c, r] {
            cx.check(r.stored == r.p | (r.d as u64) << WIDTH && r.fetched == r.d && r.stripped == r.p, "store-fetch-strip", || format!("{:x?}", r));
            for k in 0..5 {
                let a = r.dangling_u64[k];
                cx.check(a != 0 && a % aligns[k] == 0 && r.dangling_d[k] == r.d && r.boxed_d[k] == r.d && r.dangling[k] == a | (r.d as u64) << WIDTH, "dangling", || format!("{} {:x?}", k, r));
            }
        }
        cx.eval_hash(c.stored ^ i as u64);
    }
    own(&mut cx);
    cx.finish()
}
