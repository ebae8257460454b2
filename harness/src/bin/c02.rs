//! C02: the limits are those of the width given as the argument
use tagged_box::discriminant as d;
use tbmon::prelude::*;

fn main() {
    let mut cx = Cx::new("C02");
    let w: u64 = std::env::args().nth(1).and_then(|a| a.parse().ok()).expect("the width expected");
    let bits = 64 - w;
    let max: u64 = (1u64 << bits) - 1;
    let ptr: u64 = (1u64 << w) - 1;
    cx.case(format!("the limits when {} bits are selected by {:?}", w, option_env!("TAGGED_BOX_RESERVED_WIDTH")));
    let mut is = |what: &str, got: u64, want: u64| {
        cx.check(got == want, what, || format!("is {:#x} instead of {:#x}", got, want));
        cx.eval(format!("{} {} {}", what, w, got).as_bytes());
    };
    is("POINTER_WIDTH", d::POINTER_WIDTH as u64, w);
    is("DISCRIMINANT_BITS", d::DISCRIMINANT_BITS as u64, bits);
    is("POINTER_WIDTH+DISCRIMINANT_BITS", d::POINTER_WIDTH as u64 + d::DISCRIMINANT_BITS as u64, 64);
    is("MAX_DISCRIMINANT", d::MAX_DISCRIMINANT as u64, max);
    is("MAX_POINTER_VALUE", d::MAX_POINTER_VALUE as u64, ptr);
    is("DISCRIMINANT_MASK", d::DISCRIMINANT_MASK as u64, ptr);
    is("Discriminant holds MAX_DISCRIMINANT", (std::mem::size_of::<Discriminant>() as u64 * 8 >= bits && Discriminant::MIN == 0) as u64, 1);
    is("tagged_box::Discriminant", std::mem::size_of::<tagged_box::Discriminant>() as u64, std::mem::size_of::<Discriminant>() as u64);
    // all values of that many bits can be stored, at the lowest and the highest address
    for x in 0..=max {
        for p in [0, 1, ptr] {
            let r = catch(|| TaggedPointer::new(p, x as Discriminant));
            let ok = matches!(r, Ok(t) if t.discriminant() as u64 == x && t.as_u64() == p && t.as_raw_u64() == p | (x as u128 * (1u128 << w)) as u64);
            cx.check(ok, "stored", || format!("({:#x}, {}) gives {:?}", p, x, r));
        }
        let b = catch(|| word(&TaggedBox::<u8>::dangling::<u32>(x as Discriminant)) >> w);
        cx.check(b.as_ref().ok() == Some(&x), "stored:box", || format!("{} gives {:?}", x, b));
        cx.eval(format!("stored {} {}", w, x).as_bytes());
    }
    // and nothing more
    for (p, x) in [(ptr as u128 + 1, 0u64), (u64::MAX as u128, 0), (0, max + 1), (0, Discriminant::MAX as u64)] {
        if p > u64::MAX as u128 || x > Discriminant::MAX as u64 || (p <= ptr as u128 && x <= max) {
            continue;
        }
        let r = catch(|| TaggedPointer::new(p as u64, x as Discriminant));
        cx.check(r.is_err(), "beyond", || format!("({:#x}, {}) gives {:?}", p, x, r));
        cx.eval(format!("beyond {} {} {}", w, p, x).as_bytes());
    }
    cx.max("most discriminants of a width", max + 1);
    cx.finish()
}
