//! Monitors for tagged-box: everything here observes the crate from outside, through its public
//! API, the global allocator and the destructors of the values handed to it.
pub mod drive;
pub mod fmtmon;
pub mod mem;
pub mod never;
pub mod report;
pub mod rng;
pub mod subject;
pub mod tok;
pub mod val;

pub use mem::Mon;
pub use report::Cx;
pub use rng::Rng;
pub use subject::{Enc, Subject};
pub use val::Val;

#[global_allocator]
static ALLOCATOR: Mon = Mon;

pub mod prelude {
    pub use crate::mem::{self, scope, Mon};
    pub use crate::report::catch;
    pub use crate::subject::*;
    pub use crate::tok::{self, Tok, ZTok, ZTok64};
    pub use crate::val::*;
    pub use crate::{copies, Cx, Rng};
    pub use std::borrow::Cow;
    pub use std::collections::BTreeMap;
    pub use std::marker::PhantomData;
    pub use std::num::{NonZeroU16, NonZeroU64};
    pub use std::rc::Rc;
    pub use std::sync::Arc;
    pub use std::time::Duration;
    pub use tagged_box::discriminant::*;
    pub use tagged_box::{tagged_box, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};
}
/// The generated enums
#[macro_export]
macro_rules! subjects {
    () => {
        #[allow(dead_code, unused_variables, unused_imports, unused_mut, private_interfaces, clippy::all)]
        mod subjects {
            use tbmon::prelude as harness_prelude;
            include!(concat!(env!("MON_GEN"), "/subjects.rs"));
        }
    };
}

/// The width selected for this build, from the selection itself (not from what the crate says)
pub const WIDTH: u32 = match option_env!("TAGGED_BOX_RESERVED_WIDTH") {
    Some(s) => {
        let b = s.as_bytes();
        let n = if b.len() == 6 { (b[0].wrapping_sub(b'0')) as u32 * 10 + (b[1].wrapping_sub(b'0')) as u32 } else { 0 };
        if n >= 48 && n <= 63 && b[2] == b'b' && b[3] == b'i' && b[4] == b't' && b[5] == b's' {
            n
        } else {
            60
        }
    }
    None => 60,
};
pub const BITS: u32 = 64 - WIDTH;
pub const MAX_D: u64 = (1 << BITS) - 1;
pub const MAX_P: u64 = (1 << WIDTH) - 1;

/// Discriminants worth trying: all of them where there are few
pub fn discriminants(r: &mut Rng, most: u64) -> Vec<u64> {
    if MAX_D < most {
        return (0..=MAX_D).collect();
    }
    let mut v = vec![0, 1, 2, MAX_D, MAX_D - 1, MAX_D / 2, MAX_D / 2 + 1, 0xff & MAX_D, 0x100 & MAX_D, 0x5555 & MAX_D, 0xaaaa & MAX_D, 0x7f & MAX_D, 0x80 & MAX_D];
    for b in 0..BITS {
        v.push(1 << b);
        v.push(MAX_D & !(1 << b));
    }
    while (v.len() as u64) < most {
        v.push(r.u64() & MAX_D);
    }
    v.sort();
    v.dedup();
    v
}
/// Addresses worth trying: around every power of two, real ones, and random ones of every length
pub fn addresses(r: &mut Rng, random: u64) -> Vec<u64> {
    let mut v = vec![0, MAX_P, MAX_P - 1, 0x5555_5555_5555_5555 & MAX_P, 0xaaaa_aaaa_aaaa_aaaa & MAX_P, 0x0123_4567_89ab_cdef & MAX_P, MAX_P & !0xfff];
    for b in 0..WIDTH {
        let p = 1u64 << b;
        v.extend_from_slice(&[p, p - 1, p + 1, MAX_P & !p, MAX_P - (p - 1)]);
    }
    for k in 0..random {
        v.push(r.u64() & MAX_P >> (k % WIDTH as u64));
    }
    v.retain(|p| *p <= MAX_P);
    v.sort();
    v.dedup();
    v
}

/// Runs `f` where values of many MiB fit
pub fn on_a_large_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    match std::thread::Builder::new().stack_size(1 << 30).spawn(f).map(|t| t.join()) {
        Ok(Ok(r)) => r,
        Ok(Err(p)) => std::panic::resume_unwind(p),
        Err(e) => panic!("no thread with a large stack: {}", e),
    }
}
