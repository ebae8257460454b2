#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b = text();
    let s = TaggedBox::into_raw::<String>(b);
    drop(unsafe { Box::from_raw(s) });
    #[cfg(bad)]
    let t = TaggedBox::into_raw::<String>(b);
    #[cfg(bad)]
    drop(unsafe { Box::from_raw(t) });
    done();
}
