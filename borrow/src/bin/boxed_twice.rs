#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b = text();
    let s = unsafe { TaggedBox::into_box::<String>(b) };
    assert_eq!(*s, "text");
    #[cfg(bad)]
    let t = unsafe { TaggedBox::into_box::<String>(b) };
    #[cfg(bad)]
    drop(t);
    done();
}
