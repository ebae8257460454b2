#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b = text();
    let s: String = unsafe { TaggedBox::into_inner(b) };
    assert_eq!(s, "text");
    #[cfg(bad)]
    let t: String = unsafe { TaggedBox::into_inner(b) };
    #[cfg(bad)]
    drop(t);
    done();
}
