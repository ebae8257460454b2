#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b: TaggedBox<E> = TaggedBox::new(7u8, 1);
    #[cfg(bad)]
    let n: u8 = TaggedBox::into_inner(b);
    #[cfg(bad)]
    assert_eq!(n, 7);
    #[cfg(bad)]
    return;
    let n: u8 = unsafe { TaggedBox::into_inner(b) };
    assert_eq!(n, 7);
    done();
}
