#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b: TaggedBox<E> = TaggedBox::new(7u8, 1);
    #[cfg(bad)]
    let n: Box<u8> = TaggedBox::into_box(b);
    #[cfg(bad)]
    assert_eq!(*n, 7);
    #[cfg(bad)]
    return;
    let n: Box<u8> = unsafe { TaggedBox::into_box(b) };
    assert_eq!(*n, 7);
    done();
}
