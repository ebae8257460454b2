#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b: TaggedBox<E> = TaggedBox::new(7u8, 1);
    #[cfg(bad)]
    let n: &u8 = b.as_ref();
    #[cfg(bad)]
    assert_eq!(*n, 7);
    let n: &u8 = unsafe { b.as_ref() };
    assert_eq!(*n, 7);
    done();
}
