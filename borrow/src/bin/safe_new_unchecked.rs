#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    #[cfg(bad)]
    let b: TaggedBox<E> = TaggedBox::new_unchecked(7u8, 1);
    #[cfg(bad)]
    let _ = b.discriminant();
    #[cfg(bad)]
    return;
    let b: TaggedBox<E> = unsafe { TaggedBox::new_unchecked(7u8, 1) };
    assert_eq!(b.discriminant(), 1);
    done();
}
