#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let p = Box::into_raw(Box::new(7u8));
    #[cfg(bad)]
    let b: TaggedBox<E> = TaggedBox::from_raw(p, 1);
    #[cfg(bad)]
    assert_eq!(b.discriminant(), 1);
    #[cfg(bad)]
    return;
    let b: TaggedBox<E> = unsafe { TaggedBox::from_raw(p, 1) };
    drop(unsafe { TaggedBox::into_box::<u8>(b) });
    done();
}
