#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let mut b: TaggedBox<E> = TaggedBox::new(7u8, 1);
    #[cfg(bad)]
    let n: &mut u8 = b.as_mut_ref();
    #[cfg(bad)]
    {
        *n = 8;
    }
    let n: &mut u8 = unsafe { b.as_mut_ref() };
    *n = 9;
    done();
}
