#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let x = 7u32;
    let p = TaggedPointer::new(&x as *const u32 as u64, 1);
    #[cfg(bad)]
    let r: &u32 = p.as_ref();
    #[cfg(bad)]
    assert_eq!(*r, 7);
    let r: &u32 = unsafe { p.as_ref() };
    assert_eq!(*r, 7);
    done();
}
