#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b = text();
    let r: &String = unsafe { b.as_ref() };
    let n = r.len();
    #[cfg(bad)]
    let p = TaggedBox::into_raw::<String>(b);
    #[cfg(bad)]
    drop(unsafe { Box::from_raw(p) });
    #[cfg(bad)]
    drop(r.clone());
    #[cfg(bad)]
    return;
    let p = TaggedBox::into_raw::<String>(b);
    assert_eq!(unsafe { Box::from_raw(p) }.len(), n);
    done();
}
