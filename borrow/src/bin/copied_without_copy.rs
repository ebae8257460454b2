#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    fn copy<T: Copy>(t: &T) -> T {
        *t
    }
    let c = CC::from(3u8);
    assert_eq!(copy(&c).into_inner(), CE::N(3));
    assert_eq!(c.into_inner(), CE::N(3));
    #[cfg(bad)]
    let b = text();
    #[cfg(bad)]
    let _ = copy(&b);
    done();
}
