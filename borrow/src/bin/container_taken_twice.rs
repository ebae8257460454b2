#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let c = C::from(3u8);
    let d = c.clone();
    assert_eq!(c.into_inner(), E::N(3));
    assert_eq!(d.into_inner(), E::N(3));
    #[cfg(bad)]
    let _ = c.into_inner();
    done();
}
