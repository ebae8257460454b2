#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let e = E::S("s".into());
    let c = C::from(e);
    assert_eq!(c.into_inner(), E::S("s".into()));
    #[cfg(bad)]
    drop(e);
    done();
}
