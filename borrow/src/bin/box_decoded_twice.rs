#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b = text();
    assert_eq!(E::from_tagged_box(b), E::S("text".into()));
    #[cfg(bad)]
    let _ = E::from_tagged_box(b);
    done();
}
