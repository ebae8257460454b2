#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b = text();
    assert_eq!(b.discriminant(), 0);
    end(b);
    #[cfg(bad)]
    let _ = b.discriminant();
    done();
}
