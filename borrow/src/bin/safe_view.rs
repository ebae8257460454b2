#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b = text();
    #[cfg(bad)]
    E::ref_from_tagged_box(&b, |_| ());
    unsafe { E::ref_from_tagged_box(&b, |_| ()) }
    end(b);
    done();
}
