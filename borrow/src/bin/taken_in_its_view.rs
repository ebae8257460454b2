#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b = text();
    unsafe {
        E::ref_from_tagged_box(&b, |e| {
            assert_eq!(*e, E::S("text".into()));
            #[cfg(bad)]
            end(b);
        })
    }
    #[cfg(not(bad))]
    end(b);
    done();
}
