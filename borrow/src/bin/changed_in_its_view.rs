#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let mut b = text();
    unsafe {
        E::ref_from_tagged_box(&b, |e| {
            #[cfg(bad)]
            b.as_mut_ref::<String>().clear();
            assert_eq!(*e, E::S("text".into()));
        })
    }
    unsafe { b.as_mut_ref::<String>().push('!') }
    end(b);
    done();
}
