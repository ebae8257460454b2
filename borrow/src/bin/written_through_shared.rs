#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let mut b = text();
    unsafe { b.as_mut_ref::<String>().push('!') }
    let r = &b;
    assert_eq!(r.discriminant(), 0);
    #[cfg(bad)]
    unsafe {
        r.as_mut_ref::<String>().push('?')
    }
    end(b);
    done();
}
