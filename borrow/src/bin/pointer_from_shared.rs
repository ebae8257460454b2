#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let mut b = text();
    let p = b.as_mut_ptr::<String>();
    unsafe { (*p).push('!') }
    #[cfg(bad)]
    let r = &b;
    #[cfg(bad)]
    let q = r.as_mut_ptr::<String>();
    #[cfg(bad)]
    unsafe {
        (*q).push('?')
    }
    end(b);
    done();
}
