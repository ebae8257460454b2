#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let mut b = text();
    let r: &String = unsafe { b.as_ref() };
    let n = r.len();
    unsafe { b.as_mut_ref::<String>().push('!') }
    #[cfg(bad)]
    drop(r.clone());
    assert_eq!(unsafe { b.as_ref::<String>().len() }, n + 1);
    end(b);
    done();
}
