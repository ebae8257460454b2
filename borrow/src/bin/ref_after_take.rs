#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b = text();
    let r: &String = unsafe { b.as_ref() };
    assert_eq!(r, "text");
    #[cfg(bad)]
    end(b);
    #[cfg(bad)]
    drop(r.clone());
    #[cfg(bad)]
    return;
    end(b);
    done();
}
