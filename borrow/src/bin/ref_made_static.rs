#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
#[cfg(bad)]
type Out<'a> = &'static String;
#[cfg(not(bad))]
type Out<'a> = &'a String;
fn main() {
    fn f<'a>(b: &'a TaggedBox<E>) -> Out<'a> {
        unsafe { b.as_ref::<String>() }
    }
    let b = text();
    assert_eq!(f(&b), "text");
    end(b);
    done();
}
