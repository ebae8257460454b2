#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    fn f(b: &TaggedBox<E>) -> &String {
        unsafe { b.as_ref() }
    }
    #[cfg(bad)]
    fn g() -> &'static String {
        let b = text();
        unsafe { b.as_ref() }
    }
    #[cfg(bad)]
    let _ = g();
    let b = text();
    assert_eq!(f(&b), "text");
    end(b);
    done();
}
