#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
#[cfg(bad)]
type Out<'a> = &'static String;
#[cfg(not(bad))]
type Out<'a> = &'a String;
fn main() {
    let s = String::from("s");
    let p = TaggedPointer::new(&s as *const String as u64, 1);
    fn f<'a>(p: &'a TaggedPointer) -> Out<'a> {
        unsafe { p.as_ref::<String>() }
    }
    assert_eq!(f(&p), "s");
    done();
}
