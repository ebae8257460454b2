#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    fn shorten<'a>(b: &'a TaggedBox<B<'static>>) -> &'a TaggedBox<B<'a>> {
        b
    }
    #[cfg(bad)]
    fn lengthen<'a>(b: &'a TaggedBox<B<'a>>) -> &'a TaggedBox<B<'static>> {
        b
    }
    #[cfg(bad)]
    let s = String::from("s");
    #[cfg(bad)]
    let b = B::S(&s).into_tagged_box();
    #[cfg(bad)]
    assert_eq!(lengthen(&b).discriminant(), 0);
    let b: TaggedBox<B<'static>> = B::S("s").into_tagged_box();
    assert_eq!(shorten(&b).discriminant(), 0);
    drop(B::from_tagged_box(b));
    done();
}
