#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
#[cfg(bad)]
type Longer<'a> = TaggedBox<B<'static>>;
#[cfg(not(bad))]
type Longer<'a> = TaggedBox<B<'a>>;
fn main() {
    fn f<'a>(b: TaggedBox<B<'a>>) -> Longer<'a> {
        b
    }
    let s = String::from("s");
    #[cfg(bad)]
    let b = f(B::S(&s).into_tagged_box());
    #[cfg(bad)]
    drop(B::from_tagged_box(b));
    let b: TaggedBox<B<'_>> = B::S(&s).into_tagged_box();
    drop(B::from_tagged_box(f2(b)));
    fn f2<'a>(b: TaggedBox<B<'a>>) -> TaggedBox<B<'a>> {
        b
    }
    done();
}
