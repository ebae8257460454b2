#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let s = String::from("s");
    let b: TaggedBox<E> = TaggedBox::new(s, 0);
    end(b);
    #[cfg(bad)]
    drop(s);
    done();
}
