#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let long = String::from("long");
    let b;
    {
        let short = String::from("short");
        #[cfg(bad)]
        {
            b = B::S(&short).into_tagged_box();
        }
        #[cfg(not(bad))]
        {
            b = B::S(&long).into_tagged_box();
        }
        #[cfg(not(bad))]
        drop(short);
    }
    assert_eq!(b.clone(), B::S("long").into_tagged_box());
    drop(B::from_tagged_box(b));
    done();
}
