#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let long = String::from("long");
    let b: BC;
    {
        let short = String::from("short");
        #[cfg(bad)]
        {
            b = B::M(vec![&short]).into();
        }
        #[cfg(not(bad))]
        {
            b = B::M(vec![&long]).into();
        }
        #[cfg(not(bad))]
        drop(short);
    }
    assert_eq!(b.into_inner(), B::M(vec![&long]));
    done();
}
