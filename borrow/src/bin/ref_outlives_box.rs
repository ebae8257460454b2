#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let s;
    let kept;
    {
        let b = text();
        let r: &String = unsafe { b.as_ref() };
        s = r.clone();
        #[cfg(bad)]
        {
            kept = r;
        }
        #[cfg(not(bad))]
        {
            kept = &s;
        }
        end(b);
    }
    assert_eq!(kept, "text");
    done();
}
