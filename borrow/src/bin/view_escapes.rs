#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b = text();
    let mut kept: Option<&E> = None;
    let mut n = 0;
    unsafe {
        E::ref_from_tagged_box(&b, |e| {
            n += format!("{:?}", e).len();
            #[cfg(bad)]
            {
                kept = Some(e);
            }
        })
    }
    assert!(n > 4);
    assert!(kept.is_none());
    kept = Some(&E::U);
    drop(kept);
    end(b);
    done();
}
