#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let b = text();
    let mut kept: Option<&str> = None;
    let mut own = String::new();
    unsafe {
        E::ref_from_tagged_box(&b, |e| {
            if let E::S(s) = e {
                own.push_str(s);
                #[cfg(bad)]
                {
                    kept = Some(s);
                }
            }
        })
    }
    assert_eq!(own, "text");
    kept = kept.or(Some("k"));
    drop(kept);
    end(b);
    done();
}
