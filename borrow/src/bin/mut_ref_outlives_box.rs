#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let mut s = String::new();
    let kept;
    {
        let mut b = text();
        let r: &mut String = unsafe { b.as_mut_ref() };
        s.push_str(r);
        #[cfg(bad)]
        {
            kept = r;
        }
        #[cfg(not(bad))]
        {
            kept = &mut s;
        }
        end(b);
    }
    kept.push('x');
    done();
}
