#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let mut b = text();
    let r: &mut String = unsafe { b.as_mut_ref() };
    r.push('a');
    let q: &mut String = unsafe { b.as_mut_ref() };
    q.push('b');
    #[cfg(bad)]
    r.push('c');
    assert_eq!(unsafe { b.as_ref::<String>() }, "textab");
    end(b);
    done();
}
