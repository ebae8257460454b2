#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let mut s = String::from("s");
    let mut p = TaggedPointer::new(&mut s as *mut String as u64, 1);
    let a: &mut String = unsafe { p.as_mut_ref() };
    a.push('a');
    let b: &mut String = unsafe { p.as_mut_ref() };
    b.push('b');
    #[cfg(bad)]
    a.push('c');
    assert_eq!(s, "sab");
    done();
}
