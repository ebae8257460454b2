#![allow(
    unused,
    dropping_references,
    forgetting_copy_types,
    dropping_copy_types
)]
use borrow::*;
fn main() {
    let mut x = 7u32;
    let mut p = TaggedPointer::new(&mut x as *mut u32 as u64, 1);
    #[cfg(bad)]
    let r: &mut u32 = p.as_mut_ref();
    #[cfg(bad)]
    {
        *r = 8;
    }
    let r: &mut u32 = unsafe { p.as_mut_ref() };
    *r = 9;
    done();
}
