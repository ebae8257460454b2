//! C24: must not compile: each feature asks for a constant beyond the limit (see check.py)
use tagged_box::discriminant::*;
use tagged_box::*;
fn main() {}
#[cfg(mon_x = "pointer")]
const X: TaggedPointer = TaggedPointer::dangling::<u64>(MAX_DISCRIMINANT + 1);
#[cfg(mon_x = "box")]
const X: TaggedBox<u8> = TaggedBox::dangling::<u64>(MAX_DISCRIMINANT + 1);
#[cfg(mon_x = "static")]
static X: TaggedBox<u8> = TaggedBox::dangling::<()>(Discriminant::MAX);
// and these do
#[cfg(mon_x = "good")]
pub const X: TaggedBox<u8> = TaggedBox::dangling::<u64>(MAX_DISCRIMINANT);
