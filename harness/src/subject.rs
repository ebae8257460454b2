//! What a generated enum has to offer to the drivers.
use crate::Rng;
use std::fmt::{Debug, Display};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

/// (variant index, exact encoding of all fields)
pub type Enc = (usize, Vec<u8>);

/// What is known about a variant's storage
#[derive(Clone, Copy, Debug)]
pub struct Storage {
    /// Sum of the field sizes, and the size of a C struct of the fields: the block's size is between
    pub min: usize,
    pub max: usize,
    pub align: usize,
}

pub trait Subject: 'static {
    type C: TaggableContainer<Inner = Self::I> + From<Self::I>;
    type I: TaggableInner;
    /// Is the container Copy (so that its Clone is a copy)?
    const COPY: bool;
    const NAME: &'static str;
    const CNAME: &'static str;
    const UNIT: &'static [bool];
    const VARIANTS: &'static [&'static str];
    /// Are the container, its box and the enum Copy?
    fn copies() -> [bool; 3];
    fn gen(v: usize, r: &mut Rng) -> Self::I;
    fn enc(i: &Self::I) -> Enc;
    fn toks(i: &Self::I) -> Vec<u32>;
    /// A container made from the payload of variant `v`, with the encoding of that payload
    fn from_payload(v: usize, r: &mut Rng) -> Option<(Self::C, Enc)>;
    fn boxed(c: &Self::C) -> &TaggedBox<Self::I>;
    fn boxed_mut(c: &mut Self::C) -> &mut TaggedBox<Self::I>;
    fn unbox(c: Self::C) -> TaggedBox<Self::I>;
    fn wrap(b: TaggedBox<Self::I>) -> Self::C;
    fn storage(v: usize) -> Storage;
    /// Single-field tuple variants store the field itself: encode / replace it through the box
    fn peek(v: usize, b: &TaggedBox<Self::I>) -> Option<Vec<u8>>;
    fn poke(v: usize, b: &mut TaggedBox<Self::I>, r: &mut Rng) -> Option<Enc>;
    fn into_raw_and_back(v: usize, b: TaggedBox<Self::I>) -> TaggedBox<Self::I>;
    /// Single-field tuple variants: turn the box into a Box, encode what it holds and drop it
    fn into_box_and_drop(v: usize, b: TaggedBox<Self::I>) -> Option<Vec<u8>>;
    fn n() -> usize {
        Self::VARIANTS.len()
    }
}

pub trait Go {
    fn go<S: Subject>(&mut self);
}
pub trait GoFull {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd;
}
pub trait GoOrd {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + Ord,
        S::C: Debug + Clone + Ord;
}
pub trait GoCopy {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Copy + PartialEq + PartialOrd,
        S::C: Debug + Copy + PartialEq + PartialOrd;
}

/// Ways to make a container or box of variant `v`
pub const MAKES: usize = 6;
pub fn make<S: Subject>(v: usize, r: &mut Rng, mode: usize) -> (S::C, Enc, Vec<u32>) {
    if mode == 2 {
        if let Some((c, e)) = S::from_payload(v, r) {
            return (c, e, vec![]);
        }
    }
    let i = S::gen(v, r);
    let e = S::enc(&i);
    let t = S::toks(&i);
    let c = match mode {
        1 => S::wrap(i.into_tagged_box()),
        3 => S::wrap(S::into_raw_and_back(v, i.into_tagged_box())),
        4 => S::C::from(S::C::from(i).into_inner()),
        5 => S::C::from(S::I::from_tagged_box(i.into_tagged_box())),
        _ => S::C::from(i),
    };
    (c, e, t)
}
/// Ways to take the enum out
pub const TAKES: usize = 4;
pub fn take<S: Subject>(v: usize, c: S::C, mode: usize) -> S::I {
    match mode {
        0 => c.into_inner(),
        1 => S::I::from_tagged_box(S::unbox(c)),
        2 => S::I::from_tagged_box(S::into_raw_and_back(v, S::unbox(c))),
        _ => S::wrap(S::unbox(c)).into_inner(),
    }
}
/// The encoding seen through a view; the number of times the callback ran
pub fn view<S: Subject>(c: &S::C) -> (usize, Option<Enc>) {
    let mut e = None;
    let n = std::cell::Cell::new(0);
    unsafe {
        S::I::ref_from_tagged_box(S::boxed(c), |i| {
            n.set(n.get() + 1);
            e = Some(S::enc(i));
        })
    };
    (n.get(), e)
}
pub fn view_toks<S: Subject>(c: &S::C) -> Vec<u32> {
    let mut t = vec![];
    unsafe { S::I::ref_from_tagged_box(S::boxed(c), |i| t = S::toks(i)) };
    t
}
/// The 64-bit word of a container or box
pub fn word<T>(t: &T) -> u64 {
    assert!(std::mem::size_of::<T>() == 8);
    unsafe { std::ptr::read_unaligned(t as *const T as *const u64) }
}
pub fn addr<S: Subject>(c: &S::C) -> usize {
    S::boxed(c).as_ptr::<u8>() as usize
}
/// Short form of an encoding for messages
pub fn show(e: &Enc) -> String {
    if e.1.len() > 48 {
        format!("#{} {:02x?}.. ({} bytes, hash {:x})", e.0, &e.1[..48], e.1.len(), crate::rng::hash(&e.1))
    } else {
        format!("#{} {:02x?}", e.0, e.1)
    }
}

/// Exchange the stored values of two containers of the same variant, as a user could through as_mut_ptr (where the
/// allocator knows how large they are)
pub fn exchange<S: Subject>(a: &mut S::C, b: &mut S::C) -> bool {
    let (p, q) = (S::boxed(a).as_ptr::<u8>() as *mut u8, S::boxed(b).as_ptr::<u8>() as *mut u8);
    assert!(S::boxed(a).discriminant() == S::boxed(b).discriminant());
    if p == q || S::storage(S::boxed(a).discriminant() as usize).min == 0 {
        return false;
    }
    unsafe {
        match (crate::mem::block_at(p as usize), crate::mem::block_at(q as usize)) {
            (Some((n, _)), Some((m, _))) if n == m && n < 1 << 30 => {
                std::ptr::swap_nonoverlapping(p as *mut std::mem::MaybeUninit<u8>, q as *mut std::mem::MaybeUninit<u8>, n);
                true
            }
            _ => false,
        }
    }
}
/// Is a type Copy? (for concrete types only)
#[macro_export]
macro_rules! copies {
    ($t:ty) => {{
        #[allow(dead_code)]
        struct Probe<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            fn is(&self) -> bool {
                false
            }
        }
        impl<T> No for &Probe<T> {}
        #[allow(dead_code)]
        trait Yes {
            fn is(&self) -> bool {
                true
            }
        }
        impl<T: Copy> Yes for Probe<T> {}
        #[allow(clippy::needless_borrow)]
        (&Probe::<$t>(std::marker::PhantomData)).is()
    }};
}
