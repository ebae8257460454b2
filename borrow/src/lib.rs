//! C29: what the probes have in common
pub use tagged_box::{tagged_box, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};

tagged_box! {
    #[derive(Debug, Clone, PartialEq)]
    pub struct C, pub enum E { S(String), N(u8), U, P(String, u16), Q { s: String, n: u64 }, }
}
tagged_box! {
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct CC, pub enum CE { N(u8), U, P(u8, u16), }
}

/// an enum that borrows, implemented by hand
#[derive(Debug, Clone, PartialEq)]
pub enum B<'a> {
    S(&'a str),
    N(u8),
    M(Vec<&'a String>),
}
impl<'a> TaggableInner for B<'a> {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self {
            B::S(s) => TaggedBox::new(s, 0),
            B::N(n) => TaggedBox::new(n, 1),
            B::M(m) => TaggedBox::new(m, 2),
        }
    }
    fn from_tagged_box(t: TaggedBox<Self>) -> Self {
        unsafe {
            match t.discriminant() {
                0 => B::S(*TaggedBox::into_box::<&'a str>(t)),
                1 => B::N(*TaggedBox::into_box::<u8>(t)),
                2 => B::M(*TaggedBox::into_box::<Vec<&'a String>>(t)),
                _ => unreachable!(),
            }
        }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(t: &TaggedBox<Self>, f: F) {
        f(&match t.discriminant() {
            0 => B::S(*t.as_ref::<&'a str>()),
            1 => B::N(*t.as_ref::<u8>()),
            2 => B::M(t.as_ref::<Vec<&'a String>>().clone()),
            _ => unreachable!(),
        })
    }
}
/// a container of it, by hand
#[derive(Debug, Clone, PartialEq)]
pub struct BC<'a> {
    pub value: TaggedBox<B<'a>>,
}
impl<'a> From<B<'a>> for BC<'a> {
    fn from(b: B<'a>) -> Self {
        BC {
            value: b.into_tagged_box(),
        }
    }
}
impl<'a> TaggableContainer for BC<'a> {
    type Inner = B<'a>;
    fn into_inner(self) -> B<'a> {
        B::from_tagged_box(self.value)
    }
}
pub fn text() -> TaggedBox<E> {
    TaggedBox::new(String::from("text"), 0)
}
pub fn end(b: TaggedBox<E>) {
    unsafe { assert!(!TaggedBox::into_box::<String>(b).is_empty()) }
}
/// says that the program came to its end
pub fn done() {
    println!("MONRESULT {{\"evals\": 1, \"distinct\": 1, \"violations\": [], \"samples\": [], \"counters\": {{\"programs run\": 1}}, \"digests\": {{}}}}");
}
