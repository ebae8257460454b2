// C21: one program, included by a binary with the standard library and by one without: it may use
// core and alloc only. What it observes goes to `out`, line by line.
extern crate alloc;
use alloc::{borrow::ToOwned, boxed::Box, collections::BTreeMap, format, rc::Rc, string::String, sync::Arc, vec, vec::Vec};
use core::cmp::Ordering;
use core::fmt::{self, Debug, Display, Write};
use core::hash::{Hash, Hasher};
use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use tagged_box::discriminant::*;
use tagged_box::{tagged_box, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};

pub static DROPS: AtomicUsize = AtomicUsize::new(0);
/// counts its destructions
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Tok(u32);
impl Drop for Tok {
    fn drop(&mut self) {
        DROPS.fetch_add(1, SeqCst);
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(64))]
pub struct Wide(u8);

tagged_box! {
    /// every arm of the macro
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Shapes, pub enum Shape {
        Unit,
        One(u32),
        Text(String),
        Token(Tok),
        Empty(),
        Pair(u8, u64),
        Three(Tok, u8, String),
        Arr([u16; 5]),
        Broad(u8, Wide, u16),
        List(Vec<Tok>),
        Named { a: u8, b: Tok, c: u64 },
        Trailing { x: String, y: Option<char>, },
        Boxed(Box<u64>),
        Last,
    }
}
tagged_box! {
    #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
    struct Small, enum SmallKind { A(f32), B(u8, f64, bool), C0 { n: i16 }, D, E(Option<bool>), }
}
tagged_box! {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub(crate) struct Arities, pub(crate) enum Arity {
        A4(u8, u16, u32, u64),
        A7(u64, u8, u32, u8, u16, u8, String),
        A12(u8, u16, u8, u32, u8, u64, u8, u16, u8, u32, u8, u64),
        A17(u64, u8, u8, u8, u8, u32, u8, u8, u8, u8, u16, u8, u8, u8, u8, u8, Tok),
        A24(u8, u8, u64, u8, u8, u8, u8, u8, u16, u8, u8, u8, u8, u8, u8, u8, u32, u8, u8, u8, u8, u8, u8, u128),
        A32(u8, u8, u64, u8, u8, u8, u8, u8, u16, u8, u8, u8, u8, u8, u8, u8, u32, u8, u8, u8, u8, u8, u8, u128, u8, bool, u8, u8, u8, char, u8, Rc<u8>),
    }
}
tagged_box! { struct Bare, enum BareKind { A(Arc<u8>), B { t: Tok, }, C0, } }

impl Display for Shape {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Shape::Text(s) => f.pad(s),
            Shape::One(n) => Display::fmt(n, f),
            x => write!(f, "<{:?}>", x),
        }
    }
}
pub struct Rng(u64);
impl Rng {
    fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn text(&mut self) -> String {
        let n = self.u() % 9;
        (0..n).map(|_| (b'a' + (self.u() % 26) as u8) as char).collect()
    }
    fn tok(&mut self) -> Tok {
        Tok(self.u() as u32 % 10)
    }
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for b in b {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3)
        }
    }
}
fn shape(k: u64, r: &mut Rng) -> Shape {
    match k % 14 {
        0 => Shape::Unit,
        1 => Shape::One(r.u() as u32),
        2 => Shape::Text(r.text()),
        3 => Shape::Token(r.tok()),
        4 => Shape::Empty(),
        5 => Shape::Pair(r.u() as u8, r.u()),
        6 => Shape::Three(r.tok(), r.u() as u8, r.text()),
        7 => Shape::Arr([r.u() as u16; 5]),
        8 => Shape::Broad(r.u() as u8, Wide(r.u() as u8), 7),
        9 => Shape::List((0..r.u() % 4).map(|_| r.tok()).collect()),
        10 => Shape::Named { a: r.u() as u8, b: r.tok(), c: r.u() },
        11 => Shape::Trailing { x: r.text(), y: char::from_u32(r.u() as u32 & 0xffff) },
        12 => Shape::Boxed(Box::new(r.u())),
        _ => Shape::Last,
    }
}
fn from_payload(k: u64, r: &mut Rng) -> Option<Shapes> {
    Some(match shape(k, r) {
        Shape::One(x) => x.into(),
        Shape::Text(x) => x.into(),
        Shape::Token(_) => Shapes::from(r.tok()),
        Shape::Empty() => ().into(),
        Shape::Pair(a, b) => (a, b).into(),
        Shape::Arr(a) => a.into(),
        Shape::Broad(a, b, c) => (a, b, c).into(),
        Shape::List(v) => v.into(),
        Shape::Boxed(b) => b.into(),
        _ => return None,
    })
}
fn arity(k: u64, r: &mut Rng) -> Arity {
    macro_rules! b { () => { r.u() as u8 } }
    match k % 6 {
        0 => Arity::A4(b!(), r.u() as u16, r.u() as u32, r.u()),
        1 => Arity::A7(r.u(), b!(), r.u() as u32, b!(), r.u() as u16, b!(), r.text()),
        2 => Arity::A12(b!(), r.u() as u16, b!(), r.u() as u32, b!(), r.u(), b!(), r.u() as u16, b!(), r.u() as u32, b!(), r.u()),
        3 => Arity::A17(r.u(), b!(), b!(), b!(), b!(), r.u() as u32, b!(), b!(), b!(), b!(), r.u() as u16, b!(), b!(), b!(), b!(), b!(), r.tok()),
        4 => Arity::A24(b!(), b!(), r.u(), b!(), b!(), b!(), b!(), b!(), r.u() as u16, b!(), b!(), b!(), b!(), b!(), b!(), b!(), r.u() as u32, b!(), b!(), b!(), b!(), b!(), b!(), r.u() as u128 * 3),
        _ => Arity::A32(b!(), b!(), r.u(), b!(), b!(), b!(), b!(), b!(), r.u() as u16, b!(), b!(), b!(), b!(), b!(), b!(), b!(), r.u() as u32, b!(), b!(), b!(), b!(), b!(), b!(), r.u() as u128 * 5,
                        b!(), r.u() & 1 == 1, b!(), b!(), b!(), (b'a' + b!() % 26) as char, b!(), Rc::new(b!())),
    }
}
// every number of fields, as tuples and by name; no variant has the fields of another
// (made by a script)
tagged_box! {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct LowerBox, pub enum Lower {
        T2(u64, u16),
        T3(char, u16, Tok),
        T4(Tok, char, char, u64),
        T5(Tok, u32, bool, u8, char),
        T6(u8, u8, u16, Tok, bool, u8),
        T7(u64, u8, u64, Tok, u8, char, u8),
        T8(u16, Tok, bool, bool, u32, u8, bool, bool),
        T9(u8, u64, u64, Tok, u8, u8, u8, bool, u8),
        T10(bool, u8, u8, Tok, u8, u16, u16, u8, u64, char),
        T11(u8, Tok, u8, u32, u16, u8, u16, u32, u8, u8, u16),
        T12(u16, u16, bool, u64, u64, Tok, u64, char, char, u16, u8, u16),
    }
}
fn lower(k: u64, r: &mut Rng) -> Lower {
    match k % 11 {
        0 => Lower::T2(r.u(), r.u() as u16),
        1 => Lower::T3((b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.tok()),
        2 => Lower::T4(r.tok(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u()),
        3 => Lower::T5(r.tok(), r.u() as u32, r.u() & 1 == 1, r.u() as u8, (b'a' + r.u() as u8 % 26) as char),
        4 => Lower::T6(r.u() as u8, r.u() as u8, r.u() as u16, r.tok(), r.u() & 1 == 1, r.u() as u8),
        5 => Lower::T7(r.u(), r.u() as u8, r.u(), r.tok(), r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() as u8),
        6 => Lower::T8(r.u() as u16, r.tok(), r.u() & 1 == 1, r.u() & 1 == 1, r.u() as u32, r.u() as u8, r.u() & 1 == 1, r.u() & 1 == 1),
        7 => Lower::T9(r.u() as u8, r.u(), r.u(), r.tok(), r.u() as u8, r.u() as u8, r.u() as u8, r.u() & 1 == 1, r.u() as u8),
        8 => Lower::T10(r.u() & 1 == 1, r.u() as u8, r.u() as u8, r.tok(), r.u() as u8, r.u() as u16, r.u() as u16, r.u() as u8, r.u(), (b'a' + r.u() as u8 % 26) as char),
        9 => Lower::T11(r.u() as u8, r.tok(), r.u() as u8, r.u() as u32, r.u() as u16, r.u() as u8, r.u() as u16, r.u() as u32, r.u() as u8, r.u() as u8, r.u() as u16),
        _ => Lower::T12(r.u() as u16, r.u() as u16, r.u() & 1 == 1, r.u(), r.u(), r.tok(), r.u(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u8, r.u() as u16),
    }
}
fn lower_payload(k: u64, r: &mut Rng) -> LowerBox {
    match k % 11 {
        0 => LowerBox::from((r.u(), r.u() as u16)),
        1 => LowerBox::from(((b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.tok())),
        2 => LowerBox::from((r.tok(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u())),
        3 => LowerBox::from((r.tok(), r.u() as u32, r.u() & 1 == 1, r.u() as u8, (b'a' + r.u() as u8 % 26) as char)),
        4 => LowerBox::from((r.u() as u8, r.u() as u8, r.u() as u16, r.tok(), r.u() & 1 == 1, r.u() as u8)),
        5 => LowerBox::from((r.u(), r.u() as u8, r.u(), r.tok(), r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() as u8)),
        6 => LowerBox::from((r.u() as u16, r.tok(), r.u() & 1 == 1, r.u() & 1 == 1, r.u() as u32, r.u() as u8, r.u() & 1 == 1, r.u() & 1 == 1)),
        7 => LowerBox::from((r.u() as u8, r.u(), r.u(), r.tok(), r.u() as u8, r.u() as u8, r.u() as u8, r.u() & 1 == 1, r.u() as u8)),
        8 => LowerBox::from((r.u() & 1 == 1, r.u() as u8, r.u() as u8, r.tok(), r.u() as u8, r.u() as u16, r.u() as u16, r.u() as u8, r.u(), (b'a' + r.u() as u8 % 26) as char)),
        9 => LowerBox::from((r.u() as u8, r.tok(), r.u() as u8, r.u() as u32, r.u() as u16, r.u() as u8, r.u() as u16, r.u() as u32, r.u() as u8, r.u() as u8, r.u() as u16)),
        _ => LowerBox::from((r.u() as u16, r.u() as u16, r.u() & 1 == 1, r.u(), r.u(), r.tok(), r.u(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u8, r.u() as u16)),
    }
}
tagged_box! {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct MiddleBox, pub enum Middle {
        T13(bool, u16, u32, char, u16, u8, u32, u32, char, u8, u8, Tok, u8),
        T14(u16, bool, u32, u8, u64, bool, u32, u16, u32, u64, bool, Tok, u32, u8),
        T15(u8, Tok, u8, u8, bool, u8, bool, u32, u16, u64, u16, u64, u16, bool, u32),
        T16(u64, char, bool, bool, u16, bool, u16, u8, u32, u8, Tok, u16, u64, u64, u16, u8),
        T17(u16, char, u64, u8, u16, Tok, u16, u16, u8, bool, u8, char, u8, char, char, u16, u32),
        T18(char, Tok, u8, u64, u64, u32, u8, u8, char, u64, u16, bool, u16, u32, char, u32, u8, u8),
        T19(bool, u32, u16, bool, u8, u8, char, u64, u8, char, bool, u32, u8, Tok, u32, u16, u8, u8, bool),
        T20(u16, u8, u32, u64, bool, u8, u64, u32, u32, char, char, u16, u32, u16, u16, u32, u32, Tok, u8, u32),
        T21(u8, char, u32, bool, u16, u8, u8, u32, u16, u64, bool, u64, bool, u64, u16, u8, bool, bool, Tok, u16, char),
        T22(char, u8, bool, u16, u16, u64, char, char, u16, bool, u32, u16, bool, char, char, Tok, u16, char, u8, u64, bool, u8),
    }
}
fn middle(k: u64, r: &mut Rng) -> Middle {
    match k % 10 {
        0 => Middle::T13(r.u() & 1 == 1, r.u() as u16, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u8, r.u() as u32, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u8, r.tok(), r.u() as u8),
        1 => Middle::T14(r.u() as u16, r.u() & 1 == 1, r.u() as u32, r.u() as u8, r.u(), r.u() & 1 == 1, r.u() as u32, r.u() as u16, r.u() as u32, r.u(), r.u() & 1 == 1, r.tok(), r.u() as u32, r.u() as u8),
        2 => Middle::T15(r.u() as u8, r.tok(), r.u() as u8, r.u() as u8, r.u() & 1 == 1, r.u() as u8, r.u() & 1 == 1, r.u() as u32, r.u() as u16, r.u(), r.u() as u16, r.u(), r.u() as u16, r.u() & 1 == 1, r.u() as u32),
        3 => Middle::T16(r.u(), (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u() & 1 == 1, r.u() as u16, r.u() & 1 == 1, r.u() as u16, r.u() as u8, r.u() as u32, r.u() as u8, r.tok(), r.u() as u16, r.u(), r.u(), r.u() as u16, r.u() as u8),
        4 => Middle::T17(r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u8, r.u() as u16, r.tok(), r.u() as u16, r.u() as u16, r.u() as u8, r.u() & 1 == 1, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u32),
        5 => Middle::T18((b'a' + r.u() as u8 % 26) as char, r.tok(), r.u() as u8, r.u(), r.u(), r.u() as u32, r.u() as u8, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u16, r.u() & 1 == 1, r.u() as u16, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() as u8, r.u() as u8),
        6 => Middle::T19(r.u() & 1 == 1, r.u() as u32, r.u() as u16, r.u() & 1 == 1, r.u() as u8, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u() as u32, r.u() as u8, r.tok(), r.u() as u32, r.u() as u16, r.u() as u8, r.u() as u8, r.u() & 1 == 1),
        7 => Middle::T20(r.u() as u16, r.u() as u8, r.u() as u32, r.u(), r.u() & 1 == 1, r.u() as u8, r.u(), r.u() as u32, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u32, r.u() as u16, r.u() as u16, r.u() as u32, r.u() as u32, r.tok(), r.u() as u8, r.u() as u32),
        8 => Middle::T21(r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() & 1 == 1, r.u() as u16, r.u() as u8, r.u() as u8, r.u() as u32, r.u() as u16, r.u(), r.u() & 1 == 1, r.u(), r.u() & 1 == 1, r.u(), r.u() as u16, r.u() as u8, r.u() & 1 == 1, r.u() & 1 == 1, r.tok(), r.u() as u16, (b'a' + r.u() as u8 % 26) as char),
        _ => Middle::T22((b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() & 1 == 1, r.u() as u16, r.u() as u16, r.u(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() & 1 == 1, r.u() as u32, r.u() as u16, r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.tok(), r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u(), r.u() & 1 == 1, r.u() as u8),
    }
}
fn middle_payload(k: u64, r: &mut Rng) -> MiddleBox {
    match k % 10 {
        0 => MiddleBox::from((r.u() & 1 == 1, r.u() as u16, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u8, r.u() as u32, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u8, r.tok(), r.u() as u8)),
        1 => MiddleBox::from((r.u() as u16, r.u() & 1 == 1, r.u() as u32, r.u() as u8, r.u(), r.u() & 1 == 1, r.u() as u32, r.u() as u16, r.u() as u32, r.u(), r.u() & 1 == 1, r.tok(), r.u() as u32, r.u() as u8)),
        2 => MiddleBox::from((r.u() as u8, r.tok(), r.u() as u8, r.u() as u8, r.u() & 1 == 1, r.u() as u8, r.u() & 1 == 1, r.u() as u32, r.u() as u16, r.u(), r.u() as u16, r.u(), r.u() as u16, r.u() & 1 == 1, r.u() as u32)),
        3 => MiddleBox::from((r.u(), (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u() & 1 == 1, r.u() as u16, r.u() & 1 == 1, r.u() as u16, r.u() as u8, r.u() as u32, r.u() as u8, r.tok(), r.u() as u16, r.u(), r.u(), r.u() as u16, r.u() as u8)),
        4 => MiddleBox::from((r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u8, r.u() as u16, r.tok(), r.u() as u16, r.u() as u16, r.u() as u8, r.u() & 1 == 1, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u32)),
        5 => MiddleBox::from(((b'a' + r.u() as u8 % 26) as char, r.tok(), r.u() as u8, r.u(), r.u(), r.u() as u32, r.u() as u8, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u16, r.u() & 1 == 1, r.u() as u16, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() as u8, r.u() as u8)),
        6 => MiddleBox::from((r.u() & 1 == 1, r.u() as u32, r.u() as u16, r.u() & 1 == 1, r.u() as u8, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u() as u32, r.u() as u8, r.tok(), r.u() as u32, r.u() as u16, r.u() as u8, r.u() as u8, r.u() & 1 == 1)),
        7 => MiddleBox::from((r.u() as u16, r.u() as u8, r.u() as u32, r.u(), r.u() & 1 == 1, r.u() as u8, r.u(), r.u() as u32, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u32, r.u() as u16, r.u() as u16, r.u() as u32, r.u() as u32, r.tok(), r.u() as u8, r.u() as u32)),
        8 => MiddleBox::from((r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() & 1 == 1, r.u() as u16, r.u() as u8, r.u() as u8, r.u() as u32, r.u() as u16, r.u(), r.u() & 1 == 1, r.u(), r.u() & 1 == 1, r.u(), r.u() as u16, r.u() as u8, r.u() & 1 == 1, r.u() & 1 == 1, r.tok(), r.u() as u16, (b'a' + r.u() as u8 % 26) as char)),
        _ => MiddleBox::from(((b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() & 1 == 1, r.u() as u16, r.u() as u16, r.u(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() & 1 == 1, r.u() as u32, r.u() as u16, r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.tok(), r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u(), r.u() & 1 == 1, r.u() as u8)),
    }
}
tagged_box! {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct UpperBox, pub enum Upper {
        T23(u64, bool, u16, u16, char, Tok, u32, u16, bool, u64, char, char, bool, u16, u16, u16, char, u16, char, bool, u32, u16, bool),
        T24(bool, bool, char, u32, u16, u16, u64, u8, u64, u8, u8, bool, u16, bool, u32, u16, char, u8, Tok, char, char, u32, u8, u64),
        T25(u64, Tok, u32, u16, u64, u64, bool, bool, char, u16, char, u8, u8, u8, u64, u32, u64, char, u8, u8, bool, char, u8, char, char),
        T26(u32, u8, u8, u8, u8, u8, u16, u8, u32, u8, u64, u8, Tok, u32, u16, u32, char, u64, u8, u64, u8, u8, char, u16, u8, u16),
        T27(u16, bool, u32, bool, u8, char, bool, u64, u16, u8, u64, u64, u16, u8, u16, u64, u64, u16, u64, u16, Tok, bool, u8, u32, u32, bool, u64),
        T28(u64, u16, u32, u8, u8, u64, u32, u64, u32, u8, u8, u64, u8, Tok, bool, char, u8, u32, u8, u16, u64, u64, u64, u8, u16, char, u64, u32),
        T29(u32, u8, u32, u16, u32, char, u32, u32, bool, u8, u64, u64, u16, char, Tok, u32, u16, u32, u8, u16, u16, u32, u16, u8, u32, u8, u8, char, u64),
        T30(u8, u16, u8, bool, u8, bool, u32, u8, u32, u64, u64, u16, u8, u32, bool, u8, u8, u32, u16, Tok, u8, char, u16, u16, u32, u64, u32, u64, char, bool),
        T31(char, u8, u8, bool, u8, u16, u16, u64, char, u16, u64, u16, char, u64, u8, u32, u16, Tok, char, char, bool, u64, u8, u8, u8, u16, u64, u32, char, u8, char),
        T32(u8, u8, u32, bool, bool, u32, u64, u64, char, char, char, char, u32, bool, bool, u32, u32, u32, char, bool, char, u8, u16, u32, bool, bool, u8, Tok, bool, u8, char, bool),
    }
}
fn upper(k: u64, r: &mut Rng) -> Upper {
    match k % 10 {
        0 => Upper::T23(r.u(), r.u() & 1 == 1, r.u() as u16, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.tok(), r.u() as u32, r.u() as u16, r.u() & 1 == 1, r.u(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u() as u16, r.u() as u16, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u() as u32, r.u() as u16, r.u() & 1 == 1),
        1 => Upper::T24(r.u() & 1 == 1, r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() as u16, r.u() as u16, r.u(), r.u() as u8, r.u(), r.u() as u8, r.u() as u8, r.u() & 1 == 1, r.u() as u16, r.u() & 1 == 1, r.u() as u32, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.tok(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() as u8, r.u()),
        2 => Upper::T25(r.u(), r.tok(), r.u() as u32, r.u() as u16, r.u(), r.u(), r.u() & 1 == 1, r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u8, r.u() as u8, r.u(), r.u() as u32, r.u(), (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u8, r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char),
        3 => Upper::T26(r.u() as u32, r.u() as u8, r.u() as u8, r.u() as u8, r.u() as u8, r.u() as u8, r.u() as u16, r.u() as u8, r.u() as u32, r.u() as u8, r.u(), r.u() as u8, r.tok(), r.u() as u32, r.u() as u16, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u8, r.u(), r.u() as u8, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u8, r.u() as u16),
        4 => Upper::T27(r.u() as u16, r.u() & 1 == 1, r.u() as u32, r.u() & 1 == 1, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u(), r.u() as u16, r.u() as u8, r.u(), r.u(), r.u() as u16, r.u() as u8, r.u() as u16, r.u(), r.u(), r.u() as u16, r.u(), r.u() as u16, r.tok(), r.u() & 1 == 1, r.u() as u8, r.u() as u32, r.u() as u32, r.u() & 1 == 1, r.u()),
        5 => Upper::T28(r.u(), r.u() as u16, r.u() as u32, r.u() as u8, r.u() as u8, r.u(), r.u() as u32, r.u(), r.u() as u32, r.u() as u8, r.u() as u8, r.u(), r.u() as u8, r.tok(), r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u32, r.u() as u8, r.u() as u16, r.u(), r.u(), r.u(), r.u() as u8, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u32),
        6 => Upper::T29(r.u() as u32, r.u() as u8, r.u() as u32, r.u() as u16, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() as u32, r.u() & 1 == 1, r.u() as u8, r.u(), r.u(), r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.tok(), r.u() as u32, r.u() as u16, r.u() as u32, r.u() as u8, r.u() as u16, r.u() as u16, r.u() as u32, r.u() as u16, r.u() as u8, r.u() as u32, r.u() as u8, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u()),
        7 => Upper::T30(r.u() as u8, r.u() as u16, r.u() as u8, r.u() & 1 == 1, r.u() as u8, r.u() & 1 == 1, r.u() as u32, r.u() as u8, r.u() as u32, r.u(), r.u(), r.u() as u16, r.u() as u8, r.u() as u32, r.u() & 1 == 1, r.u() as u8, r.u() as u8, r.u() as u32, r.u() as u16, r.tok(), r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u16, r.u() as u32, r.u(), r.u() as u32, r.u(), (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1),
        8 => Upper::T31((b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u8, r.u() & 1 == 1, r.u() as u8, r.u() as u16, r.u() as u16, r.u(), (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u(), r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u8, r.u() as u32, r.u() as u16, r.tok(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u(), r.u() as u8, r.u() as u8, r.u() as u8, r.u() as u16, r.u(), r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, (b'a' + r.u() as u8 % 26) as char),
        _ => Upper::T32(r.u() as u8, r.u() as u8, r.u() as u32, r.u() & 1 == 1, r.u() & 1 == 1, r.u() as u32, r.u(), r.u(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() & 1 == 1, r.u() & 1 == 1, r.u() as u32, r.u() as u32, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u16, r.u() as u32, r.u() & 1 == 1, r.u() & 1 == 1, r.u() as u8, r.tok(), r.u() & 1 == 1, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1),
    }
}
fn upper_payload(k: u64, r: &mut Rng) -> UpperBox {
    match k % 10 {
        0 => UpperBox::from((r.u(), r.u() & 1 == 1, r.u() as u16, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.tok(), r.u() as u32, r.u() as u16, r.u() & 1 == 1, r.u(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u() as u16, r.u() as u16, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u() as u32, r.u() as u16, r.u() & 1 == 1)),
        1 => UpperBox::from((r.u() & 1 == 1, r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() as u16, r.u() as u16, r.u(), r.u() as u8, r.u(), r.u() as u8, r.u() as u8, r.u() & 1 == 1, r.u() as u16, r.u() & 1 == 1, r.u() as u32, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.tok(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() as u8, r.u())),
        2 => UpperBox::from((r.u(), r.tok(), r.u() as u32, r.u() as u16, r.u(), r.u(), r.u() & 1 == 1, r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u8, r.u() as u8, r.u(), r.u() as u32, r.u(), (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u8, r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char)),
        3 => UpperBox::from((r.u() as u32, r.u() as u8, r.u() as u8, r.u() as u8, r.u() as u8, r.u() as u8, r.u() as u16, r.u() as u8, r.u() as u32, r.u() as u8, r.u(), r.u() as u8, r.tok(), r.u() as u32, r.u() as u16, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u8, r.u(), r.u() as u8, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u8, r.u() as u16)),
        4 => UpperBox::from((r.u() as u16, r.u() & 1 == 1, r.u() as u32, r.u() & 1 == 1, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u(), r.u() as u16, r.u() as u8, r.u(), r.u(), r.u() as u16, r.u() as u8, r.u() as u16, r.u(), r.u(), r.u() as u16, r.u(), r.u() as u16, r.tok(), r.u() & 1 == 1, r.u() as u8, r.u() as u32, r.u() as u32, r.u() & 1 == 1, r.u())),
        5 => UpperBox::from((r.u(), r.u() as u16, r.u() as u32, r.u() as u8, r.u() as u8, r.u(), r.u() as u32, r.u(), r.u() as u32, r.u() as u8, r.u() as u8, r.u(), r.u() as u8, r.tok(), r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u32, r.u() as u8, r.u() as u16, r.u(), r.u(), r.u(), r.u() as u8, r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u32)),
        6 => UpperBox::from((r.u() as u32, r.u() as u8, r.u() as u32, r.u() as u16, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() as u32, r.u() & 1 == 1, r.u() as u8, r.u(), r.u(), r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.tok(), r.u() as u32, r.u() as u16, r.u() as u32, r.u() as u8, r.u() as u16, r.u() as u16, r.u() as u32, r.u() as u16, r.u() as u8, r.u() as u32, r.u() as u8, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u())),
        7 => UpperBox::from((r.u() as u8, r.u() as u16, r.u() as u8, r.u() & 1 == 1, r.u() as u8, r.u() & 1 == 1, r.u() as u32, r.u() as u8, r.u() as u32, r.u(), r.u(), r.u() as u16, r.u() as u8, r.u() as u32, r.u() & 1 == 1, r.u() as u8, r.u() as u8, r.u() as u32, r.u() as u16, r.tok(), r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u() as u16, r.u() as u32, r.u(), r.u() as u32, r.u(), (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1)),
        8 => UpperBox::from(((b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u8, r.u() & 1 == 1, r.u() as u8, r.u() as u16, r.u() as u16, r.u(), (b'a' + r.u() as u8 % 26) as char, r.u() as u16, r.u(), r.u() as u16, (b'a' + r.u() as u8 % 26) as char, r.u(), r.u() as u8, r.u() as u32, r.u() as u16, r.tok(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, r.u(), r.u() as u8, r.u() as u8, r.u() as u8, r.u() as u16, r.u(), r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, (b'a' + r.u() as u8 % 26) as char)),
        _ => UpperBox::from((r.u() as u8, r.u() as u8, r.u() as u32, r.u() & 1 == 1, r.u() & 1 == 1, r.u() as u32, r.u(), r.u(), (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, (b'a' + r.u() as u8 % 26) as char, r.u() as u32, r.u() & 1 == 1, r.u() & 1 == 1, r.u() as u32, r.u() as u32, r.u() as u32, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1, (b'a' + r.u() as u8 % 26) as char, r.u() as u8, r.u() as u16, r.u() as u32, r.u() & 1 == 1, r.u() & 1 == 1, r.u() as u8, r.tok(), r.u() & 1 == 1, r.u() as u8, (b'a' + r.u() as u8 % 26) as char, r.u() & 1 == 1)),
    }
}
tagged_box! {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct FieldsBox, pub enum Fields {
        S0 { f0: u64 },
        S1 { f0: Tok, },
        S2 { f0: u64, f1: u16 },
        S3 { f0: u16, f1: Tok, },
        S4 { f0: Tok, f1: u64, f2: u16 },
        S5 { f0: Tok, f1: u8, f2: u8, },
        S6 { f0: u16, f1: u64, f2: u8, f3: u8, f4: u8 },
        S7 { f0: u64, f1: Tok, f2: u8, f3: Tok, f4: Tok, },
        S8 { f0: u8, f1: u8, f2: u8, f3: u16, f4: u8, f5: u16, f6: u64, f7: Tok, f8: u16 },
        S9 { f0: u16, f1: u16, f2: Tok, f3: u16, f4: u8, f5: u16, f6: u8, f7: u8, f8: Tok, },
        S10 { f0: u8, f1: u64, f2: u8, f3: u8, f4: Tok, f5: u16, f6: u8, f7: Tok, f8: u8, f9: u64, f10: Tok, f11: Tok, f12: u64, f13: u64, f14: u8, f15: u16, f16: u64, f17: u16, f18: u64, f19: u16, f20: u64, f21: u8, f22: u16, f23: u64, f24: u64, f25: u16, f26: u16, f27: u64, f28: Tok, f29: Tok, f30: u16, f31: u16, f32: u8 },
        S11 { f0: u64, f1: u8, f2: u8, f3: u8, f4: u8, f5: Tok, f6: u16, f7: Tok, f8: Tok, f9: Tok, f10: u64, f11: u8, f12: u8, f13: Tok, f14: u8, f15: u16, f16: Tok, f17: u16, f18: u8, f19: u8, f20: Tok, f21: u16, f22: u16, f23: Tok, f24: u64, f25: u16, f26: u64, f27: u64, f28: u64, f29: Tok, f30: Tok, f31: u16, f32: u64, f33: u64, },
        U,
    }
}
fn fields(k: u64, r: &mut Rng) -> Fields {
    match k % 13 {
        0 => Fields::S0 { f0: r.u() },
        1 => Fields::S1 { f0: r.tok() },
        2 => Fields::S2 { f0: r.u(), f1: r.u() as u16 },
        3 => Fields::S3 { f0: r.u() as u16, f1: r.tok() },
        4 => Fields::S4 { f0: r.tok(), f1: r.u(), f2: r.u() as u16 },
        5 => Fields::S5 { f0: r.tok(), f1: r.u() as u8, f2: r.u() as u8 },
        6 => Fields::S6 { f0: r.u() as u16, f1: r.u(), f2: r.u() as u8, f3: r.u() as u8, f4: r.u() as u8 },
        7 => Fields::S7 { f0: r.u(), f1: r.tok(), f2: r.u() as u8, f3: r.tok(), f4: r.tok() },
        8 => Fields::S8 { f0: r.u() as u8, f1: r.u() as u8, f2: r.u() as u8, f3: r.u() as u16, f4: r.u() as u8, f5: r.u() as u16, f6: r.u(), f7: r.tok(), f8: r.u() as u16 },
        9 => Fields::S9 { f0: r.u() as u16, f1: r.u() as u16, f2: r.tok(), f3: r.u() as u16, f4: r.u() as u8, f5: r.u() as u16, f6: r.u() as u8, f7: r.u() as u8, f8: r.tok() },
        10 => Fields::S10 { f0: r.u() as u8, f1: r.u(), f2: r.u() as u8, f3: r.u() as u8, f4: r.tok(), f5: r.u() as u16, f6: r.u() as u8, f7: r.tok(), f8: r.u() as u8, f9: r.u(), f10: r.tok(), f11: r.tok(), f12: r.u(), f13: r.u(), f14: r.u() as u8, f15: r.u() as u16, f16: r.u(), f17: r.u() as u16, f18: r.u(), f19: r.u() as u16, f20: r.u(), f21: r.u() as u8, f22: r.u() as u16, f23: r.u(), f24: r.u(), f25: r.u() as u16, f26: r.u() as u16, f27: r.u(), f28: r.tok(), f29: r.tok(), f30: r.u() as u16, f31: r.u() as u16, f32: r.u() as u8 },
        11 => Fields::S11 { f0: r.u(), f1: r.u() as u8, f2: r.u() as u8, f3: r.u() as u8, f4: r.u() as u8, f5: r.tok(), f6: r.u() as u16, f7: r.tok(), f8: r.tok(), f9: r.tok(), f10: r.u(), f11: r.u() as u8, f12: r.u() as u8, f13: r.tok(), f14: r.u() as u8, f15: r.u() as u16, f16: r.tok(), f17: r.u() as u16, f18: r.u() as u8, f19: r.u() as u8, f20: r.tok(), f21: r.u() as u16, f22: r.u() as u16, f23: r.tok(), f24: r.u(), f25: r.u() as u16, f26: r.u(), f27: r.u(), f28: r.u(), f29: r.tok(), f30: r.tok(), f31: r.u() as u16, f32: r.u(), f33: r.u() },
        _ => Fields::U,
    }
}
fn every_arity(r: &mut Rng, out: &mut dyn FnMut(&str)) {
    let mut s = String::new();
    macro_rules! say { ($($t:tt)*) => {{ s.clear(); let _ = write!(s, $($t)*); out(&s); }} }
    macro_rules! each {
        ($($n:literal $f:ident $c:ident $e:ident;)*) => {$(
            for k in 0..$n {
                let (x, y) = ($f(k, r), $f(r.u(), r));
                let c = $c::from(x.clone());
                let d = c.clone();
                say!("{} {:?} {:?} {:?}", stringify!($e), c.value.discriminant(), c, c.value);
                let z = y.clone().into_tagged_box();
                say!("{} {} {:?} {:?}", c == d, c.value == z, c.value.partial_cmp(&z), c.value.cmp(&z));
                unsafe { $e::ref_from_tagged_box(&z, |v| say!("{} {}", *v == y, *v == x)) }
                say!("{} {}", $e::from_tagged_box(z) == y, d.into_inner() == x);
                say!("{}", drops(|| drop(c.into_inner())));
            }
        )*};
    }
    each! { 11 lower LowerBox Lower; 10 middle MiddleBox Middle; 10 upper UpperBox Upper; 13 fields FieldsBox Fields; }
    for k in 0..11 {
        let (a, b, c) = (lower_payload(k, r), middle_payload(k, r), upper_payload(k, r));
        say!("{:?} {:?} {:?}", a, b, c);
        say!("{}", drops(|| drop((a.into_inner(), b.into_inner(), c.into_inner()))));
    }
}
fn drops(f: impl FnOnce()) -> usize {
    let n = DROPS.load(SeqCst);
    f();
    DROPS.load(SeqCst) - n
}
/// An enum with hand-written implementations
#[derive(Debug, Clone, PartialEq)]
enum Hand {
    Int(i32),
    Str(String),
}
impl TaggableInner for Hand {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self {
            Hand::Int(i) => TaggedBox::new(i, 1),
            Hand::Str(s) => TaggedBox::new(s, 0),
        }
    }
    fn from_tagged_box(tagged: TaggedBox<Self>) -> Self {
        unsafe {
            match tagged.discriminant() {
                1 => Hand::Int(TaggedBox::into_inner(tagged)),
                0 => Hand::Str(TaggedBox::into_inner(tagged)),
                _ => unreachable!(),
            }
        }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(tagged: &TaggedBox<Self>, callback: F) {
        let v = core::mem::ManuallyDrop::new(match tagged.discriminant() {
            1 => Hand::Int(tagged.as_ptr::<i32>().read()),
            0 => Hand::Str(tagged.as_ptr::<String>().read()),
            _ => unreachable!(),
        });
        callback(&v)
    }
}

/// One after the other: which of the failing operations to try (`None`: the program that succeeds)
pub fn work(seed: u64, fail: Option<u64>, out: &mut dyn FnMut(&str)) {
    let mut r = Rng(seed);
    if let Some(k) = fail {
        // each of these has to panic
        let beyond = || core::hint::black_box(MAX_DISCRIMINANT).checked_add(1).expect("no discriminant is out of range");
        match k {
            0 => drop(TaggedBox::<Shape>::new(1u8, beyond())),
            1 => drop(TaggedPointer::new(MAX_POINTER_VALUE + core::hint::black_box(1), 0)),
            2 => drop(Shape::from_tagged_box(TaggedBox::new(1u8, 14))),
            3 => unsafe { Shape::ref_from_tagged_box(&TaggedBox::new(1u8, MAX_DISCRIMINANT), |_| ()) },
            4 => drop(Shapes { value: TaggedBox::dangling::<u8>(15) }.into_inner()),
            _ => drop(TaggedPointer::dangling::<u8>(beyond())),
        }
        return out("there was no panic");
    }
    let mut s = String::new();
    macro_rules! say { ($($t:tt)*) => {{ s.clear(); let _ = write!(s, $($t)*); out(&s); }} }
    say!("limits {} {} {} {:#x} {:#x}", MAX_DISCRIMINANT, DISCRIMINANT_BITS, POINTER_WIDTH, MAX_POINTER_VALUE, DISCRIMINANT_MASK);
    every_arity(&mut r, out);
    // pointers
    for k in 0..40u64 {
        let (p, d) = (r.u() & MAX_POINTER_VALUE, (r.u() & MAX_DISCRIMINANT as u64) as Discriminant);
        let t = TaggedPointer::new(p, d);
        let mut h = Fnv(0);
        t.hash(&mut h);
        let mut g = Fnv(0);
        TaggedPointer::new(p, d).hash(&mut g);
        say!("{} {:?} {:#?} {:p} {:x} {:#X} {:o} {:#b} {:#066b} {} {:#x} {:#x} {}", k, t, t, t, t, t, t, t, t, t.discriminant(), t.as_u64(), t.as_raw_u64(), h.finish() == g.finish());
        let u = TaggedPointer::new(r.u() & 0xff, d);
        say!("{:?} {} {:?}", t.cmp(&u), t == u, t.partial_cmp(&t));
    }
    // containers
    let mut map: BTreeMap<Shapes, u64> = BTreeMap::new();
    let mut held: Vec<(Shapes, Shape)> = vec![];
    for k in 0..300u64 {
        let mut q = Rng(r.0);
        let (a, b) = (shape(r.u() >> 3, &mut r), { q.u(); shape(0, &mut q) });
        drop(b);
        let twin = a.clone();
        let c = if k % 3 == 0 { Shapes::from(a) } else { Shapes { value: a.into_tagged_box() } };
        say!("{} {:?} {:#?} {} {:>12} {}", k, c, c.value, c.value, c.value, c.value.discriminant());
        unsafe { Shape::ref_from_tagged_box(&c.value, |x| say!("{} {:?}", *x == twin, x.cmp(&twin))) };
        if let Some((d, e)) = held.last() {
            say!("{} {:?} {} {:?} {}", *d == c, d.cmp(&c), *e == twin, e.partial_cmp(&twin), d.value < c.value);
        }
        if let Some(p) = from_payload(k, &mut r) {
            say!("{:?}", p);
            let mut i = None;
            say!("{}", drops(|| i = Some(p.into_inner())));
            say!("{}", drops(|| drop(i)));
        }
        map.insert(c.clone(), k);
        held.push((c, twin));
        if held.len() > 20 {
            let (c, e) = held.swap_remove((r.u() % 20) as usize);
            let mut i = None;
            say!("{}", drops(|| i = Some(if k % 2 == 0 { c.into_inner() } else { Shape::from_tagged_box(c.value) })));
            say!("{}", i.as_ref() == Some(&e));
            say!("{}", drops(|| drop((i, e))));
        }
    }
    for (c, k) in map {
        say!("{} {:?}", k, c.into_inner());
    }
    for k in 0..60 {
        let a = arity(k, &mut r);
        let c = Arities::from(a.clone());
        say!("{:?} {:?} {} {:?}", c, c.clone().into_inner(), c.value.discriminant(), c == Arities::from(a.clone()));
        say!("{}", Arity::from_tagged_box(c.value) == a);
        let f = r.u() as f32;
        let x = [SmallKind::A(f), SmallKind::B(k as u8, f as f64 / 3.0, k % 2 == 0), SmallKind::C0 { n: r.u() as i16 }, SmallKind::D, SmallKind::E(None)][k as usize % 5];
        let y = Small::from(x);
        let z = y;
        say!("{:?} {:?} {} {:?}", y, z.into_inner(), y.value.discriminant(), y.partial_cmp(&Small::from(SmallKind::A(0.5))));
    }
    for x in [BareKind::A(Arc::new(3)), BareKind::B { t: Tok(1) }, BareKind::C0] {
        let c = Bare::from(x);
        let n = drops(|| match c.into_inner() {
            BareKind::A(a) => say!("A{} {}", a, Arc::strong_count(&a)),
            BareKind::B { t } => say!("B{:?}", t),
            BareKind::C0 => say!("C"),
        });
        say!("{}", n);
    }
    // boxes
    for k in 0..60u64 {
        let d = (k & MAX_DISCRIMINANT as u64) as Discriminant;
        unsafe {
            let mut b: TaggedBox<Shape> = TaggedBox::new(r.text(), d);
            b.as_mut_ref::<String>().push('!');
            say!("{} {}", b.as_ref::<String>(), b.discriminant());
            let b: Box<String> = TaggedBox::into_box(b);
            say!("{}", b);
            let b: TaggedBox<Shape> = TaggedBox::from_raw(Box::into_raw(b), d);
            say!("{}", TaggedBox::into_inner::<String>(b).to_owned());
            let w: TaggedBox<Shape> = TaggedBox::new_unchecked(Wide(k as u8), d);
            say!("{} {:?}", w.as_ptr::<Wide>() as usize % 64, TaggedBox::into_box::<Wide>(w));
            let z: TaggedBox<Shape> = TaggedBox::new((), d);
            say!("{:?} {}", TaggedBox::into_inner::<()>(z), TaggedBox::<Shape>::dangling::<Wide>(d).as_ptr::<Wide>() as usize);
        }
    }
    for h in [Hand::Int(4), Hand::Str("hand".into())] {
        let b = h.clone().into_tagged_box();
        say!("{:?} {} {:?}", b, b == b.clone(), Hand::from_tagged_box(b.clone()) == h);
        say!("{}", format!("{:?}", Hand::from_tagged_box(b)));
    }
    say!("{} destroyed", DROPS.load(SeqCst));
}
