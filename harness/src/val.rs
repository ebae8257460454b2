//! The palette of payload types: how to generate a value, how to encode it exactly, and which
//! tokens it owns.
use crate::tok::{self, Tok, ZTok, ZTok64};
use crate::Rng;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::{self, Debug, Display, Formatter};
use std::marker::PhantomData;
use std::num::{NonZeroU16, NonZeroU64};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub trait Val: Sized {
    fn gen(r: &mut Rng) -> Self;
    /// Exact encoding of the value (floats by their bits, tokens by value and soundness)
    fn enc(&self, o: &mut Vec<u8>);
    fn toks(&self, _o: &mut Vec<u32>) {}
    /// Display for the enum the value is part of
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result;
}

macro_rules! ints {
    ($($t:ty),*) => { $(
        impl Val for $t {
            fn gen(r: &mut Rng) -> Self {
                let hi = r.edgy() as u128;
                ((hi << 64) | r.edgy() as u128) as $t
            }
            // 128 bits for all, so that pointer-sized ones encode alike on all targets
            fn enc(&self, o: &mut Vec<u8>) { o.extend_from_slice(&(*self as i128).to_le_bytes()) }
            fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result { Display::fmt(self, f) }
        }
    )* };
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
macro_rules! sized {
    ($($t:ty, $u:ty);*) => { $(
        // only values that exist on 32-bit targets too
        impl Val for $t {
            fn gen(r: &mut Rng) -> Self { <$u>::gen(r) as $t }
            fn enc(&self, o: &mut Vec<u8>) { o.extend_from_slice(&(*self as i128).to_le_bytes()) }
            fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result { Display::fmt(self, f) }
        }
    )* };
}
sized!(usize, u32; isize, i32);

impl Val for f32 {
    fn gen(r: &mut Rng) -> Self {
        match r.below(10) {
            0 => f32::NAN,
            1 => -0.0,
            2 => 0.0,
            3 => f32::INFINITY,
            4 => f32::MIN_POSITIVE / 2.0,
            5 => (r.below(2000) as f32 - 1000.0) / 8.0,
            _ => f32::from_bits(r.u64() as u32),
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.to_bits().to_le_bytes())
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl Val for f64 {
    fn gen(r: &mut Rng) -> Self {
        match r.below(10) {
            0 => f64::NAN,
            1 => -0.0,
            2 => 0.0,
            3 => f64::NEG_INFINITY,
            4 => f64::MIN_POSITIVE / 2.0,
            5 => (r.below(2000) as f64 - 1000.0) / 8.0,
            _ => f64::from_bits(r.u64()),
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.to_bits().to_le_bytes())
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl Val for bool {
    fn gen(r: &mut Rng) -> Self {
        r.u64() & 1 == 1
    }
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl Val for char {
    fn gen(r: &mut Rng) -> Self {
        loop {
            if let Some(c) = char::from_u32((r.edgy() % 0x11_0000) as u32) {
                return c;
            }
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        (*self as u32).enc(o)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl Val for () {
    fn gen(_: &mut Rng) -> Self {}
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(0xE0)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.pad("()")
    }
}
fn slice<T: Val>(s: &[T], o: &mut Vec<u8>) {
    (s.len() as u64).enc(o);
    for x in s {
        x.enc(o)
    }
}
impl Val for String {
    fn gen(r: &mut Rng) -> Self {
        let n = if r.chance(16) { r.below(300) } else { r.below(12) };
        (0..n).map(|_| if r.chance(4) { char::gen(r) } else { (b' ' + r.below(95) as u8) as char }).collect()
    }
    fn enc(&self, o: &mut Vec<u8>) {
        slice(self.as_bytes(), o)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl Val for &'static str {
    fn gen(r: &mut Rng) -> Self {
        ["", "a", "hello", "\u{1F980} crab", "tagged-box"][r.idx(5)]
    }
    fn enc(&self, o: &mut Vec<u8>) {
        slice(self.as_bytes(), o)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}
macro_rules! wrap {
    ($($w:ident, $new:expr);*) => { $(
        impl<T: Val> Val for $w<T> {
            fn gen(r: &mut Rng) -> Self { $new(T::gen(r)) }
            fn enc(&self, o: &mut Vec<u8>) { (**self).enc(o) }
            fn toks(&self, o: &mut Vec<u32>) { (**self).toks(o) }
            fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result { (**self).disp(f) }
        }
    )* };
}
wrap!(Box, Box::new; Rc, Rc::new; Arc, Arc::new);
impl Val for NonZeroU16 {
    fn gen(r: &mut Rng) -> Self {
        NonZeroU16::new(u16::gen(r)).unwrap_or(NonZeroU16::MAX)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        self.get().enc(o)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl Val for NonZeroU64 {
    fn gen(r: &mut Rng) -> Self {
        NonZeroU64::new(u64::gen(r)).unwrap_or(NonZeroU64::MIN)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        self.get().enc(o)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl<T: Val + Debug, E: Val + Debug> Val for Result<T, E> {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(2) {
            Ok(T::gen(r))
        } else {
            Err(E::gen(r))
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Ok(x) => {
                o.push(0xA0);
                x.enc(o)
            }
            Err(x) => {
                o.push(0xA1);
                x.enc(o)
            }
        }
    }
    fn toks(&self, o: &mut Vec<u32>) {
        match self {
            Ok(x) => x.toks(o),
            Err(x) => x.toks(o),
        }
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
impl<T> Val for PhantomData<T> {
    fn gen(_: &mut Rng) -> Self {
        PhantomData
    }
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(0xE7)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.pad("phantom")
    }
}
impl Val for Duration {
    fn gen(r: &mut Rng) -> Self {
        Duration::new(r.edgy(), r.below(1_000_000_000) as u32)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        self.as_nanos().enc(o)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
impl Val for &'static [u16] {
    fn gen(r: &mut Rng) -> Self {
        [&[][..], &[1], &[0, 65535], &[7; 40]][r.idx(4)]
    }
    fn enc(&self, o: &mut Vec<u8>) {
        slice(self, o)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
impl Val for Box<str> {
    fn gen(r: &mut Rng) -> Self {
        String::gen(r).into()
    }
    fn enc(&self, o: &mut Vec<u8>) {
        slice(self.as_bytes(), o)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl<T: Val + Debug> Val for Box<[T]> {
    fn gen(r: &mut Rng) -> Self {
        Vec::gen(r).into()
    }
    fn enc(&self, o: &mut Vec<u8>) {
        slice(self, o)
    }
    fn toks(&self, o: &mut Vec<u32>) {
        self.iter().for_each(|x| x.toks(o))
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
impl Val for Cow<'static, str> {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(2) {
            Cow::Borrowed(Val::gen(r))
        } else {
            Cow::Owned(Val::gen(r))
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        slice(self.as_bytes(), o)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl Val for BTreeMap<u8, u16> {
    fn gen(r: &mut Rng) -> Self {
        (0..r.below(5)).map(|_| (u8::gen(r), u16::gen(r))).collect()
    }
    fn enc(&self, o: &mut Vec<u8>) {
        (self.len() as u64).enc(o);
        for (k, v) in self {
            k.enc(o);
            v.enc(o)
        }
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
impl<T: Val + Debug> Val for Vec<T> {
    fn gen(r: &mut Rng) -> Self {
        (0..r.below(5)).map(|_| T::gen(r)).collect()
    }
    fn enc(&self, o: &mut Vec<u8>) {
        slice(self, o)
    }
    fn toks(&self, o: &mut Vec<u32>) {
        self.iter().for_each(|x| x.toks(o))
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
impl<T: Val + Debug> Val for Option<T> {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(4) {
            None
        } else {
            Some(T::gen(r))
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                x.enc(o)
            }
        }
    }
    fn toks(&self, o: &mut Vec<u32>) {
        self.iter().for_each(|x| x.toks(o))
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
impl<T: Val + Debug, const N: usize> Val for [T; N] {
    fn gen(r: &mut Rng) -> Self {
        std::array::from_fn(|_| T::gen(r))
    }
    fn enc(&self, o: &mut Vec<u8>) {
        for x in self {
            x.enc(o)
        }
        o.push(0xAE);
    }
    fn toks(&self, o: &mut Vec<u32>) {
        self.iter().for_each(|x| x.toks(o))
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
macro_rules! tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Val + Debug),*> Val for ($($t,)*) {
            fn gen(r: &mut Rng) -> Self { ($($t::gen(r),)*) }
            fn enc(&self, o: &mut Vec<u8>) { $(self.$i.enc(o);)* }
            fn toks(&self, o: &mut Vec<u32>) { $(self.$i.toks(o);)* }
            fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result { Debug::fmt(self, f) }
        }
    };
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);

/// Large plain data (element-wise encodings of big arrays would be slow under Miri)
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Big<const N: usize>(pub [u8; N]);
impl<const N: usize> Val for Big<N> {
    fn gen(r: &mut Rng) -> Self {
        let mut b = [0u8; N];
        for c in b.chunks_mut(8) {
            let w = r.u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&w[..n]);
        }
        Big(b)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.0)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
impl<const N: usize> Debug for Big<N> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "Big({}, {:?})", N, crate::rng::hash(&self.0))
    }
}

macro_rules! aligned {
    ($($n:ident $a:literal),*) => { $(
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
        #[repr(align($a))]
        pub struct $n(pub u16);
        impl Val for $n {
            fn gen(r: &mut Rng) -> Self { $n(r.edgy() as u16) }
            fn enc(&self, o: &mut Vec<u8>) {
                o.push((self as *const _ as usize % $a == 0) as u8);
                self.0.enc(o)
            }
            fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result { Display::fmt(&self.0, f) }
        }
    )* };
}
aligned!(Al2 2, Al16 16, Al32 32, Al64 64, Al256 256, Al2048 2048, Al4096 4096);
macro_rules! aligned_zst {
    ($($n:ident $a:literal),*) => { $(
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
        #[repr(align($a))]
        pub struct $n;
        impl Val for $n {
            fn gen(_: &mut Rng) -> Self { $n }
            fn enc(&self, o: &mut Vec<u8>) { o.push((self as *const _ as usize % $a == 0) as u8) }
            fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result { f.pad(stringify!($n)) }
        }
    )* };
}
aligned_zst!(Z2 2, Z16 16, Z128 128, Z2048 2048, Z4096 4096);
// LLVM 23 compiles functions with locals aligned to 4096 and more wrongly when optimizing (a jump past the
// prologue into the stack probe), so values of such types are used in debug builds only
#[cfg(debug_assertions)]
pub type AlTop = Al4096;
#[cfg(debug_assertions)]
pub type ZTop = Z4096;
#[cfg(not(debug_assertions))]
pub type AlTop = Al2048;
#[cfg(not(debug_assertions))]
pub type ZTop = Z2048;

impl Val for Tok {
    fn gen(r: &mut Rng) -> Self {
        Tok::new(r.below(6) as u32)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(if self.sound() { 1 } else { 0xBD });
        self.val.enc(o)
    }
    fn toks(&self, o: &mut Vec<u32>) {
        o.push(self.id)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}
macro_rules! ztok {
    ($($n:ident),*) => { $(
        impl Val for $n {
            fn gen(_: &mut Rng) -> Self { $n::new() }
            fn enc(&self, o: &mut Vec<u8>) {
                o.push((self as *const _ as usize % std::mem::align_of::<$n>() == 0) as u8)
            }
            fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result { Display::fmt(self, f) }
        }
    )* };
}
ztok!(ZTok, ZTok64);

/// User-defined relations that are neither symmetric nor consistent with each other
#[derive(Clone, Copy, Debug)]
pub struct Weird(pub u8);
impl PartialEq for Weird {
    fn eq(&self, o: &Self) -> bool {
        tok::tick();
        (self.0 & 3) <= (o.0 & 5)
    }
}
impl Eq for Weird {}
impl PartialOrd for Weird {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        tok::tick();
        match self.0.wrapping_sub(o.0) % 5 {
            0 => None,
            1 => Some(Ordering::Less),
            2 | 4 => Some(Ordering::Greater),
            _ => Some(Ordering::Equal),
        }
    }
}
impl Ord for Weird {
    fn cmp(&self, o: &Self) -> Ordering {
        tok::tick();
        match (self.0 as u16 * 3 + o.0 as u16) % 4 {
            0 | 3 => Ordering::Greater,
            1 => Ordering::Equal,
            _ => Ordering::Less,
        }
    }
}
impl Val for Weird {
    fn gen(r: &mut Rng) -> Self {
        Weird(r.u64() as u8)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(self.0)
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "w{}", self.0)
    }
}

/// Padding in the middle and at the end, a niche, and uninhabited bit patterns
#[derive(Clone, Debug, PartialEq, PartialOrd)]
#[repr(C)]
pub struct Padded {
    pub a: u8,
    pub b: u64,
    pub c: bool,
    pub d: Option<char>,
    pub e: u8,
}
impl Val for Padded {
    fn gen(r: &mut Rng) -> Self {
        Padded { a: Val::gen(r), b: Val::gen(r), c: Val::gen(r), d: Val::gen(r), e: Val::gen(r) }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        self.a.enc(o);
        self.b.enc(o);
        self.c.enc(o);
        self.d.enc(o);
        self.e.enc(o);
    }
    fn disp(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
