//! C26: implementations of TaggableInner written by hand, each in its own way
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::fmt::{self, Debug, Display, Formatter, Write};
use std::mem::ManuallyDrop;
use tbmon::prelude::*;

const MAX: Discriminant = MAX_DISCRIMINANT;

trait Hand: TaggableInner + Clone + Debug + Display + PartialEq + PartialOrd {
    const NAME: &'static str;
    /// Does taking the value out free its block?
    const FREES: bool;
    fn gen(r: &mut Rng) -> Self;
    fn enc(&self, o: &mut Vec<u8>);
    fn disc(&self) -> Discriminant;
    /// Is there a block?
    fn heap(&self) -> bool;
    fn encoded(&self) -> Vec<u8> {
        let mut o = vec![];
        self.enc(&mut o);
        o
    }
}
macro_rules! display {
    ($t:ty) => { display!($t, ); };
    ($t:ty, $($g:tt)*) => {
        impl <$($g)*> Display for $t {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                f.write_str("<")?;
                Debug::fmt(self, f)?;
                f.pad(">")
            }
        }
    };
}

/// Discriminants in no order and with gaps; the usual way of the guide
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Sparse {
    Text(String),
    Number(u64),
    Own(Tok),
    Zero(ZTok64),
    Nothing,
}
display!(Sparse);
impl TaggableInner for Sparse {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self {
            Sparse::Text(s) => TaggedBox::new(s, MAX),
            Sparse::Number(n) => TaggedBox::new(n, 0),
            Sparse::Own(t) => TaggedBox::new(t, MAX / 2),
            Sparse::Zero(z) => TaggedBox::new(z, MAX / 2 + 1),
            Sparse::Nothing => TaggedBox::dangling::<Self>(3),
        }
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        unsafe {
            match b.discriminant() {
                MAX => Sparse::Text(TaggedBox::into_inner(b)),
                0 => Sparse::Number(TaggedBox::into_inner(b)),
                d if d == MAX / 2 => Sparse::Own(TaggedBox::into_inner(b)),
                d if d == MAX / 2 + 1 => Sparse::Zero(TaggedBox::into_inner(b)),
                3 => Sparse::Nothing,
                _ => panic!("no such variant"),
            }
        }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, callback: F) {
        let v = ManuallyDrop::new(match b.discriminant() {
            MAX => Sparse::Text(b.as_ptr::<String>().read()),
            0 => Sparse::Number(b.as_ptr::<u64>().read()),
            d if d == MAX / 2 => Sparse::Own(b.as_ptr::<Tok>().read()),
            d if d == MAX / 2 + 1 => Sparse::Zero(b.as_ptr::<ZTok64>().read()),
            3 => Sparse::Nothing,
            _ => panic!("no such variant"),
        });
        callback(&v)
    }
}
impl Hand for Sparse {
    const NAME: &'static str = "Sparse";
    const FREES: bool = false;
    fn gen(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => Sparse::Text(Val::gen(r)),
            1 => Sparse::Number(Val::gen(r)),
            2 => Sparse::Own(Val::gen(r)),
            3 => Sparse::Zero(Val::gen(r)),
            _ => Sparse::Nothing,
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Sparse::Text(s) => s.enc(o),
            Sparse::Number(n) => n.enc(o),
            Sparse::Own(t) => t.enc(o),
            Sparse::Zero(z) => z.enc(o),
            Sparse::Nothing => o.push(77),
        }
        o.push(self.disc() as u8)
    }
    fn disc(&self) -> Discriminant {
        match self {
            Sparse::Text(_) => MAX,
            Sparse::Number(_) => 0,
            Sparse::Own(_) => MAX / 2,
            Sparse::Zero(_) => MAX / 2 + 1,
            Sparse::Nothing => 3,
        }
    }
    fn heap(&self) -> bool {
        !matches!(self, Sparse::Zero(_) | Sparse::Nothing)
    }
}

/// Generic, and taking the value out by way of Box
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Either<L, R> {
    Left(L),
    Right(R),
    Both(L, R),
}
display!(Either<L, R>, L: Debug, R: Debug);
impl<L, R> TaggableInner for Either<L, R> {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self {
            Either::Left(l) => TaggedBox::new(l, 6),
            Either::Right(r) => unsafe { TaggedBox::new_unchecked(r, MAX - 1) },
            Either::Both(l, r) => unsafe { TaggedBox::from_raw(Box::into_raw(Box::new((l, r))), 1) },
        }
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        unsafe {
            if b.discriminant() == 6 {
                Either::Left(*TaggedBox::into_box::<L>(b))
            } else if b.discriminant() == MAX - 1 {
                Either::Right(*Box::from_raw(TaggedBox::into_raw::<R>(b)))
            } else {
                assert!(b.discriminant() == 1, "no such variant");
                let x = TaggedBox::into_box::<(L, R)>(b);
                Either::Both(x.0, x.1)
            }
        }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, callback: F) {
        let d = b.discriminant();
        let v = ManuallyDrop::new(if d == 6 {
            Either::Left(std::ptr::read(b.as_ref::<L>()))
        } else if d == MAX - 1 {
            Either::Right(b.as_ptr::<R>().read())
        } else {
            assert!(d == 1, "no such variant");
            let x = b.as_ptr::<ManuallyDrop<(L, R)>>().read();
            let (l, r) = ManuallyDrop::into_inner(x);
            Either::Both(l, r)
        });
        callback(&v)
    }
}
impl<L: Val + Debug + Clone + PartialOrd, R: Val + Debug + Clone + PartialOrd> Hand for Either<L, R> {
    const NAME: &'static str = "Either";
    const FREES: bool = true;
    fn gen(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Either::Left(L::gen(r)),
            1 => Either::Right(R::gen(r)),
            _ => Either::Both(L::gen(r), R::gen(r)),
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Either::Left(l) => l.enc(o),
            Either::Right(r) => r.enc(o),
            Either::Both(l, r) => {
                l.enc(o);
                r.enc(o)
            }
        }
        o.push(self.disc() as u8)
    }
    fn disc(&self) -> Discriminant {
        match self {
            Either::Left(_) => 6,
            Either::Right(_) => MAX - 1,
            Either::Both(..) => 1,
        }
    }
    fn heap(&self) -> bool {
        0 != match self {
            Either::Left(_) => std::mem::size_of::<L>(),
            Either::Right(_) => std::mem::size_of::<R>(),
            Either::Both(..) => std::mem::size_of::<(L, R)>(),
        }
    }
}

/// Some of the value in the discriminant; two variants with one payload type; Copy
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Packed {
    Flag(bool),
    Nibble(u8),
    Word(u64),
    Negative(u64),
}
display!(Packed);
impl TaggableInner for Packed {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self {
            Packed::Flag(b) => TaggedBox::dangling::<()>(2 | b as Discriminant),
            Packed::Nibble(n) => TaggedBox::new((), 8 + (n & 7) as Discriminant),
            Packed::Word(w) => TaggedBox::new(w, 0),
            Packed::Negative(w) => TaggedBox::new(w, 1),
        }
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        let mut v = None;
        unsafe { Self::ref_from_tagged_box(&b, |x| v = Some(*x)) };
        v.unwrap()
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, callback: F) {
        callback(&match b.discriminant() {
            d @ 2..=3 => Packed::Flag(d == 3),
            d @ 8..=15 => Packed::Nibble(d as u8 - 8),
            0 => Packed::Word(*b.as_ref()),
            1 => Packed::Negative(*b.as_ptr()),
            d => panic!("no such variant: {}", d),
        })
    }
}
impl Hand for Packed {
    const NAME: &'static str = "Packed";
    const FREES: bool = false;
    fn gen(r: &mut Rng) -> Self {
        match r.below(4) {
            0 => Packed::Flag(Val::gen(r)),
            1 => Packed::Nibble(r.below(8) as u8),
            2 => Packed::Word(Val::gen(r)),
            _ => Packed::Negative(r.below(3)),
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Packed::Flag(b) => b.enc(o),
            Packed::Nibble(b) => b.enc(o),
            Packed::Word(b) | Packed::Negative(b) => b.enc(o),
        }
        o.push(self.disc() as u8)
    }
    fn disc(&self) -> Discriminant {
        match self {
            Packed::Flag(b) => 2 + *b as Discriminant,
            Packed::Nibble(n) => 8 + *n as Discriminant,
            Packed::Word(_) => 0,
            Packed::Negative(_) => 1,
        }
    }
    fn heap(&self) -> bool {
        matches!(self, Packed::Word(_) | Packed::Negative(_))
    }
}

/// Stored as a whole, and viewed where it is
#[derive(Debug, Clone, PartialEq, PartialOrd)]
enum Whole {
    Counter(Cell<u32>, Tok),
    Values(Vec<f64>),
    Wide(Al256, Padded),
}
display!(Whole);
impl TaggableInner for Whole {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        let d = self.disc();
        TaggedBox::new(self, d)
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        assert!(b.discriminant() % 5 == 0);
        unsafe { *TaggedBox::into_box::<Self>(b) }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, callback: F) {
        assert!(b.discriminant() % 5 == 0);
        callback(b.as_ref())
    }
}
impl Hand for Whole {
    const NAME: &'static str = "Whole";
    const FREES: bool = true;
    fn gen(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Whole::Counter(Cell::new(r.below(4) as u32), Val::gen(r)),
            1 => Whole::Values(Val::gen(r)),
            _ => Whole::Wide(Val::gen(r), Val::gen(r)),
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Whole::Counter(c, t) => {
                c.get().enc(o);
                t.enc(o)
            }
            Whole::Values(v) => v.enc(o),
            Whole::Wide(a, p) => {
                a.enc(o);
                p.enc(o)
            }
        }
        o.push(self.disc() as u8)
    }
    fn disc(&self) -> Discriminant {
        match self {
            Whole::Counter(..) => 5,
            Whole::Values(_) => 10,
            Whole::Wide(..) => 15,
        }
    }
    fn heap(&self) -> bool {
        true
    }
}

/// No enum at all
#[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
struct Point(f32, f64, u16);
display!(Point);
impl TaggableInner for Point {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        TaggedBox::new(self, MAX)
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        assert!(b.discriminant() == MAX);
        unsafe { TaggedBox::into_inner(b) }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, callback: F) {
        assert!(b.discriminant() == MAX);
        callback(&b.as_ptr::<Self>().read())
    }
}
impl Hand for Point {
    const NAME: &'static str = "Point";
    const FREES: bool = false;
    fn gen(r: &mut Rng) -> Self {
        Point(Val::gen(r), Val::gen(r), Val::gen(r))
    }
    fn enc(&self, o: &mut Vec<u8>) {
        self.0.enc(o);
        self.1.enc(o);
        self.2.enc(o);
    }
    fn disc(&self) -> Discriminant {
        MAX
    }
    fn heap(&self) -> bool {
        true
    }
}

/// Boxes within boxes, with a destructor that takes its parts apart
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Branch(Option<TaggedBox<Tree>>, Option<TaggedBox<Tree>>);
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Tree {
    Leaf(Tok),
    Node(Branch),
    Empty,
}
impl Drop for Branch {
    fn drop(&mut self) {
        for b in [self.0.take(), self.1.take()].into_iter().flatten() {
            drop(Tree::from_tagged_box(b))
        }
    }
}
impl Clone for Branch {
    fn clone(&self) -> Self {
        Branch(self.0.clone(), self.1.clone())
    }
}
impl Debug for Branch {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(&self.0).entries(&self.1).finish()
    }
}
display!(Tree);
impl TaggableInner for Tree {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self {
            Tree::Leaf(t) => TaggedBox::new(t, 1),
            Tree::Node(b) => TaggedBox::new(b, 0),
            Tree::Empty => TaggedBox::dangling::<Branch>(7),
        }
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        unsafe {
            match b.discriminant() {
                0 => Tree::Node(*TaggedBox::into_box(b)),
                1 => Tree::Leaf(*TaggedBox::into_box(b)),
                7 => Tree::Empty,
                _ => panic!("no such variant"),
            }
        }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, callback: F) {
        let v = ManuallyDrop::new(match b.discriminant() {
            0 => Tree::Node(b.as_ptr::<Branch>().read()),
            1 => Tree::Leaf(b.as_ptr::<Tok>().read()),
            7 => Tree::Empty,
            _ => panic!("no such variant"),
        });
        callback(&v)
    }
}
impl Tree {
    fn of(r: &mut Rng, d: u64) -> Self {
        match r.below(if d == 0 { 2 } else { 4 }) {
            0 => Tree::Leaf(Val::gen(r)),
            1 => Tree::Empty,
            _ => {
                let a = Tree::of(r, d - 1).into_tagged_box();
                let b = if r.chance(4) { None } else { Some(Tree::of(r, d - 1).into_tagged_box()) };
                Tree::Node(Branch(Some(a), b))
            }
        }
    }
}
impl Hand for Tree {
    const NAME: &'static str = "Tree";
    const FREES: bool = true;
    fn gen(r: &mut Rng) -> Self {
        let d = if cfg!(miri) { 2 } else { r.below(6) };
        Tree::of(r, d)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Tree::Leaf(t) => t.enc(o),
            Tree::Node(Branch(a, b)) => {
                for x in [a, b] {
                    o.push(200 + x.is_some() as u8);
                    if let Some(b) = x {
                        unsafe { Tree::ref_from_tagged_box(b, |t| t.enc(o)) }
                    }
                }
            }
            Tree::Empty => o.push(199),
        }
        o.push(self.disc() as u8)
    }
    fn disc(&self) -> Discriminant {
        match self {
            Tree::Leaf(_) => 1,
            Tree::Node(_) => 0,
            Tree::Empty => 7,
        }
    }
    fn heap(&self) -> bool {
        !matches!(self, Tree::Empty)
    }
}

/// Borrowing from elsewhere
#[derive(Debug, Clone, PartialEq, PartialOrd)]
enum Borrowed<'a> {
    Str(&'a str),
    Slice(&'a [u32]),
    Cell(&'a Cell<u32>),
    Owned(Vec<&'a str>),
}
impl<'a> TaggableInner for Borrowed<'a> {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self {
            Borrowed::Str(s) => TaggedBox::new(s, 9),
            Borrowed::Slice(s) => TaggedBox::new(s, 8),
            Borrowed::Cell(c) => unsafe { TaggedBox::from_raw(c as *const Cell<u32> as *mut Cell<u32>, 7) },
            Borrowed::Owned(v) => TaggedBox::new(v, 6),
        }
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        unsafe {
            match b.discriminant() {
                9 => Borrowed::Str(*TaggedBox::into_box(b)),
                8 => Borrowed::Slice(*TaggedBox::into_box(b)),
                7 => Borrowed::Cell(&*TaggedBox::into_raw(b)),
                6 => Borrowed::Owned(*TaggedBox::into_box(b)),
                _ => unreachable!(),
            }
        }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, callback: F) {
        callback(&ManuallyDrop::new(match b.discriminant() {
            9 => Borrowed::Str(*b.as_ref::<&'a str>()),
            8 => Borrowed::Slice(*b.as_ref::<&'a [u32]>()),
            7 => Borrowed::Cell(&*b.as_ptr()),
            6 => Borrowed::Owned(b.as_ptr::<Vec<&'a str>>().read()),
            _ => unreachable!(),
        }))
    }
}

/// A container for any of them
#[derive(Debug, Clone, PartialEq, PartialOrd)]
struct Holder<H: TaggableInner + Clone> {
    tagged: TaggedBox<H>,
}
impl<H: TaggableInner + Clone> TaggableContainer for Holder<H> {
    type Inner = H;
    fn into_inner(self) -> H {
        H::from_tagged_box(self.tagged)
    }
}
#[derive(Debug, Clone, PartialEq, PartialOrd)]
struct Plain<H> {
    tagged: H,
}

fn viewed<H: Hand>(b: &TaggedBox<H>) -> Vec<Vec<u8>> {
    let mut v = vec![];
    unsafe {
        H::ref_from_tagged_box(b, |x| {
            v.push(x.encoded());
            H::ref_from_tagged_box(b, |y| v.push([x.encoded(), y.encoded()].concat()));
        })
    };
    v
}
fn formats<T: Debug + Display>(t: &T) -> Vec<String> {
    vec![format!("{:?}", t), format!("{:#?}", t), format!("{}", t), format!("{:#}", t), format!("{:*^30}", t), format!("{:+010.2?}", t), format!("{:<12.3}|", t), format!("{:#x?}", t)]
}
fn answers<T: PartialOrd>(a: &T, b: &T) -> (bool, bool, bool, bool, bool, bool, Option<Ordering>) {
    (a == b, a != b, a < b, a <= b, a > b, a >= b, a.partial_cmp(b))
}
fn hex(a: usize) -> [String; 4] {
    [format!("{:x}", a), format!("{:#X}", a), format!("{:o}", a), format!("{:#070b}", a)]
}

fn values<H: Hand>(cx: &mut Cx, label: &str) {
    for k in 0..cx.n(if cfg!(miri) { 3 } else { 60 }) {
        let seed = cx.rng.u64();
        let mut r = Rng::new(seed);
        cx.case(format!("{} {} value {}", H::NAME, label, k));
        let res = catch(|| {
            let (a, b) = (H::gen(&mut r), H::gen(&mut r));
            // (the expectations come from values that are never boxed)
            let mut r2 = Rng::new(seed);
            let (x, y) = (H::gen(&mut r2), H::gen(&mut r2));
            let (d, e, heap) = (a.disc(), a.encoded(), a.heap());
            let before = tok::census();
            let a = a.into_tagged_box();
            let b = b.into_tagged_box();
            let word0 = word(&a);
            cx.check(a.discriminant() == d, "discriminant", || format!("{} instead of {}", a.discriminant(), d));
            let p = a.as_ptr::<u8>() as usize;
            cx.check(p != 0 && p as u64 <= MAX_POINTER_VALUE && word0 == (p as u64 | (d as u64) << tbmon::WIDTH), "word", || format!("{:x} for address {:x} and discriminant {}", word0, p, d));
            cx.check([format!("{:x}", a), format!("{:#X}", a), format!("{:o}", a), format!("{:#070b}", a)] == hex(p), "hex", || format!("{:x} instead of {:x}", a, p));
            let v = viewed(&a);
            cx.check(v == [e.clone(), [e.clone(), e.clone()].concat()], "view", || format!("{:x?} instead of {:x?}", v, e));
            cx.check(tok::census().drops == before.drops, "view:destroys", || "a view destroyed something".into());
            // formats
            let (f, g) = (formats(&a), formats(&x));
            for (f, g) in f.iter().zip(&g) {
                cx.check(f == g, "format", || format!("{:?} instead of {:?}", f, g));
            }
            let mut w = String::new();
            tok::arm_fmt_error(1);
            let bad = write!(w, "{:?}{}", a, a).is_err();
            tok::arm_fmt_error(1);
            let mut w2 = String::new();
            let bad2 = write!(w2, "{:?}{}", x, x).is_err();
            tok::arm_fmt_error(0);
            cx.check(bad == bad2 && w == w2, "format:error", || format!("error {} after {:?} instead of {} after {:?}", bad, w, bad2, w2));
            // comparisons
            for (p, q, s, t) in [(&a, &b, &x, &y), (&b, &a, &y, &x), (&a, &a, &x, &x)] {
                let (m, n) = (answers(p, q), answers(s, t));
                cx.check(m == n, "comparison", || format!("{:?} instead of {:?} for {:?} and {:?}", m, n, s, t));
            }
            // clones
            let mut c = a.clone();
            let z = x.clone();
            cx.check(viewed(&c)[0] == z.encoded() && c.discriminant() == z.disc(), "clone", || format!("{:?} instead of {:?}", c, z));
            cx.check(!heap || c.as_ptr::<u8>() != a.as_ptr::<u8>(), "clone:shared", || "a clone shares its block".into());
            let old = std::mem::replace(&mut c, b.clone());
            c.clone_from(&a);
            cx.check(viewed(&c)[0] == e && word(&a) == word0, "clone_from", || format!("{:?} instead of {:?}", c, z));
            // containers
            let (ha, hb) = (Holder { tagged: a }, Holder { tagged: b });
            let (px, py) = (Plain { tagged: x }, Plain { tagged: y });
            cx.check(answers(&ha, &hb) == answers(&px, &py), "container:comparison", || format!("{:?} {:?}", ha, hb));
            cx.check(format!("{:?}", ha) == format!("{:?}", px).replacen("Plain", "Holder", 1), "container:format", || format!("{:?}", ha));
            let hc = ha.clone();
            let before = tok::census();
            let out = hc.into_inner();
            cx.check(out.encoded() == e, "container:into_inner", || format!("{:?} instead of {:?}", out, px));
            // back
            let (a, b) = (H::from_tagged_box(ha.tagged), hb.into_inner());
            cx.check(a.encoded() == e && a.disc() == d && b.encoded() == py.tagged.encoded(), "back", || format!("{:?} and {:?} instead of {:?} and {:?}", a, b, px, py));
            let back = tok::census();
            cx.check(back.drops == before.drops && back.live == before.live && back.zlive == before.zlive, "back:destroys", || "taking values out destroyed some".into());
            drop((a, b, out, px, py, z));
            drop((H::from_tagged_box(c), H::from_tagged_box(old)));
            cx.eval(&e);
            cx.observe(&e);
            cx.observe(f[1].as_bytes());
            cx.observe(&d.to_string().into_bytes());
        });
        if let Err(m) = res {
            cx.violation("panic", m);
        }
        cx.collect();
        if tok::filling() {
            tok::reset();
        }
    }
}

/// With implementations that take values out through Box nothing may be left behind
fn balance<H: Hand>(cx: &mut Cx, label: &str) {
    assert!(H::FREES);
    for k in 0..cx.n(if cfg!(miri) { 2 } else { 20 }) {
        let mut r = Rng::new(cx.rng.u64());
        cx.case(format!("balance of {} {} {}", H::NAME, label, k));
        let rounds = if cfg!(miri) { 6 } else { 40 };
        let (z0, m0, asked) = (tok::census(), mem::live(), mem::allocations());
        let res = {
            catch(|| {
                let mut pool: Vec<TaggedBox<H>> = Vec::with_capacity(64);
                for _ in 0..rounds {
                    match r.below(6) {
                        0 | 1 => pool.push(H::gen(&mut r).into_tagged_box()),
                        2 if !pool.is_empty() => {
                            let c = pool[r.idx(pool.len())].clone();
                            pool.push(c)
                        }
                        3 if !pool.is_empty() => {
                            let b = pool.swap_remove(r.idx(pool.len()));
                            pool.push(H::from_tagged_box(b).into_tagged_box())
                        }
                        4 if pool.len() > 1 => {
                            let _ = pool[0].partial_cmp(&pool[pool.len() - 1]);
                            let _ = pool[0] == pool[pool.len() - 1];
                        }
                        5 if !pool.is_empty() => drop(H::from_tagged_box(pool.swap_remove(r.idx(pool.len())))),
                        _ => (),
                    }
                }
                pool.into_iter().for_each(|b| drop(H::from_tagged_box(b)));
            })
        };
        let (m1, asked) = (mem::live(), mem::allocations() - asked);
        if let Err(m) = res {
            cx.violation("panic", m);
            continue;
        }
        let z1 = tok::census();
        cx.check((z0.live, z0.zlive) == (z1.live, z1.zlive), "balance:values", || format!("{} values (and {} of size zero) are left", z1.live - z0.live, z1.zlive - z0.zlive));
        cx.check(m0 == m1, "balance:blocks", || format!("{} blocks and {} bytes are left", m1.0 - m0.0, m1.1 - m0.1));
        cx.count("allocations balanced", asked);
        cx.eval(&[asked as u8, (asked >> 8) as u8, k as u8]);
        cx.collect();
    }
}

/// Total orders: sorting, sets, the largest and the smallest
fn sorting<H: Hand + Ord>(cx: &mut Cx) {
    for _ in 0..cx.n(if cfg!(miri) { 1 } else { 12 }) {
        let mut r = Rng::new(cx.rng.u64());
        cx.case(format!("sorting {}", H::NAME));
        let n = if cfg!(miri) { 6 } else { 40 };
        let mut plain: Vec<H> = (0..n).map(|_| H::gen(&mut r)).collect();
        let mut boxes: Vec<TaggedBox<H>> = plain.iter().map(|p| p.clone().into_tagged_box()).collect();
        let enc = |b: &TaggedBox<H>| viewed(b)[0].clone();
        let (a, b) = (boxes.iter().max().map(enc), plain.iter().max().map(H::encoded));
        cx.check(a == b, "max", || "another largest".into());
        let (a, b) = (boxes.iter().min().map(enc), plain.iter().min().map(H::encoded));
        cx.check(a == b, "min", || "another smallest".into());
        let (s, t): (BTreeSet<_>, BTreeSet<_>) = (boxes.iter().collect(), plain.iter().collect());
        cx.check(s.iter().map(|b| enc(b)).eq(t.iter().map(|p| p.encoded())), "set", || "another set".into());
        let (s, t) = (s.len(), t.len());
        boxes.sort();
        plain.sort();
        let x: Vec<_> = boxes.iter().map(enc).collect();
        cx.check(s == t && x.iter().cloned().eq(plain.iter().map(H::encoded)), "sort", || "another order".into());
        cx.eval(&x.concat());
        boxes.into_iter().for_each(|b| drop(H::from_tagged_box(b)));
    }
}

/// A box under a discriminant the implementation does not know: its panic has to come through
fn unknown<H: Hand>(cx: &mut Cx, d: Discriminant) {
    cx.case(format!("{} under {}", H::NAME, d));
    let b: TaggedBox<H> = TaggedBox::dangling::<u64>(d);
    let w = word(&b);
    let good = H::gen(&mut Rng::new(cx.rng.u64())).into_tagged_box();
    let mut dst = H::gen(&mut Rng::new(cx.rng.u64())).into_tagged_box();
    let dw = word(&dst);
    let mut n = 0;
    let mut refused = |cx: &mut Cx, what: &str, r: Result<(), String>| {
        n += 1;
        cx.check(r.is_err(), &format!("unknown:{}", what), || "there was no panic".into());
    };
    refused(cx, "clone", catch(|| drop(std::hint::black_box(b.clone()))));
    refused(cx, "clone_from", catch(|| dst.clone_from(&b)));
    refused(cx, "eq", catch(|| drop(std::hint::black_box(b == good))));
    refused(cx, "eq", catch(|| drop(std::hint::black_box(good == b))));
    refused(cx, "eq with itself", catch(|| drop(std::hint::black_box(b == b))));
    refused(cx, "partial_cmp", catch(|| drop(std::hint::black_box(good.partial_cmp(&b)))));
    refused(cx, "less", catch(|| drop(std::hint::black_box(b < good))));
    refused(cx, "debug", catch(|| drop(std::hint::black_box(format!("{:?}", b)))));
    refused(cx, "display", catch(|| drop(std::hint::black_box(format!("{}", b)))));
    cx.check(word(&b) == w && b.discriminant() == d && word(&dst) == dw, "unknown:changed", || "a refused operation changed a box".into());
    cx.check(catch(|| format!("{:?}{}{}", good, good == good.clone(), dst)).is_ok(), "unknown:after", || "a box is unusable after a refusal".into());
    drop((H::from_tagged_box(good), H::from_tagged_box(dst)));
    refused(cx, "from_tagged_box", catch(|| drop(H::from_tagged_box(b))));
    cx.eval(&[d as u8, (d as u64 >> 8) as u8, H::NAME.len() as u8]);
}

fn borrowed(cx: &mut Cx) {
    for k in 0..cx.n(if cfg!(miri) { 2 } else { 50 }) {
        let mut r = Rng::new(cx.rng.u64());
        cx.case(format!("borrowed {}", k));
        let (s, n, c): (String, Vec<u32>, Cell<u32>) = (Val::gen(&mut r), Val::gen(&mut r), Cell::new(r.below(9) as u32));
        let of = |k: u64| match k {
            0 => Borrowed::Str(&s),
            1 => Borrowed::Slice(&n),
            2 => Borrowed::Cell(&c),
            _ => Borrowed::Owned(vec![&s[..], "x", &s]),
        };
        for i in 0..4 {
            for j in 0..4 {
                let (a, b) = (of(i).into_tagged_box(), of(j).into_tagged_box());
                cx.check(answers(&a, &b) == answers(&of(i), &of(j)), "borrowed:comparison", || format!("{:?} {:?}", a, b));
                let c2 = a.clone();
                // a change of what is borrowed
                c.set(c.get() + 1);
                let t = (format!("{:?}", a), format!("{:?}", of(i)));
                cx.check(t.0 == t.1 && format!("{:#?}", c2) == format!("{:#?}", of(i)), "borrowed:format", || format!("{:?}", t));
                cx.eval(t.0.as_bytes());
                for b in [a, b, c2] {
                    let d = b.discriminant();
                    let v = Borrowed::from_tagged_box(b);
                    cx.check(v == of(9 - d as u64), "borrowed:back", || format!("{:?}", v));
                }
            }
        }
    }
}
/// A box of something that lives longer is one of something that lives shorter
fn shorter<'a>(b: TaggedBox<Borrowed<'static>>, _: &'a str) -> TaggedBox<Borrowed<'a>> {
    b
}

fn copies<H: Hand + Copy>(cx: &mut Cx) {
    for _ in 0..cx.n(if cfg!(miri) { 3 } else { 60 }) {
        let x = H::gen(&mut Rng::new(cx.rng.u64()));
        cx.case(format!("copies of {} {:?}", H::NAME, x));
        let b = x.into_tagged_box();
        let c = b;
        let d = [b; 3];
        cx.check(d.iter().chain([&b, &c]).all(|b| viewed(b)[0] == x.encoded()), "copy", || format!("{:?}", d));
        // each yields the value
        for b in d.into_iter().chain([c, b]) {
            let y = H::from_tagged_box(b);
            cx.check(y.encoded() == x.encoded(), "copy:value", || format!("{:?} instead of {:?}", y, x));
        }
        cx.eval(&x.encoded());
    }
}

/// Clones of which are other variants than the original
#[derive(Debug, PartialEq)]
enum Handle {
    Owner(Tok),
    Shared(u32),
    Dead,
    Named(String),
}
impl Handle {
    fn gen(r: &mut Rng) -> Self {
        match r.below(5) {
            0 | 1 => Handle::Owner(Val::gen(r)),
            2 => Handle::Shared(r.below(5) as u32),
            3 => Handle::Dead,
            _ => Handle::Named(Val::gen(r)),
        }
    }
    fn disc(&self) -> Discriminant {
        match self {
            Handle::Owner(_) => MAX,
            Handle::Shared(_) => 2,
            Handle::Dead => MAX - 1,
            Handle::Named(_) => 0,
        }
    }
    fn encoded(&self) -> Vec<u8> {
        let mut o = vec![self.disc() as u8];
        match self {
            Handle::Owner(t) => t.enc(&mut o),
            Handle::Shared(n) => n.enc(&mut o),
            Handle::Dead => {}
            Handle::Named(s) => s.enc(&mut o),
        }
        o
    }
}
impl Clone for Handle {
    fn clone(&self) -> Self {
        match self {
            Handle::Owner(t) => Handle::Shared(t.val % 5),
            Handle::Shared(0) | Handle::Dead => Handle::Dead,
            Handle::Shared(n) => Handle::Shared(n - 1),
            Handle::Named(s) if s.len() % 2 == 0 => Handle::Owner(Tok::new(s.len() as u32)),
            Handle::Named(s) => Handle::Named(s[..0].into()),
        }
    }
}
impl TaggableInner for Handle {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        let d = self.disc();
        match self {
            Handle::Owner(t) => TaggedBox::new(t, d),
            Handle::Shared(n) => TaggedBox::new(n, d),
            Handle::Dead => TaggedBox::dangling::<()>(d),
            Handle::Named(s) => TaggedBox::new(s, d),
        }
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        unsafe {
            match b.discriminant() {
                MAX => Handle::Owner(TaggedBox::into_inner(b)),
                2 => Handle::Shared(TaggedBox::into_inner(b)),
                0 => Handle::Named(TaggedBox::into_inner(b)),
                d if d == MAX - 1 => Handle::Dead,
                _ => panic!("no such handle"),
            }
        }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, callback: F) {
        let v = ManuallyDrop::new(match b.discriminant() {
            MAX => Handle::Owner(b.as_ptr::<Tok>().read()),
            2 => Handle::Shared(b.as_ptr::<u32>().read()),
            0 => Handle::Named(b.as_ptr::<String>().read()),
            d if d == MAX - 1 => Handle::Dead,
            _ => panic!("no such handle"),
        });
        callback(&v)
    }
}
fn degrading(cx: &mut Cx) {
    for k in 0..cx.n(if cfg!(miri) { 25 } else { 200 }) {
        let seed = cx.rng.u64();
        let x = Handle::gen(&mut Rng::new(seed));
        cx.case(format!("{:?}, whose clones are other variants (value {})", x, k));
        let res = catch(|| {
            let b = Handle::gen(&mut Rng::new(seed)).into_tagged_box();
            let (mut x, mut b) = (x, b);
            for depth in 0..4 {
                let (y, c) = (x.clone(), b.clone());
                let mut into = Handle::gen(&mut Rng::new(seed ^ depth)).into_tagged_box();
                into.clone_from(&b);
                for (what, c) in [("clone", &c), ("clone_from", &into)] {
                    cx.check(c.discriminant() == y.disc(), "degrading:discriminant", || format!("{} {} of {:?} has the discriminant {}, not that of {:?}", depth, what, x, c.discriminant(), y));
                    let mut seen = None;
                    unsafe { Handle::ref_from_tagged_box(c, |i| seen = Some(i.encoded())) };
                    cx.check(seen == Some(y.encoded()), "degrading:view", || format!("{} {} of {:?} shows {:02x?}, not {:?}", depth, what, x, seen, y));
                }
                cx.check(Handle::from_tagged_box(into).encoded() == y.encoded(), "degrading:value", || format!("clone_from of {:?}", x));
                cx.check(Handle::from_tagged_box(b).encoded() == x.encoded(), "degrading:original", || format!("{:?} changed", x));
                x = y;
                b = c;
                cx.eval(&x.encoded());
            }
            cx.check(Handle::from_tagged_box(b).encoded() == x.encoded(), "degrading:value", || format!("{:?}", x));
        });
        if let Err(m) = res {
            cx.violation("degrading:panic", m)
        }
    }
}
/// A type without size, whose boxes nevertheless hold something
#[derive(Debug)]
struct Marker;
thread_local! { static MARKER: Cell<(u8, u32, u64)> = const { Cell::new((0, 0, 0)) }; }
fn marker(f: impl FnOnce((u8, u32, u64)) -> (u8, u32, u64)) -> (u8, u32, u64) {
    MARKER.with(|m| {
        let x = m.get();
        m.set(f(x));
        x
    })
}
impl Clone for Marker {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> Self {
        marker(|(a, n, c)| (a, n + 1, c));
        Marker
    }
}
impl PartialEq for Marker {
    fn eq(&self, _: &Self) -> bool {
        marker(|m| m).0 & 1 != 0
    }
}
impl PartialOrd for Marker {
    fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
        [None, Some(Ordering::Greater), Some(Ordering::Less), Some(Ordering::Equal)][marker(|m| m).0 as usize % 4]
    }
}
impl TaggableInner for Marker {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        let serial = marker(|(a, n, c)| (a, n, c + 1)).2;
        if serial % 2 == 0 {
            TaggedBox::new(serial, 1)
        } else {
            TaggedBox::new(self, MAX)
        }
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        if b.discriminant() == 1 {
            drop(unsafe { TaggedBox::into_box::<u64>(b) });
        }
        Marker
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(_: &TaggedBox<Self>, callback: F) {
        callback(&Marker)
    }
}
fn markers(cx: &mut Cx) {
    let live = mem::live();
    for answer in 0..8 {
        cx.case(format!("boxes of a zero-sized type whose relations answer {}", answer));
        let res = catch(|| {
            marker(|_| (answer, 0, 0));
            let all: Vec<TaggedBox<Marker>> = (0..4).map(|_| Marker.into_tagged_box()).collect();
            for a in &all {
                for b in &all {
                    cx.check((a == b) == (Marker == Marker), "marker:==", || format!("{}", a == b));
                    cx.check((a != b) == (Marker != Marker), "marker:!=", || format!("{}", a != b));
                    cx.check(a.partial_cmp(b) == Marker.partial_cmp(&Marker), "marker:partial_cmp", || format!("{:?}", a.partial_cmp(b)));
                    cx.eval(format!("marker {} {} {}", answer, a.discriminant(), b.discriminant()).as_bytes());
                }
                cx.check(format!("{:?}", a) == "Marker", "marker:debug", || format!("{:?}", a));
                let n = marker(|m| m).1;
                let c = a.clone();
                cx.check(marker(|m| m).1 > n, "marker:clone", || "cloning the box didn't clone the value".into());
                cx.check(c.discriminant() == if marker(|m| m).2 % 2 == 1 { 1 } else { MAX }, "marker:clone", || "the clone isn't what into_tagged_box made of it".into());
                Marker::from_tagged_box(c);
            }
            for b in all {
                let _ = Marker::from_tagged_box(b);
            }
        });
        if let Err(m) = res {
            cx.violation("marker:panic", m)
        }
    }
    if !cfg!(any(mon_plain, miri)) {
        cx.check(mem::live().0 == live.0 || cx.evals == 0, "marker:heap", || format!("{:?} blocks before, {:?} now", live, mem::live()));
    }
}
fn main() {
    let mut cx = Cx::new("C26");
    macro_rules! either {
        ($($l:ty, $r:ty);*) => { $(
            values::<Either<$l, $r>>(&mut cx, stringify!($l, $r));
            balance::<Either<$l, $r>>(&mut cx, stringify!($l, $r));
        )* };
    }
    values::<Sparse>(&mut cx, "");
    values::<Packed>(&mut cx, "");
    values::<Whole>(&mut cx, "");
    values::<Point>(&mut cx, "");
    values::<Tree>(&mut cx, "");
    either!(Tok, String; ZTok, ZTok64; Vec<Tok>, ());
    if !cfg!(miri) {
        either!(u8, Al64; Big<300>, Vec<Tok>; Padded, (); Option<Box<u8>>, Tok; f64, Weird; [Tok; 2], Z128; AlTop, u8; Rc<String>, [ZTok; 3]; Box<Big<300>>, Option<char>);
        either!(Big<70000>, u8);
    }
    balance::<Whole>(&mut cx, "");
    balance::<Tree>(&mut cx, "");
    sorting::<Sparse>(&mut cx);
    sorting::<Packed>(&mut cx);
    sorting::<Tree>(&mut cx);
    sorting::<Either<Tok, String>>(&mut cx);
    copies::<Packed>(&mut cx);
    copies::<Point>(&mut cx);
    degrading(&mut cx);
    markers(&mut cx);
    cx.check(
        [copies!(TaggedBox<Sparse>), copies!(TaggedBox<Tree>), copies!(TaggedBox<Handle>), copies!(TaggedBox<Marker>), copies!(TaggedBox<Either<u8, u8>>)] == [false; 5],
        "copied",
        || "a box of a type that isn't Copy is Copy".into(),
    );
    cx.check([copies!(TaggedBox<Packed>), copies!(TaggedBox<Point>)] == [true; 2], "not-copied", || "a box of a Copy type isn't Copy".into());
    borrowed(&mut cx);
    let s = String::from("short");
    let b = shorter(Borrowed::Str("static").into_tagged_box(), &s);
    cx.check(Borrowed::from_tagged_box(b) == Borrowed::Str("static"), "borrowed:shorter", || "another value".into());
    for d in [4, 5, 2] {
        unknown::<Sparse>(&mut cx, d);
        unknown::<Tree>(&mut cx, d);
        unknown::<Either<Tok, String>>(&mut cx, d);
        unknown::<Point>(&mut cx, d);
    }
    for d in 4..8 {
        unknown::<Packed>(&mut cx, d);
    }
    if cfg!(not(miri)) {
        let mut all = tbmon::discriminants(&mut Rng::new(cx.seed), 300);
        all.retain(|d| *d > 15 && *d != MAX as u64);
        for d in all {
            unknown::<Packed>(&mut cx, d as Discriminant);
        }
    }
    cx.finish()
}
