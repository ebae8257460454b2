//! C25: enums that hold containers and boxes of themselves and of other tagged enums
#![recursion_limit = "4096"]
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use tbmon::prelude::*;

/// The same enums and functions twice: with `tagged_box!`, and with a plain Box in the container
macro_rules! both {
    ($( { $(#[$m:meta])* struct $S:ident, enum $E:ident { $($v:tt)* } } )* fns { $($f:item)* }) => {
        pub mod real {
            use super::*;
            /// What the enums hold where they hold a box and not a container
            pub type Boxed<T> = TaggedBox<T>;
            pub fn boxed<T: TaggableInner>(t: T) -> TaggedBox<T> { t.into_tagged_box() }
            pub fn unboxed<T: TaggableInner>(t: TaggedBox<T>) -> T { T::from_tagged_box(t) }
            pub fn seen<T: TaggableInner, R>(b: &TaggedBox<T>, f: impl FnOnce(&T) -> R) -> R {
                let mut r = None;
                let n = Cell::new(0);
                unsafe { T::ref_from_tagged_box(b, |t| { n.set(n.get() + 1); r = Some(f(t)) }) };
                assert!(n.get() == 1);
                r.unwrap()
            }
            $( tagged_box! { $(#[$m])* pub struct $S, pub enum $E { $($v)* } }
            impl $S {
                pub fn open(self) -> $E { self.into_inner() }
                pub fn unwrapped(self) -> Boxed<$E> { self.value }
                pub fn wrapped(b: Boxed<$E>) -> Self { $S { value: b } }
                pub fn inside(&self) -> &Boxed<$E> { &self.value }
            } )*
            pub fn cons(t: Tok, l: List) -> List { List::from((t, l)) }
            pub fn many(v: Vec<List>) -> List { List::from(v) }
            pub fn add(a: Expr, b: Expr) -> Expr { Expr::from((a, b)) }
            pub fn neg(a: Expr) -> Expr { Expr::from(ExprKind::Neg { of: a }) }
            pub fn eval(a: Expr) -> Stmt { Stmt::from(a) }
            $($f)*
        }
        pub mod plain {
            use super::*;
            pub type Boxed<T> = Box<T>;
            pub fn boxed<T>(t: T) -> Box<T> { Box::new(t) }
            pub fn unboxed<T>(t: Box<T>) -> T { *t }
            pub fn seen<T, R>(b: &Box<T>, f: impl FnOnce(&T) -> R) -> R { f(b) }
            $( $(#[$m])* pub struct $S { value: Box<$E> }
            $(#[$m])* pub enum $E { $($v)* }
            impl From<$E> for $S { fn from(e: $E) -> Self { $S { value: Box::new(e) } } }
            impl $S {
                pub fn open(self) -> $E { *self.value }
                pub fn unwrapped(self) -> Boxed<$E> { self.value }
                pub fn wrapped(b: Boxed<$E>) -> Self { $S { value: b } }
                pub fn inside(&self) -> &Boxed<$E> { &self.value }
            } )*
            pub fn cons(t: Tok, l: List) -> List { ListKind::Cons(t, l).into() }
            pub fn many(v: Vec<List>) -> List { ListKind::Many(v).into() }
            pub fn add(a: Expr, b: Expr) -> Expr { ExprKind::Add(a, b).into() }
            pub fn neg(a: Expr) -> Expr { ExprKind::Neg { of: a }.into() }
            pub fn eval(a: Expr) -> Stmt { StmtKind::Eval(a).into() }
            $($f)*
        }
    };
}

both! {
    {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
        struct List, enum ListKind {
            Nil,
            Cons(Tok, List),
            Fork { left: List, right: List, tag: u8 },
            Many(Vec<List>),
            Maybe(Option<List>, u8),
            Bare(Boxed<ListKind>),
            Three([List; 3]),
            Outside(Shared, Expr),
            Leaf(u64),
        }
    }
    {
        #[derive(Debug, Clone, PartialEq, PartialOrd)]
        struct Expr, enum ExprKind {
            Num(f64),
            Name(String),
            Neg { of: Expr },
            Add(Expr, Expr),
            Call { function: Boxed<ExprKind>, arguments: Vec<Expr>, },
            Block { body: Vec<Stmt>, result: Expr },
            Quote(Box<Boxed<StmtKind>>),
            Owner(Tok),
            Unit,
        }
    }
    {
        #[derive(Debug, Clone, PartialEq, PartialOrd)]
        struct Stmt, enum StmtKind {
            Skip,
            Let { name: String, val: Expr, },
            Eval(Expr),
            If(Expr, Vec<Stmt>, Option<Stmt>),
            Pair(Boxed<StmtKind>, Boxed<ExprKind>),
        }
    }
    fns {
        /// (expressions have no total order of their own)
        #[derive(Debug, Clone, PartialEq, PartialOrd)]
        pub struct Ordered(pub Expr);
        pub type Shared = Rc<u32>;

        impl Eq for Expr {}
        impl Ord for Expr {
            fn cmp(&self, o: &Self) -> Ordering { self.partial_cmp(o).unwrap_or(Ordering::Greater) }
        }

        pub fn list(r: &mut Rng, d: usize) -> List {
            if d == 0 {
                return match r.below(4) {
                    0 => ListKind::Nil.into(),
                    1 => ListKind::Leaf(r.edgy()).into(),
                    2 => ListKind::Leaf(r.below(3)).into(),
                    _ => { let l = ListKind::Nil.into(); cons(Tok::new(r.below(4) as u32), l) }
                };
            }
            let d = d - 1;
            match r.below(9) {
                0 => ListKind::Nil.into(),
                1 | 2 => { let t = Tok::new(r.below(6) as u32); let l = list(r, d); cons(t, l) }
                3 => { let left = list(r, d); let right = list(r, d / 2); ListKind::Fork { left, right, tag: r.u64() as u8 }.into() }
                4 => { let n = r.below(4); many((0..n).map(|_| list(r, d / 2)).collect()) }
                5 => { let l = if r.chance(3) { None } else { Some(list(r, d)) }; ListKind::Maybe(l, r.below(3) as u8).into() }
                6 => List::wrapped(boxed(ListKind::Bare(list(r, d).unwrapped()))),
                7 => { let a = [list(r, d / 2), list(r, d / 3), list(r, 0)]; ListKind::Three(a).into() }
                _ => { let e = expr(r, d / 2); ListKind::Outside(Rc::new(r.below(3) as u32), e).into() }
            }
        }
        pub fn expr(r: &mut Rng, d: usize) -> Expr {
            if d == 0 {
                return match r.below(4) {
                    0 => ExprKind::Num(Val::gen(r)).into(),
                    1 => ExprKind::Name(Val::gen(r)).into(),
                    2 => ExprKind::Owner(Tok::new(r.below(4) as u32)).into(),
                    _ => ExprKind::Unit.into(),
                };
            }
            let d = d - 1;
            match r.below(7) {
                0 => neg(expr(r, d)),
                1 | 2 => { let a = expr(r, d); let b = expr(r, d / 2); add(a, b) }
                3 => { let function = expr(r, d / 2).unwrapped(); let n = r.below(3); let arguments = (0..n).map(|_| expr(r, d / 2)).collect(); ExprKind::Call { function, arguments }.into() }
                4 => { let n = r.below(3); let body = (0..n).map(|_| stmt(r, d / 2)).collect(); let result = expr(r, d); ExprKind::Block { body, result }.into() }
                5 => Expr::wrapped(boxed(ExprKind::Quote(Box::new(stmt(r, d).unwrapped())))),
                _ => expr(r, 0),
            }
        }
        pub fn stmt(r: &mut Rng, d: usize) -> Stmt {
            if d == 0 {
                return StmtKind::Skip.into();
            }
            let d = d - 1;
            match r.below(5) {
                0 => { let name = Val::gen(r); let val = expr(r, d); StmtKind::Let { name, val }.into() }
                1 => eval(expr(r, d)),
                2 => { let c = expr(r, d / 2); let n = r.below(3); let a = (0..n).map(|_| stmt(r, d / 2)).collect(); let b = if r.chance(2) { None } else { Some(stmt(r, d)) }; StmtKind::If(c, a, b).into() }
                3 => { let a = stmt(r, d).unwrapped(); let b = expr(r, d / 2).unwrapped(); StmtKind::Pair(a, b).into() }
                _ => StmtKind::Skip.into(),
            }
        }

        // exact encodings, through views
        pub fn see_list(b: &Boxed<ListKind>, o: &mut Vec<u8>) {
            seen(b, |k| match k {
                ListKind::Nil => o.push(0),
                ListKind::Cons(t, l) => { o.push(1); t.enc(o); see_list(l.inside(), o) }
                ListKind::Fork { left, right, tag } => { o.push(2); see_list(left.inside(), o); see_list(right.inside(), o); tag.enc(o) }
                ListKind::Many(v) => { o.push(3); v.len().enc(o); v.iter().for_each(|l| see_list(l.inside(), o)) }
                ListKind::Maybe(m, n) => { o.push(4); n.enc(o); if let Some(l) = m { see_list(l.inside(), o) } else { o.push(99) } }
                ListKind::Bare(b) => { o.push(5); see_list(b, o) }
                ListKind::Three(a) => { o.push(6); a.iter().for_each(|l| see_list(l.inside(), o)) }
                ListKind::Outside(s, e) => { o.push(7); s.enc(o); see_expr(e.inside(), o) }
                ListKind::Leaf(n) => { o.push(8); n.enc(o) }
            })
        }
        pub fn see_expr(b: &Boxed<ExprKind>, o: &mut Vec<u8>) {
            seen(b, |k| match k {
                ExprKind::Num(n) => { o.push(10); n.enc(o) }
                ExprKind::Name(n) => { o.push(11); n.enc(o) }
                ExprKind::Neg { of: e } => { o.push(12); see_expr(e.inside(), o) }
                ExprKind::Add(e, f) => { o.push(13); see_expr(e.inside(), o); see_expr(f.inside(), o) }
                ExprKind::Call { function, arguments } => { o.push(14); see_expr(function, o); arguments.len().enc(o); arguments.iter().for_each(|e| see_expr(e.inside(), o)) }
                ExprKind::Block { body, result } => { o.push(15); body.len().enc(o); body.iter().for_each(|s| see_stmt(s.inside(), o)); see_expr(result.inside(), o) }
                ExprKind::Quote(s) => { o.push(16); see_stmt(s, o) }
                ExprKind::Owner(t) => { o.push(17); t.enc(o) }
                ExprKind::Unit => o.push(18),
            })
        }
        pub fn see_stmt(b: &Boxed<StmtKind>, o: &mut Vec<u8>) {
            seen(b, |k| match k {
                StmtKind::Skip => o.push(20),
                StmtKind::Let { name, val } => { o.push(21); name.enc(o); see_expr(val.inside(), o) }
                StmtKind::Eval(e) => { o.push(22); see_expr(e.inside(), o) }
                StmtKind::If(c, a, b) => { o.push(23); see_expr(c.inside(), o); a.len().enc(o); a.iter().for_each(|s| see_stmt(s.inside(), o)); if let Some(s) = b { see_stmt(s.inside(), o) } else { o.push(98) } }
                StmtKind::Pair(a, b) => { o.push(24); see_stmt(a, o); see_expr(b, o) }
            })
        }

        // the same by taking everything apart; the tokens met are collected
        pub fn eat_list(k: ListKind, o: &mut Vec<u8>, t: &mut Vec<Tok>) {
            match k {
                ListKind::Nil => o.push(0),
                ListKind::Cons(x, l) => { o.push(1); x.enc(o); t.push(x); eat_list(l.open(), o, t) }
                ListKind::Fork { left, right, tag } => { o.push(2); eat_list(left.open(), o, t); eat_list(unboxed(right.unwrapped()), o, t); tag.enc(o) }
                ListKind::Many(v) => { o.push(3); v.len().enc(o); v.into_iter().for_each(|l| eat_list(l.open(), o, t)) }
                ListKind::Maybe(m, n) => { o.push(4); n.enc(o); if let Some(l) = m { eat_list(l.open(), o, t) } else { o.push(99) } }
                ListKind::Bare(b) => { o.push(5); eat_list(unboxed(b), o, t) }
                ListKind::Three(a) => { o.push(6); a.into_iter().for_each(|l| eat_list(l.open(), o, t)) }
                ListKind::Outside(s, e) => { o.push(7); s.enc(o); eat_expr(e.open(), o, t) }
                ListKind::Leaf(n) => { o.push(8); n.enc(o) }
            }
        }
        pub fn eat_expr(k: ExprKind, o: &mut Vec<u8>, t: &mut Vec<Tok>) {
            match k {
                ExprKind::Num(n) => { o.push(10); n.enc(o) }
                ExprKind::Name(n) => { o.push(11); n.enc(o) }
                ExprKind::Neg { of: e } => { o.push(12); eat_expr(e.open(), o, t) }
                ExprKind::Add(e, f) => { o.push(13); eat_expr(e.open(), o, t); eat_expr(f.open(), o, t) }
                ExprKind::Call { function, arguments } => { o.push(14); eat_expr(unboxed(function), o, t); arguments.len().enc(o); arguments.into_iter().for_each(|e| eat_expr(e.open(), o, t)) }
                ExprKind::Block { body, result } => { o.push(15); body.len().enc(o); body.into_iter().for_each(|s| eat_stmt(s.open(), o, t)); eat_expr(result.open(), o, t) }
                ExprKind::Quote(s) => { o.push(16); eat_stmt(unboxed(*s), o, t) }
                ExprKind::Owner(x) => { o.push(17); x.enc(o); t.push(x) }
                ExprKind::Unit => o.push(18),
            }
        }
        pub fn eat_stmt(k: StmtKind, o: &mut Vec<u8>, t: &mut Vec<Tok>) {
            match k {
                StmtKind::Skip => o.push(20),
                StmtKind::Let { name, val } => { o.push(21); name.enc(o); eat_expr(val.open(), o, t) }
                StmtKind::Eval(e) => { o.push(22); eat_expr(e.open(), o, t) }
                StmtKind::If(c, a, b) => { o.push(23); eat_expr(c.open(), o, t); a.len().enc(o); a.into_iter().for_each(|s| eat_stmt(s.open(), o, t)); if let Some(s) = b { eat_stmt(s.open(), o, t) } else { o.push(98) } }
                StmtKind::Pair(a, b) => { o.push(24); eat_stmt(unboxed(a), o, t); eat_expr(unboxed(b), o, t) }
            }
        }

        /// Change something somewhere inside
        pub fn change(l: List, r: &mut Rng, d: usize) -> List {
            if r.chance(6) {
                drop_all(l);
                return list(r, d.min(2));
            }
            match l.open() {
                ListKind::Cons(mut t, l) => {
                    if r.chance(2) { t = Tok::new(t.val + 1) }
                    let l = change(l, r, d);
                    cons(t, l)
                }
                ListKind::Fork { left, right, tag } => if r.chance(2) {
                    ListKind::Fork { left: change(right, r, d), right: left, tag }.into()
                } else {
                    ListKind::Fork { right: change(right, r, d), left, tag: tag ^ 1 }.into()
                },
                ListKind::Many(mut v) => {
                    if v.is_empty() || r.chance(4) { v.push(list(r, d / 2)) } else if r.chance(3) { drop_all(v.pop().unwrap()) } else { let k = r.idx(v.len()); let x = v.swap_remove(k); v.push(change(x, r, d)); if r.chance(2) { v.reverse() } }
                    many(v)
                }
                ListKind::Maybe(Some(l), n) => if r.chance(2) { change(l, r, d) } else { ListKind::Maybe(Some(change(l, r, d)), n).into() },
                ListKind::Maybe(None, n) => { let x = list(r, d); ListKind::Maybe(Some(x), n).into() }
                ListKind::Bare(b) => ListKind::Bare(change(List::wrapped(b), r, d).unwrapped()).into(),
                ListKind::Three([a, b, c]) => { let x = change(c, r, d); ListKind::Three([b, x, a]).into() }
                ListKind::Outside(s, e) => { let e = add(neg(e), expr(r, 1)); ListKind::Outside(s, e).into() }
                ListKind::Nil => ListKind::Leaf(r.below(5)).into(),
                ListKind::Leaf(n) => ListKind::Maybe(Some(ListKind::Leaf(n / 2).into()), 1).into(),
            }
        }
        pub fn drop_all(l: List) { eat_list(l.open(), &mut vec![], &mut vec![]) }

        impl std::fmt::Display for ListKind {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                match self {
                    ListKind::Nil => f.pad("nil"),
                    ListKind::Cons(t, l) => { std::fmt::Display::fmt(t, f)?; f.write_str(" : ")?; std::fmt::Display::fmt(l.inside(), f) }
                    ListKind::Fork { left, right, tag } => write!(f, "({} <{}> {:>9})", left.inside(), tag, right.inside()),
                    ListKind::Many(v) => { f.write_str("[")?; for l in v { write!(f, "{},", l.inside())? } f.write_str("]") }
                    ListKind::Maybe(Some(l), n) => { write!(f, "{}?", n)?; std::fmt::Display::fmt(l.inside(), f) }
                    ListKind::Bare(b) => { f.write_str("!")?; std::fmt::Display::fmt(b, f) }
                    ListKind::Three([a, b, c]) => write!(f, "{}|{}|{}", c.inside(), b.inside(), a.inside()),
                    other => std::fmt::Debug::fmt(other, f),
                }
            }
        }
        pub fn texts(l: &List, w: usize) -> [String; 6] {
            [format!("{:?}", l), format!("{:#?}", l), format!("{:?}", l.inside()), format!("{}", l.inside()), format!("{:>w$.3}", l.inside(), w = w), format!("{:04x?}", l)]
        }
        /// All answers of one comparison
        pub fn answers(a: &List, b: &List) -> String {
            let (x, y) = (a.inside(), b.inside());
            format!("{} {} {} {} {} {} {:?} {:?} {} {} {:?} {:?}", a == b, a != b, a < b, a <= b, a > b, a >= b, a.partial_cmp(b), a.cmp(b), x == y, x < y, x.partial_cmp(y), x.cmp(y))
        }
        pub fn answers_e(a: &Expr, b: &Expr) -> String {
            let (x, y) = (a.inside(), b.inside());
            format!("{} {} {} {} {} {} {:?} {} {} {:?}", a == b, a != b, a < b, a <= b, a > b, a >= b, a.partial_cmp(b), x == y, x < y, x.partial_cmp(y))
        }
        pub fn seen_list(l: &List) -> Vec<u8> { let mut o = vec![]; see_list(l.inside(), &mut o); o }
        pub fn eaten(l: List) -> (Vec<u8>, Vec<Tok>) { let (mut o, mut t) = (vec![], vec![]); eat_list(l.open(), &mut o, &mut t); (o, t) }
        /// A list of `n` tokens
        pub fn long(n: u32) -> List { let mut l: List = ListKind::Nil.into(); for k in 0..n { l = if k % 7 == 3 { ListKind::Maybe(Some(l), 2).into() } else { cons(Tok::new(k), l) } } l }
        pub fn folded(mut l: List) -> u64 {
            let mut n = 0u64;
            loop {
                match l.open() {
                    ListKind::Cons(t, x) => { n = n.wrapping_mul(31) + t.val as u64; l = x }
                    ListKind::Maybe(Some(x), _) => { n += 7; l = x }
                    _ => return n,
                }
            }
        }
        pub fn depth(b: &Boxed<ListKind>) -> u64 {
            seen(b, |k| match k { ListKind::Cons(_, l) | ListKind::Maybe(Some(l), _) => 1 + depth(l.inside()), _ => 0 })
        }
        pub fn keys(v: &[List]) -> Vec<(Vec<u8>, usize)> {
            let mut m: BTreeMap<List, usize> = BTreeMap::new();
            for (i, l) in v.iter().enumerate() { m.entry(l.clone()).or_insert(i); }
            m.into_iter().map(|(k, i)| (seen_list(&k), i)).collect()
        }
    }
}

fn same<A: PartialEq + std::fmt::Debug>(cx: &mut Cx, sig: &str, a: A, b: A) -> bool {
    let d = || {
        let (x, y) = (format!("{:?}", a), format!("{:?}", b));
        let k = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count().saturating_sub(60);
        let cut = |s: &str| s.bytes().skip(k).take(200).map(|b| b as char).collect::<String>();
        format!("tagged: ..{} plain: ..{}", cut(&x), cut(&y))
    };
    if a != b {
        let d = d();
        cx.violation(sig, d);
        return false;
    }
    true
}

/// A pool of pairs that have to stay the same
fn history(cx: &mut Cx, steps: u64, most: usize) {
    let mut pool: Vec<(real::List, plain::List)> = vec![];
    for step in 0..steps {
        let seed = cx.rng.u64();
        let op = cx.rng.below(10);
        let mut r = Rng::new(seed);
        let (i, j) = (r.idx(pool.len().max(1)), r.idx(pool.len().max(1)));
        cx.case(format!("step {} op {} on {} and {} of {}", step, op, i, j, pool.len()));
        if pool.len() < 3 || op == 0 && pool.len() < 12 {
            let d = r.idx(most);
            let p = (real::list(&mut r.clone(), d), plain::list(&mut r.clone(), d));
            pool.push(p);
            continue;
        }
        match op {
            0 | 1 => {
                // taken apart
                let (a, b) = pool.swap_remove(i);
                let before = tok::census();
                let ((e, t), (f, u)) = (real::eaten(a), plain::eaten(b));
                same(cx, "taken-apart", e, f);
                let after = tok::census();
                cx.check(after.drops == before.drops, "taken-apart:destroys", || format!("{} values destroyed", after.drops - before.drops));
                let ids: std::collections::BTreeSet<u32> = t.iter().map(|t| t.id).collect();
                cx.check(ids.len() == t.len() && t.len() == u.len() && t.iter().all(Tok::sound), "taken-apart:tokens", || format!("{} tokens, {} distinct, {} expected", t.len(), ids.len(), u.len()));
                let n = t.len() as u64;
                drop(t);
                cx.check(tok::census().drops - after.drops == n, "taken-apart:drops", || "a token was not destroyed once".into());
                cx.count("tokens taken out", n);
            }
            2 => {
                let c = (pool[i].0.clone(), pool[i].1.clone());
                pool.push(c);
            }
            3 => {
                // a box assigned, a container assigned
                if i != j {
                    let c = if r.chance(2) { real::List::wrapped(pool[j].0.inside().clone()) } else { pool[j].0.clone() };
                    let o = std::mem::replace(&mut pool[i].0, c);
                    real::drop_all(o);
                    let c = pool[j].1.clone();
                    pool[i].1 = c;
                }
            }
            4 | 5 => {
                let (a, b) = pool.swap_remove(i);
                let d = r.idx(most);
                pool.push((real::change(a, &mut r.clone(), d), plain::change(b, &mut r.clone(), d)));
            }
            6 => {
                let w = r.idx(30);
                let (a, b) = (real::texts(&pool[i].0, w), plain::texts(&pool[i].1, w));
                for (n, (a, b)) in a.into_iter().zip(b).enumerate() {
                    same(cx, &format!("format {}", n), a.replace("real::", ""), b.replace("plain::", ""));
                }
            }
            7 => {
                for (i, j) in [(i, j), (j, i), (i, i)] {
                    let x = real::answers(&pool[i].0, &pool[j].0);
                    same(cx, "comparison", x, plain::answers(&pool[i].1, &pool[j].1));
                }
            }
            8 => {
                // (with relations that are no order, sorting may give anything)
                let mut r2 = r.clone();
                let (a, b) = ((real::expr(&mut r, 3), real::expr(&mut r, 2)), (plain::expr(&mut r2, 3), plain::expr(&mut r2, 2)));
                let x = real::answers_e(&a.0, &a.1) + &real::answers_e(&a.0, &a.0) + &format!("{:?}{:#?}", a, a.0.inside());
                same(cx, "comparison of expressions", x, plain::answers_e(&b.0, &b.1) + &plain::answers_e(&b.0, &b.0) + &format!("{:?}{:#?}", b, b.0.inside()));
                let (mut o, mut p, mut t) = (vec![], vec![], vec![]);
                real::see_expr(a.0.inside(), &mut o);
                plain::see_expr(b.0.inside(), &mut p);
                same(cx, "view of an expression", o, p);
                let (mut o, mut p) = (vec![], vec![]);
                real::eat_expr(a.0.clone().open(), &mut o, &mut t);
                plain::eat_expr(b.0.clone().open(), &mut p, &mut t);
                same(cx, "expression taken apart", o, p);
                let (mut o, mut p) = (vec![], vec![]);
                real::eat_expr(a.0.open(), &mut o, &mut t);
                plain::eat_expr(b.0.open(), &mut p, &mut t);
                same(cx, "expression taken apart", o, p);
                real::eat_expr(a.1.open(), &mut vec![], &mut t);
            }
            _ => {
                let a: Vec<real::List> = pool.iter().map(|p| p.0.clone()).collect();
                let b: Vec<plain::List> = pool.iter().map(|p| p.1.clone()).collect();
                same(cx, "keys of a map", real::keys(&a), plain::keys(&b));
                a.into_iter().for_each(real::drop_all);
            }
        }
        let mut e = vec![];
        for k in 0..pool.len() {
            e = real::seen_list(&pool[k].0);
            if !same(cx, "view", &e, &plain::seen_list(&pool[k].1)) {
                return; // (nothing more can be trusted)
            }
        }
        cx.observe(&e);
        cx.max("most bytes of one value", e.len() as u64);
        e.push(op as u8);
        cx.eval(&e);
        cx.collect();
    }
    for (a, b) in pool {
        let ((e, _), (f, _)) = (real::eaten(a), plain::eaten(b));
        same(cx, "taken apart at the end", e, f);
    }
    if tok::filling() {
        tok::reset();
    }
}

fn deep(cx: &mut Cx, n: u32) {
    cx.case(format!("a list of {}", n));
    let (a, b) = (real::long(n), plain::long(n));
    let c = a.clone();
    let mut d = real::List::from(real::ListKind::Nil);
    d.clone_from(&a);
    cx.check(a == c && c <= d && a.cmp(&c) == Ordering::Equal, "deep:equal", || "a clone is not equal".into());
    let s = real::depth(a.inside());
    same(cx, "deep:depth", s, plain::depth(b.inside()));
    let s = format!("{:?}{}", a, c.inside());
    same(cx, "deep:format", s, format!("{:?}{}", b, b.inside()));
    let e = real::seen_list(&d);
    cx.eval(&e);
    same(cx, "deep:view", e, plain::seen_list(&b));
    // one after the other, as none may hang on to another's parts
    let w = plain::folded(b);
    for l in [c, a, d] {
        same(cx, "deep:folded", real::folded(l), w);
        cx.collect();
    }
    if tok::filling() {
        tok::reset();
    }
}

fn run() {
    let mut cx = Cx::new("C25");
    for k in 0..cx.n(if cfg!(miri) { 3 } else { 100 }) {
        let (steps, most) = if cfg!(miri) { (14, 4) } else { (150, 4 + (k % 6) as usize) };
        let r = catch(|| history(&mut cx, steps, most));
        if let Err(m) = r {
            cx.violation("panic", m);
        }
    }
    for n in if cfg!(miri) { vec![8] } else { vec![0, 1, 10, 100, 300, 700, 3000] } {
        if let Err(m) = catch(|| deep(&mut cx, n)) {
            cx.violation("panic", m);
        }
    }
    cx.finish()
}
fn main() {
    if cfg!(miri) {
        return run();
    }
    // (deep values need a deep stack: views nest as the values do)
    std::thread::Builder::new().stack_size(1 << 29).spawn(run).unwrap().join().unwrap()
}
