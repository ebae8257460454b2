//! C23: tagged pointers compare, order and hash by what they hold
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{BuildHasher, Hash, Hasher};
use tbmon::prelude::*;
use tbmon::{addresses, discriminants};

/// Hashes to everything it is fed
#[derive(Default, Clone)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        tbmon::rng::hash(&self.0)
    }
}
fn tape(t: &TaggedPointer) -> Vec<u8> {
    let mut h = Tape::default();
    t.hash(&mut h);
    h.0
}
fn main() {
    let mut cx = Cx::new("C23");
    let mut r = Rng::new(cx.rng.u64());
    let (na, nd, size) = if cfg!(miri) { (3, 4, 24) } else { (cx.n(40), 16, 260) };
    let (ps, ds) = (addresses(&mut r, na), discriminants(&mut r, nd));
    let rs = std::collections::hash_map::RandomState::new();
    for round in 0..if cfg!(miri) { 1 } else { cx.n(4) } {
        // a pool in which pointers share an address, share a discriminant, or are equal
        let mut pool: Vec<(TaggedPointer, u64, u64)> = vec![];
        // the corners, each twice
        for (p, d) in [(MAX_POINTER_VALUE, MAX_DISCRIMINANT), (MAX_POINTER_VALUE, 0), (8, MAX_DISCRIMINANT), (1, 0)] {
            pool.extend([(TaggedPointer::new(p, d), p, d as u64); 2]);
        }
        while pool.len() < size {
            let (p, d) = (*r.pick(&ps), *r.pick(&ds));
            let (p, d) = match pool.last() {
                Some(l) if r.chance(4) => (l.1, d),
                Some(l) if r.chance(4) => (p, l.2),
                Some(l) if r.chance(6) => (l.1, l.2),
                Some(l) if r.chance(4) => (l.1 ^ 1 << r.below(tbmon::WIDTH as u64), l.2),
                Some(l) if r.chance(4) => (l.1, l.2 ^ 1 << r.below(tbmon::BITS as u64)),
                _ => (p, d),
            };
            pool.push((TaggedPointer::new(p, d as Discriminant), p, d));
        }
        let hashes: Vec<_> = pool.iter().map(|x| (tape(&x.0), rs.hash_one(x.0))).collect();
        // neither hash nor relations depend on where the pointers themselves are
        for (i, x) in pool.iter().enumerate() {
            let mut places = vec![x.0; 3];
            places.rotate_left(1);
            let boxed = Box::new(x.0);
            let copy = x.0;
            for (k, y) in [&places[0], &places[2], &*boxed, &copy, &x.0].into_iter().enumerate() {
                cx.case_at("places", i, k);
                cx.check(tape(y) == hashes[i].0 && rs.hash_one(y) == hashes[i].1, "hash:place", || format!("{:?}", y));
                cx.check(*y == x.0 && *y <= x.0 && *y >= x.0 && y.cmp(&x.0) == Ordering::Equal, "place", || format!("{:?}", y));
                cx.eval_hash(y.as_raw_u64() ^ 0x77 << 40);
            }
        }
        for (i, (a, p, d)) in pool.iter().enumerate() {
            for (j, (b, q, e)) in pool.iter().enumerate() {
                cx.case_at("pool", i, j);
                let same = (p, d) == (q, e);
                let at = || format!("({:#x}, {}) and ({:#x}, {})", p, d, q, e);
                cx.check((a == b) == same && (a != b) != same && (b == a) == same, "==", at);
                cx.check(!same || hashes[i] == hashes[j], "hash", at);
                let o = a.cmp(b);
                cx.check((o == Ordering::Equal) == same, "cmp:equal", || format!("{}: {:?}", at(), o));
                cx.check(b.cmp(a) == o.reverse(), "cmp:antisymmetry", at);
                cx.check(a.partial_cmp(b) == Some(o), "partial_cmp", at);
                cx.check((a < b, a <= b, a > b, a >= b) == (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()), "operators", at);
                cx.check(*a.max(b) == (if o.is_gt() { *a } else { *b }) && *a.min(b) == (if o.is_gt() { *b } else { *a }), "max-min", at);
                cx.eval_hash(a.as_raw_u64().rotate_left(17) ^ b.as_raw_u64());
                cx.count(if same { "equal pairs" } else if p == q { "pairs of one address" } else if d == e { "pairs of one discriminant" } else { "other pairs" }, 1);
            }
        }
        // transitivity
        let n = pool.len();
        for _ in 0..if cfg!(miri) { 300 } else { 60_000 } {
            let (i, j, k) = (r.idx(n), r.idx(n), r.idx(n));
            let (a, b, c) = (pool[i].0, pool[j].0, pool[k].0);
            cx.check(!(a <= b && b <= c) || a <= c, "transitivity", || format!("{:?} {:?} {:?}", a, b, c));
            cx.check(!(a == b && b == c) || a == c, "transitivity:==", || format!("{:?} {:?} {:?}", a, b, c));
            cx.eval_hash(a.as_raw_u64() ^ b.as_raw_u64().rotate_left(9) ^ c.as_raw_u64().rotate_left(31));
        }
        // sorting is independent of the input's order; maps keyed by pointers are maps keyed by what they hold
        let mut a: Vec<_> = pool.iter().map(|x| x.0).collect();
        let mut b = a.clone();
        for i in (1..b.len()).rev() {
            b.swap(i, r.idx(i + 1));
        }
        a.sort();
        b.sort();
        cx.check(a == b, "sort", || "depends on the order before".into());
        let (mut h, mut t, mut m) = (HashMap::new(), BTreeMap::new(), BTreeMap::new());
        for step in 0..if cfg!(miri) { 60 } else { 2000 } {
            let (x, p, d) = *r.pick(&pool);
            let y = x; // a copy of the key
            if r.chance(3) {
                let out = (h.remove(&y), t.remove(&y), m.remove(&(p, d)));
                cx.check(out.0 == out.2 && out.1 == out.2, "map", || format!("removing ({:#x}, {}): {:?}", p, d, out));
            } else {
                let out = (h.insert(y, step), t.insert(y, step), m.insert((p, d), step));
                cx.check(out.0 == out.2 && out.1 == out.2, "map", || format!("inserting ({:#x}, {}): {:?}", p, d, out));
            }
            cx.eval_hash(x.as_raw_u64() ^ 0x1234 ^ round);
        }
        cx.check(t.keys().map(|k| (k.as_u64(), k.discriminant() as u64)).collect::<BTreeSet<_>>() == m.keys().copied().collect(), "map", || "the keys differ".into());
    }
    cx.finish()
}
