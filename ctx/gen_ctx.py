#!/usr/bin/env python3
"""Writes programs that invoke tagged_box! in all kinds of places: gen_ctx.py OUT.rs --seed N [--units K]

Every unit is an enum with a check of its values; a program prints the number of comparisons made.
"""
import argparse, json, random

# (type, two different values): written in as many ways as types can be
TYPES = [
    ('u8', '7', '8'), ('i64', '-5', '6'), ('bool', 'true', 'false'), ('char', "'x'", "'\\u{1F980}'"), ('()', '()', '()'),
    ('u128', '1 << 100', '3'), ('f64', '0.5', '-0.0'), ("&'static str", '"a"', '""'), ("&'static [u8]", '&[1, 2]', '&[]'),
    ('std::string::String', '"s".to_string()', 'std::string::String::new()'), ('::std::vec::Vec<u16>', 'vec![1, 2]', 'vec![]'),
    ('std::collections::BTreeMap<u8, (u16, bool)>', 'std::iter::once((1, (2, true))).collect()', 'std::collections::BTreeMap::new()'),
    ('std::result::Result<u8, std::string::String>', 'Ok(3)', 'Err("e".into())'), ('std::option::Option<std::boxed::Box<u32>>', 'None', 'Some(std::boxed::Box::new(4))'),
    ('[u16; 2 + 1]', '[1, 2, 3]', '[4; 3]'), ('[u8; SIZE]', '[1; SIZE]', '[2; SIZE]'), ('[[u8; 2]; { 1 + 1 }]', '[[1, 2], [3, 4]]', '[[0; 2]; 2]'),
    ('(u8,)', '(1,)', '(2,)'), ('(u8, (u16, [bool; 1]), ())', '(1, (2, [true]), ())', '(3, (4, [false]), ())'),
    ('fn(u8) -> u8', 'inc as fn(u8) -> u8', 'dec as fn(u8) -> u8'), ("for<'a> fn(&'a u8) -> &'a u8", "same as for<'a> fn(&'a u8) -> &'a u8", "also as for<'a> fn(&'a u8) -> &'a u8"),
    ('unsafe extern "C" fn()', 'nothing as unsafe extern "C" fn()', 'nothing2 as unsafe extern "C" fn()'),
    ('<u32 as crate::Assoc>::Out', '9', '10'), ('<crate::Local as ::std::ops::Deref>::Target', '11', '12'),
    ('crate::Local', 'crate::Local(1)', 'crate::Local(2)'), ('Other', 'Other(3)', 'Other(4)'), ('T', 'T(3)', 'T(4)'), ('crate::deep::er::Thing<u8>', 'crate::deep::er::Thing(1)', 'crate::deep::er::Thing(2)'),
    ('crate::deep::er::Thing<crate::deep::er::Thing<crate::Local>>', 'crate::deep::er::Thing(crate::deep::er::Thing(crate::Local(5)))', 'crate::deep::er::Thing(crate::deep::er::Thing(crate::Local(6)))'),
    ('crate::Sized_<3>', 'crate::Sized_([1; 3])', 'crate::Sized_([2; 3])'), ('crate::Sized_<{ 2 + 2 }>', 'crate::Sized_([1; 4])', 'crate::Sized_([2; 4])'),
    ('crate::alias!()', '21', '22'), ('crate::Both', 'crate::Both { a: 1, b: 2 }', 'crate::Both { a: 2, b: 1 }'),
    ('std::marker::PhantomData<fn(str)>', 'std::marker::PhantomData', 'std::marker::PhantomData'), ('std::num::NonZeroI16', 'std::num::NonZeroI16::MIN', 'std::num::NonZeroI16::MAX'),
    ("std::borrow::Cow<'static, str>", '"cow".into()', '"ox".to_string().into()'), ('*const u8', 'std::ptr::null()', 'std::ptr::null::<u8>().wrapping_add(8)'),
    ('std::rc::Rc<[u8]>', 'vec![1u8].into()', 'vec![].into()'), ('std::boxed::Box<str>', '"b".into()', '"".into()'), ('std::time::Duration', 'std::time::Duration::new(1, 2)', 'std::time::Duration::default()'),
]
# types and constants with names that come to mind for helpers, which the expansion must not take for its own
COMMON = ['Fields', 'Payload', 'Data', 'Repr', 'Storage', 'Inner', 'Value', 'Variant', 'Layout', 'Helper', 'Temp', 'Wrapper', 'Raw', 'Contents', 'Args', 'Tuple', 'Struct', 'Named', 'Counter', 'Discriminant',
          'Discrim', 'Tag', 'Kind', 'Reader', 'View', 'Guard', 'Holder', 'Boxed', 'Parts', 'Record', 'Callback', 'Output', 'Container', 'TaggedBox', 'TaggedPointer', 'ManuallyDrop', 'Variants', 'Enum', 'Members',
          'Stored', 'Content', 'Body', 'Cell', 'Slot', 'Buffer', 'Aggregate', 'Target', 'Target_', 'Bits', 'Word', 'Aligned', 'ReprC', 'CRepr', 'C', 'S', 'I', 'V', 'X', 'Ty', 'F', 'Inner_', '__Fields', '__Inner', 'Tmp', 'Local', 'NonNull', 'PhantomData', 'MaybeUninit', 'Debug', 'Display', 'Formatter', 'Ordering', 'Deref', 'Borrow', 'Error', 'Discriminant_', 'Hasher', 'Taggable', 'TaggableInner_', 'Size', 'Never', 'Void', 'Unit', 'Infallible',
          'String', 'Vec', 'Box', 'Result', 'Option']
CONSTS = ['COUNT', 'TOTAL', 'LEN', 'N', 'SIZE', 'MAX', 'MIN', 'VARIANTS', 'DISCRIMINANT', 'DISCRIM', 'INDEX', 'BITS', 'TOTAL_VARIANTS', 'VARIANT_COUNT', 'NUM_VARIANTS', 'NUMBER', 'WIDTH', 'ALIGN', 'MASK', 'ID', 'M', 'K', 'TAG', 'MAX_DISCRIMINANT', 'POINTER_WIDTH', 'LAST', 'OFFSET', 'TOTAL_', 'ARITY', 'FIELDS']
TYPES += [(n, '%s(%d)' % (n, i), '%s(%d)' % (n, i + 1)) for i, n in enumerate(COMMON) if n != 'Local']
TYPES += [('[u16; %s]' % n, '[1; %s]' % n, '[2; %s]' % n) for n in CONSTS if n != 'SIZE']
# what cannot be compared: (type, value, what holds of it)
ODD = [
    ('std::boxed::Box<dyn std::ops::Fn(u8) -> u8>', 'std::boxed::Box::new(|x| x + 1)', 'x(4) == 5'), ('std::boxed::Box<dyn std::fmt::Debug + Send + \'static>', 'std::boxed::Box::new(5u8)', 'format!("{:?}", x) == "5"'),
    ('std::cell::Cell<u8>', 'std::cell::Cell::new(3)', 'x.get() == 3'), ('crate::NoTraits', 'crate::NoTraits(8)', 'x.0 == 8'), ('std::mem::MaybeUninit<u8>', 'std::mem::MaybeUninit::new(6)', '(unsafe { x.assume_init() }) == 6'),
    ('std::sync::atomic::AtomicU16', 'std::sync::atomic::AtomicU16::new(9)', 'x.into_inner() == 9'), ('std::mem::ManuallyDrop<u32>', 'std::mem::ManuallyDrop::new(2)', '*x == 2'), ('std::boxed::Box<dyn crate::Assoc<Out = u8>>', 'std::boxed::Box::new(3u8)', 'x.twice() == 6'),
    ('crate::Union', 'crate::Union { a: 77 }', '(unsafe { x.a }) == 77'), ('std::vec::Vec<std::boxed::Box<dyn std::ops::FnOnce() -> u8>>', 'vec![std::boxed::Box::new(|| 1)]', 'x.into_iter().map(|f| f()).sum::<u8>() == 1'),
]
NAMES = ['A', 'B', 'First', 'r#Type', 'Größe', 'X1', '_Hidden', 'Ok', 'Err', 'Some', 'None', 'Item_', 'lower', 'SHOUT', 'T', 'U', 'F', 'Other', 'E', 'Cc', 'Tagged', 'R', 'ß']
FIELDS = ['a', 'b', 'x', 'r#type', 'größe', '_h', 'value', 'tagged', 'callback', 'Up', 'f', 'self_', 't', 'discrim', 'variant']
ATTRS = ['/// a doc comment', '#[allow(dead_code)]', '#[cfg(all())]', '#[doc = "more"]', '#[must_use]',
         '#[cfg_attr(all(), allow(unused))]', '#[cfg_attr(any(), repr(u128))]', '#[non_exhaustive]', '#[allow(clippy::all, unused)]', '#[derive()]', '/** a comment of another kind */', '#[doc(hidden)]', '#[doc(alias = "x")]', '#[allow(dead_code,)]']


class G:
    def __init__(self, seed, units):
        self.r = random.Random(seed)
        self.n = 0
        self.units = units

    def variants(self, types, odd):
        r = self.r
        out, used = [], set()
        text = []
        names = r.sample(NAMES, r.randint(1, 7))
        for nm in names:
            k = r.choice(['unit', 'empty', 'one', 'one', 'one', 'tuple', 'struct', 'struct,'])
            n = {'unit': 0, 'empty': 0, 'one': 1}.get(k, r.randint(1 if k[0] == 's' else 2, 5))
            fs = [r.choice(types) for _ in range(n)]
            if k == 'one' and nm in ('Other', 'T', 'F'):
                fs = [t for t in types if t[0] == nm]  # named like its payload
            elif nm in ('Other', 'T', 'F'):
                fs = [f if f[0] != nm else types[0] for f in fs]  # (not supported)
            if odd and n and r.random() < .7:
                fs[r.randrange(n)] = r.choice(ODD)
            key = tuple(f[0] for f in fs) if k in ('empty', 'one', 'tuple') else None
            # tuples and single types that are the same tuple
            if key is not None:
                if len(key) == 1:
                    c = {'(u8,)': ('(u8,)',), '()': ()}.get(key[0], key)
                else:
                    c = key
                flat = '(%s)' % ', '.join(key) if len(key) > 1 else key[0] if key else '()'
                if flat in used or c in used:
                    k, fs = 'unit', []
                else:
                    used |= {flat, c}
            out.append((nm, k, fs, r.sample(FIELDS, len(fs))))
        return out

    def unit(self, many=0):
        """(items, check) of one enum"""
        r = self.r
        i = self.n
        self.n += 1
        odd = r.random() < .25 and not many
        if many:
            vs = []
            for q in range(many):
                k = r.choice(['unit', 'struct', 'struct,', 'empty' if q == 5 else 'unit'])
                fs = [r.choice(TYPES) for _ in range(r.randint(1, 4) if k[0] == 's' else 0)]
                vs.append(('V%d' % q, k, fs, r.sample(FIELDS, len(fs))))
        else:
            vs = self.variants(TYPES, odd)
        bare = odd
        # the lack of a type of two spellings: crate::alias!() and the projections are u8-like types that must not be repeated
        seen, keep = set(), []
        for nm, k, fs, fn in vs:
            sig = tuple({'crate::alias!()': 'u32', '<u32 as crate::Assoc>::Out': 'u8', '<crate::Local as ::std::ops::Deref>::Target': 'u8', '[u8; SIZE]': '[u8; 5]'}.get(f[0], f[0]) for f in fs)
            if k in ('one', 'tuple', 'empty'):
                if sig in seen or (len(sig) == 1 and sig[0] == '()' and () in seen) or (sig == () and ('()',) in seen):
                    k, fs, fn = 'unit', [], []
                else:
                    seen.add(sig)
            keep.append((nm, k, fs, fn))
        vs = keep
        C, I = r.choice([('C%d' % i, 'I%d' % i), ('Outer%d' % i, 'Inner%d' % i), ('Boxed%d' % i, 'r#enum%d' % i)])
        # variants named like the container, or (those that need no fields stored together) like the enum
        if vs and r.random() < .25:
            j = r.randrange(len(vs))
            ok = [C] + ([I] if vs[j][1] in ('unit', 'one') else [])
            vs[j] = (r.choice(ok),) + tuple(vs[j][1:])
        derives = [] if bare else ['Clone', 'PartialEq', 'Debug']
        r.shuffle(derives)
        head = [a for a in ATTRS if r.random() < .15]
        if derives:
            how = r.random()
            head += ['#[derive(%s)]' % d for d in derives] if how < .2 else ['#[derive(%s,)]' % ', '.join(derives)] if how < .3 else ['#[cfg_attr(all(), derive(%s))]' % ', '.join(derives)] if how < .4 \
                else ['#[::std::prelude::v1::derive(::std::clone::Clone, ::std::fmt::Debug, ::std::cmp::PartialEq)]'] if how < .5 else ['#[derive(%s)]' % ', '.join(derives)]
        r.shuffle(head)
        body = []
        for nm, k, fs, fn in vs:
            if k == 'unit':
                body.append('%s,' % nm)
            elif k in ('one', 'tuple', 'empty'):
                body.append('%s(%s),' % (nm, ', '.join(f[0] for f in fs)))
            else:
                body.append('%s { %s%s },' % (nm, ', '.join('%s: %s' % (n, f[0]) for n, f in zip(fn, fs)), ',' if k == 'struct,' else ''))

        def expr(nm, k, fs, fn, w):
            vals = ['{ let y: %s = %s; y }' % (f[0], f[w if w < len(f) - (f in ODD) else 1]) for f in fs]
            if k == 'unit':
                return '%s::%s' % (I, nm)
            if k in ('one', 'tuple', 'empty'):
                return '%s::%s(%s)' % (I, nm, ', '.join(vals))
            return '%s::%s { %s }' % (I, nm, ', '.join('%s: %s' % z for z in zip(fn, vals)))
        check = []
        some = set(r.sample(range(many), 5) + [0, many - 1]) if many else None
        for j, (nm, k, fs, fn) in enumerate(vs):
            if some and j not in some:
                continue
            for w in (1, 2):
                e = expr(nm, k, fs, fn, w)
                if not bare:
                    check.append('{ let make = || -> %s { %s }; n += crate::trip::<%s, %s>(make, %d, |c| &c.value, |c| c.value, |b| %s { value: b }); }' % (I, e, C, I, j, C))
                    if k in ('one', 'tuple', 'empty'):
                        vals = ', '.join('{ let y: %s = %s; y }' % (f[0], f[w]) for f in fs)
                        p = vals if k == 'one' else '(%s)' % vals
                        check.append('{ assert!(%s::from(%s).into_inner() == %s); n += 1; }' % (C, p, e))
                else:
                    pats = ['x%d' % q for q in range(len(fs))]
                    pat = {'unit': '%s::%s' % (I, nm)}.get(k) or ('%s::%s(%s)' % (I, nm, ', '.join(pats)) if k in ('one', 'tuple', 'empty') else '%s::%s { %s }' % (I, nm, ', '.join('%s: %s' % z for z in zip(fn, pats))))
                    conds = ' && '.join(['{ let x = %s; %s }' % (p, f[2]) if f in ODD else '{ let y: %s = %s; %s == y }' % (f[0], f[w], p) for p, f in zip(pats, fs)]) or 'true'
                    for how in ('%s::from(%s).into_inner()' % (C, e), '%s::from_tagged_box({ let t: tb::TaggedBox<%s> = (%s).into_tagged_box(); t })' % (I, I, e)):
                        check.append('{ let v = %s; #[allow(unreachable_patterns)] match v { %s => assert!(%s), _ => panic!("another variant") } n += 1; }' % (how, pat, conds))
        inv = r.choice(['tagged_box!', 'tb::tagged_box!', '::tb::tagged_box!', 'crate::again::tagged_box!', 'crate::again::by_another_name!', 'crate::everything::tagged_box!'])
        # (the enum must be seen where the container is)
        ranks = [['', 'pub(self) '], ['pub(crate) ', 'pub(in crate) '], ['pub ']]
        a = r.randrange(3)
        b = r.randint(a, 2)
        self.visible = ([C] if a else []) + ([I] if b else [])
        inner = '%s\n%sstruct %s, %senum %s {\n    %s\n}' % ('\n'.join(head), r.choice(ranks[a]), C, r.choice(ranks[b]), I, '\n    '.join(body))
        br = r.choice(['{}', '{}', '()', '[]'])
        item = '%s %s\n%s\n%s%s' % (inv, br[0], inner, br[1], '' if br == '{}' else ';')
        if r.random() < .25 and not bare and not many:
            # through a macro of the program's own
            m = 'mk%d' % i
            self.visible = []
            item = ("macro_rules! %s { ($c:ident, $i:ident, $($v:ident = $t:ty),*) => { %s { #[derive(Clone, PartialEq, Debug)] struct $c, enum $i { $($v($t),)* } } } }\n" % (m, inv))
            pool = [t for t in TYPES if t[0] not in ('()',)]
            seen, ch = set(), []
            for t in r.sample(pool, r.randint(1, 5)):
                s = {'crate::alias!()': 'u32', '<u32 as crate::Assoc>::Out': 'u8', '<crate::Local as ::std::ops::Deref>::Target': 'u8'}.get(t[0], t[0])
                if s not in seen:
                    seen.add(s)
                    ch.append(t)
            item += '%s!(%s, %s, %s);' % (m, C, I, ', '.join('V%d = %s' % (q, t[0]) for q, t in enumerate(ch)))
            check = []
            for q, t in enumerate(ch):
                for w in (1, 2):
                    check.append('{ let make = || -> %s { %s::V%d({ let y: %s = %s; y }) }; n += crate::trip::<%s, %s>(make, %d, |c| &c.value, |c| c.value, |b| %s { value: b }); }' % (I, I, q, t[0], t[w], C, I, q, C))
        if r.random() < .12 and not bare:
            item += '\nimpl ::std::ops::Drop for %s { fn drop(&mut self) { } }' % I
        return item, ' '.join(check)

    def place(self, item, check, i, visible):
        """puts an enum somewhere; gives (items of the crate root, the call)"""
        use = '#[allow(unused_imports)] use crate::*; #[allow(unused_imports)] use tb::{tagged_box, TaggableContainer, TaggableInner};'
        fn = '#[allow(unused_mut)] let mut n = 0u64; %s n' % check
        f = 'f%d' % i
        k = self.r.randrange(16)
        # those to be seen from outside, named there
        def seen(path):
            return ' '.join('#[allow(dead_code)] const _: ::std::option::Option<crate::%s::%s> = ::std::option::Option::None;' % (path, t) for t in visible)
        if k == 0:
            return 'mod m%d { %s\n%s\npub fn %s() -> u64 { %s } } %s' % (i, use, item, f, fn, seen('m%d' % i)), 'm%d::%s()' % (i, f)
        if k == 1:
            return 'mod m%d { pub mod n { pub mod o { %s\n%s\npub fn %s() -> u64 { %s } } } } %s' % (i, use, item, f, fn, seen('m%d::n::o' % i)), 'm%d::n::o::%s()' % (i, f)
        if k == 2:
            return 'fn %s() -> u64 { %s\n%s\n%s }' % (f, use, item, fn), f + '()'
        if k == 3:
            return 'fn %s() -> u64 { %s let g = || { %s\n%s }; g() }' % (f, use, item, fn), f + '()'
        if k == 4:
            return 'fn %s() -> u64 { if true { let _ = 1; { %s\n%s\n%s } } else { 0 } }' % (f, use, item, fn), f + '()'
        if k == 5:
            return 'struct S%d; impl S%d { fn %s(&self) -> u64 { %s\n%s\n%s } }' % (i, i, f, use, item, fn), 'S%d.%s()' % (i, f)
        if k == 6:
            return 'trait Tr%d { fn %s(&self) -> u64 { %s\n%s\n%s } } impl Tr%d for u8 {}' % (i, f, use, item, fn, i), '0u8.%s()' % f
        if k == 7:
            return 'const F%d: fn() -> u64 = { %s\n%s\nfn go() -> u64 { %s } go };' % (i, use, item, fn), 'F%d()' % i
        if k == 8:
            return "fn %s<Gen: Default, const GENN: usize>(_: [Gen; GENN]) -> u64 { %s\n%s\n%s }" % (f, use, item, fn), f + '([0u8; 2])'
        if k == 9:
            # among types of the program with well-known names
            return ('mod m%d { %s\n'
                    '#[allow(dead_code)] pub mod mem {} #[allow(dead_code)] pub mod discriminant {} #[allow(dead_code)] pub fn drop() {}\n'
                    '#[allow(dead_code)] pub struct From; #[allow(dead_code)] pub struct FnOnce; #[allow(dead_code)] pub struct Into; #[allow(dead_code)] pub trait Clone {} #[allow(dead_code)] pub trait Copy {} #[allow(dead_code)] pub trait Drop {} #[allow(dead_code)] pub struct TaggableIn; #[allow(dead_code)] pub mod core {} #[allow(dead_code)] pub mod alloc {} #[allow(dead_code)] pub mod tagged_box {} use ::std::convert::{From as _, Into as _}; use ::std::clone::Clone as _;\n'
                    '%s\npub fn %s() -> u64 { %s } }' % (i, use, item, f, fn)), 'm%d::%s()' % (i, f)
        if k == 13:
            return 'unsafe extern "C" fn %s(n: u8) -> u64 { %s match n { 0 => { %s\n%s } _ => 0 } }' % (f, use, item, fn), '(unsafe { %s(0) })' % f
        if k == 14:
            # the enum in one module, its user in another
            return 'mod m%d { pub mod def { %s\n%s\npub fn %s() -> u64 { %s } } pub mod user { use super::def as other; pub fn go() -> u64 { other::%s() } %s } }' % (i, use, item, f, fn, f, seen('m%d::def' % i)), 'm%d::user::go()' % i
        if k == 15:
            return 'const _: () = { %s\n%s\nimpl crate::Go<%d> for u8 { fn go() -> u64 { %s } } };' % (use, item, i, fn), '<u8 as Go<%d>>::go()' % i
        if k == 11:
            # where nothing is in scope by itself
            names = 'use ::std::{vec, assert, assert_eq, panic, format, println, prelude::v1::{Ok, Err, Some, None, ToString, derive, Clone, PartialEq, Debug}, convert::{From as _, Into as _}, iter::{Iterator as _, IntoIterator as _}, ops::Fn as _, default::Default as _, marker::Send}; use ::std; use ::tb;'
            return '#[no_implicit_prelude] mod m%d { %s %s\n%s\npub fn %s() -> u64 { %s } }' % (i, names, use, item, f, fn), 'm%d::%s()' % (i, f)
        if k == 12:
            # where macros of the program have the names of well-known ones
            return ('mod m%d { %s\nmod inner { use super::*;\n#[allow(unused_macros)] macro_rules! panic { (never $x:tt) => { } } #[allow(unused_macros)] macro_rules! stringify { (never $x:tt) => { } } #[allow(unused_macros)] macro_rules! unreachable { (never $x:tt) => { } } #[allow(unused_macros)] macro_rules! matches { (never) => { } } '
                    '#[allow(unused_macros)] macro_rules! debug_assert { (never) => { } } #[allow(unused_macros)] macro_rules! assert_eq { (never) => { } } #[allow(unused_macros)] macro_rules! tagged_box_item { (never) => { } }\n%s\npub fn %s() -> u64 { %s } }\npub use self::inner::%s; }' % (i, use, item, f, fn.replace('panic!(', '::std::panic!('), f)), 'm%d::%s()' % (i, f)
        return 'static T%d: ::std::sync::OnceLock<u64> = ::std::sync::OnceLock::new(); fn %s() -> u64 { *T%d.get_or_init(|| { %s\n%s\n%s }) }' % (i, f, i, use, item, fn), f + '()'

    def program(self, many):
        roots, calls = [], []
        for i, m in enumerate(many):
            item, check = self.unit(m)
            a, b = self.place(item, check, 1000 + i, self.visible)
            roots.append(a)
            calls.append(b)
        for i in range(self.units):
            item, check = self.unit()
            visible = self.visible
            if self.r.random() < .3:
                # two in one place
                item2, check2 = self.unit()
                item, check = item + '\n' + item2, check + ' ' + check2
                visible = visible + self.visible
            a, b = self.place(item, check, i, visible)
            roots.append(a)
            calls.append(b)
        return roots, calls


HEAD = r"""// generated by gen_ctx.py
#![allow(dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_parens, unused_braces, unpredictable_function_pointer_comparisons, uncommon_codepoints, mixed_script_confusables, private_interfaces, non_local_definitions, clippy::all, unused_must_use, confusable_idents, unused_doc_comments, unused_macros, unused_attributes)]
use tb::{TaggableContainer, TaggableInner};
pub mod again { pub use tb::tagged_box; pub use tb::tagged_box as by_another_name; }
pub mod everything { pub use tb::*; }
pub const SIZE: usize = 5;
#[inline(never)] pub fn inc(x: u8) -> u8 { x.wrapping_add(1) }
#[inline(never)] pub fn dec(x: u8) -> u8 { x.wrapping_sub(1) }
#[inline(never)] pub fn same(x: &u8) -> &u8 { x }
#[inline(never)] pub fn also(x: &u8) -> &u8 { assert!(*x < 200); x }
#[inline(never)] pub unsafe extern "C" fn nothing() { println!("1") }
#[inline(never)] pub unsafe extern "C" fn nothing2() { println!("2") }
pub trait Assoc { type Out; fn twice(&self) -> u8 { 6 } }
impl Assoc for u32 { type Out = u8; }
impl Assoc for u8 { type Out = u8; }
#[derive(Debug, Clone, PartialEq)] pub struct Local(pub u8);
impl ::std::ops::Deref for Local { type Target = u8; fn deref(&self) -> &u8 { &self.0 } }
#[derive(Debug, Clone, PartialEq)] pub struct Other(pub u8);
#[derive(Debug, Clone, PartialEq)] pub struct T(pub u8);
#[derive(Debug, Clone, PartialEq)] pub struct Sized_<const N: usize>(pub [u8; N]);
#[derive(Debug, Clone, PartialEq)] pub struct Both { pub a: u8, pub b: u64 }
#[derive(Clone, Copy)] pub union Union { pub a: u8, pub b: u64 }
pub trait Go<const N: usize> { fn go() -> u64; }
pub struct NoTraits(pub u16);
pub mod deep { pub mod er { #[derive(Debug, Clone, PartialEq)] pub struct Thing<T>(pub T); } }
#[macro_export] macro_rules! alias { () => { u32 } }
""" + ''.join('#[derive(Debug, Clone, PartialEq)] pub struct %s(pub u8); ' % n for n in COMMON if n != 'Local') + ''.join('pub const %s: usize = %d; ' % (n, i + 30) for i, n in enumerate(CONSTS) if n != 'SIZE') + r"""
/// a value through all conversions, against the one made anew
pub fn trip<C, I>(make: impl Fn() -> I, at: usize, boxed: impl Fn(&C) -> &tb::TaggedBox<I>, unbox: impl Fn(C) -> tb::TaggedBox<I>, wrap: impl Fn(tb::TaggedBox<I>) -> C) -> u64
where C: TaggableContainer<Inner = I> + From<I> + Clone + PartialEq + ::std::fmt::Debug, I: TaggableInner + Clone + PartialEq + ::std::fmt::Debug {
    let eq = |a: &I| *a == make() && format!("{:?}", a) == format!("{:?}", make());
    let c = C::from(make());
    let d = c.clone();
    assert_eq!(boxed(&c).discriminant() as usize, at);
    assert_eq!(boxed(&d).discriminant() as usize, at);
    assert_eq!(c == d, make() == make());
    assert_eq!(format!("{:?}", boxed(&c)), format!("{:?}", make()));
    let mut seen = 0;
    unsafe { I::ref_from_tagged_box(boxed(&c), |x| { assert!(eq(x)); seen += 1 }) };
    assert_eq!(seen, 1);
    assert!(eq(&d.into_inner()));
    assert!(eq(&I::from_tagged_box(unbox(c))));
    assert!(eq(&wrap(make().into_tagged_box()).into_inner()));
    assert!(eq(&I::from_tagged_box(boxed(&C::from(make())).clone())));
    8
}
"""


def main():
    a = argparse.ArgumentParser()
    a.add_argument('out')
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('--units', type=int, default=30)
    a.add_argument('--edition', default='2018')
    a.add_argument('--many', action='store_true', help='enums of up to 100 variants too')
    o = a.parse_args()
    g = G(o.seed, o.units)
    roots, calls = g.program(range(20, 101, 40) if o.many else ())
    t = HEAD
    if o.edition == '2015':
        t = t.replace('use tb::{Tagg', 'extern crate tb;\nuse tb::{Tagg', 1)
    samples = json.dumps([' '.join(r.split())[:300].replace('"', "'").replace('\\', '/') for r in roots[:3]])
    t += '\n'.join(roots) + '\nfn main() {\n    let mut n = 0u64;\n' + ''.join('    n += %s;\n' % c for c in calls)
    t += '    println!("MONRESULT {{\\"evals\\": {0}, \\"distinct\\": %d, \\"violations\\": [], \\"samples\\": {1}, \\"counters\\": {{\\"programs\\": 1, \\"enums\\": %d, \\"places\\": %d}}, \\"digests\\": {{}}}}", n, r####"%s"####);\n}\n' % (sum(r.count('n += ') for r in roots), g.n, len(roots), samples)
    open(o.out, 'w').write(t)


main()
