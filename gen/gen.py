#!/usr/bin/env python3
"""Generates the enums the drivers run on: gen.py OUT_DIR --seed N --max-variants M [--extra K] [--sets a,b,..]

OUT_DIR/subjects.rs holds one module per enum, each made with tagged_box! and made known to the
drivers by an implementation of Subject, and the visitor functions all/full/ord/copy.
"""
import argparse, os, random

PLAIN = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'bool', 'char',
         "&'static str", '()', 'Option<u32>', '[u8; 3]', '[u32; 5]', '(u8, u64)', '(u8, u16, u32)', 'Big<100>',
         'Al2', 'Al16', 'Al32', 'Al64', 'Al256', 'Z2', 'Z16', 'Z128', '[u64; 0]', 'Option<bool>', '[Al16; 2]', 'Weird',
         '(u32, bool)', 'Option<char>', 'NonZeroU16', 'Option<NonZeroU64>', 'Result<u8, char>', 'PhantomData<String>', 'Duration', "&'static [u16]", '[u8; 2 + 2]', '(u8,)', '((u8, u16), (bool,))']
FLOAT = ['f32', 'f64', '[f32; 2]', 'Option<f64>']
HEAP = ['String', 'Box<u64>', 'Arc<String>', 'Vec<u16>', 'Vec<String>', 'Option<Box<u8>>', 'Box<Big<300>>', '(String, u8)',
        'Vec<()>', 'Box<()>', 'Box<str>', 'Box<[u16]>', 'BTreeMap<u8, u16>', "Cow<'static, str>", 'Result<String, Box<u64>>', 'Option<Arc<u8>>']
NOSEND = ['Rc<u32>', 'Rc<String>']
TOK = ['Tok', 'ZTok', 'ZTok64', 'Option<Tok>', 'Vec<Tok>', 'Box<Tok>', '[Tok; 2]', '[ZTok; 3]', '(Tok, u8)', 'Box<ZTok>']
BIGS = ['Big<5000>', 'Al2048', 'Z2048', 'Big<257>']
SMALL = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i64', 'bool', 'char', 'f32', 'f64', "&'static str", '()', 'Option<u32>', '[u8; 3]', '(u8, u64)', 'Al16', 'Al64', 'Z16',
         'Weird', 'Option<char>', 'String', 'Box<u64>', 'Vec<u16>', 'Rc<u32>', 'Arc<String>', 'Tok', 'Tok', 'ZTok', 'Vec<Tok>', 'Option<Tok>', '[Tok; 2]', '(Tok, u8)', 'Padded', 'Option<Box<u8>>']
POOLS = {
    'copy': PLAIN + FLOAT + BIGS,
    'ord': PLAIN + HEAP + NOSEND + TOK + BIGS,
    'full': PLAIN + FLOAT + HEAP + NOSEND + TOK + BIGS + ['Padded', 'Vec<Padded>'],
    'send': PLAIN + FLOAT + HEAP + ['Padded', 'Vec<Padded>'] + BIGS,
}
NOT_ORD = FLOAT + ['Padded', 'Vec<Padded>']
FIELDS = ['a', 'tagged', 'callback', 'variant', 'tuple', 'discrim', 'value', 'var', 'val', 'z', 'cmp', 'other', 'this', 'ptr',
          'first', 'second', 'r#type', 'int', 'discriminant', 'n', 'b', 'layout', 'a0', 'a1', 'aa', 'bb', 'enum_', 'struct_', 'f', 'g', 'c', 'd', 'e', 'h',
          'i', 'j', 'k', 'l', 'm', 'o', 'p', 'q', 'r', 's', 't', 'u', 'counter', 'total', 'inner', 'boxed', '_x', 'r#match', 'r#enum', 'Upper', 'self_', 'core', 'alloc', 'std']
HOSTILE = ['Some', 'None', 'Ok', 'Err', 'Box', 'Result', 'Drop', 'ManuallyDrop', 'TaggedBox', 'TaggedPointer', 'Discriminant', 'Self_', 'Fn', 'FnOnce', 'Clone', 'Copy', 'From',
           'TaggableInner', 'TaggableContainer', 'U', 'T', 'F', 'Default', 'Ordering', 'Less', '__Variant', 'r#Type', 'lower', 'Option']
DERIVES = {
    'full': 'Debug, Clone, PartialEq, PartialOrd',
    'ord': 'Debug, Clone, PartialEq, Eq, PartialOrd, Ord',
    'copy': 'Debug, Copy, Clone, PartialEq, PartialOrd',
    'bare': None,
}


VISITS = {'all': ('Go', ('full', 'ord', 'copy', 'bare')), 'full': ('GoFull', ('full', 'ord', 'copy')), 'ord': ('GoOrd', ('ord',)), 'copy': ('GoCopy', ('copy',))}


class Gen:
    def __init__(self, seed, nmax):
        self.r = random.Random(seed)
        self.nmax = nmax
        self.mods = []

    def types(self, pool, n):
        """n field types, with at most one large one"""
        out, big = [], 0
        for _ in range(n):
            t = self.r.choice(pool)
            while big and t in BIGS:
                t = self.r.choice(pool)
            if out and out[-1] not in BIGS and self.r.random() < .2:
                t = out[-1]  # like the one before
            big += t in BIGS
            out.append(t)
        return out

    def enum(self, label, kind, variants):
        """variants: [(name, 'unit'|'tuple'|'struct'|'struct,', [types])], split where there are too many"""
        for i in range(0, len(variants), self.nmax):
            self.emit(label if len(variants) <= self.nmax else '%s_%d' % (label, i // self.nmax), kind, variants[i:i + self.nmax])

    def tuples(self, pool, arities, used):
        out = []
        for n in arities:
            if n == 0:
                key = '()'
                ts = []
            else:
                for _ in range(200):
                    ts = self.types(pool, n)
                    key = ts[0] if n == 1 else '(%s)' % ', '.join(ts)
                    if key not in used:
                        break
            if key in used:
                continue
            used.add(key)
            out.append(('T%d' % len(out), 'tuple', ts))
        return out

    def structs(self, pool, arities):
        out = []
        for i, n in enumerate(arities):
            out.append(('S%d' % i, self.r.choice(['struct', 'struct,']) if n else 'struct', self.types(pool, n)))
        return out

    def mix(self, pool, n, maxar=6, hostile=.5):
        """n variants of all kinds in random order"""
        used, out = set(), []
        for i in range(n):
            k = self.r.choice(['unit', 'one', 'one', 'tuple', 'tuple', 'struct', 'struct', 'empty'])
            if k == 'unit':
                out.append(['unit', []])
            elif k == 'struct':
                m = self.r.randint(0 if self.r.random() < .1 else 1, maxar)
                out.append([self.r.choice(['struct', 'struct,']) if m else 'struct', self.types(pool, m)])
            else:
                m = {'one': 1, 'empty': 0}.get(k, self.r.choice([2, 2, 3, 4, 5, self.r.randint(2, 32)]))
                t = self.tuples(pool, [m], used)
                out.append(['tuple', t[0][2]] if t else ['unit', []])
        self.r.shuffle(out)
        # now and then with names that also mean something else (never that of a type used in the fields: see DESIGN.md)
        names = ['V%d' % i for i in range(n)]
        if self.r.random() < hostile:
            text = ' '.join(t for _, ts in out for t in ts)
            alt = [x for x in HOSTILE if x not in text]
            self.r.shuffle(alt)
            for i in range(0, n, 2):
                if alt:
                    names[i] = alt.pop()
        return [(names[i], k, t) for i, (k, t) in enumerate(out)]

    def emit(self, label, kind, variants):
        name = 'e%d_%s' % (len(self.mods), label)
        vis, ivis = self.r.choice([('pub', 'pub'), ('pub', 'pub'), ('pub(crate)', 'pub(crate)'), ('', ''), ('', 'pub'), ('pub(super)', 'pub'), ('', 'pub(crate)'), ('pub(in self)', 'pub(super)')])
        C, I = self.r.choice([('C', 'I'), ('Container', 'Item'), ('Value', 'ValueKind')])
        o = ['pub mod %s {' % name, '#[allow(unused_imports)] use super::*;', 'tagged_box! {']
        if self.r.random() < .3:
            o.append('/// a container')
        if DERIVES[kind]:
            o.append('#[derive(%s)]' % DERIVES[kind])
        o.append('%s struct %s, %s enum %s {' % (vis, C, ivis, I))
        fields = {}
        for (v, k, ts) in variants:
            if k == 'unit':
                o.append('    %s,' % v)
            elif k == 'tuple':
                o.append('    %s(%s),' % (v, ', '.join(ts)))
            else:
                names = self.r.sample(FIELDS, len(ts))
                fields[v] = names
                o.append('    %s { %s%s },' % (v, ', '.join('%s: %s' % f for f in zip(names, ts)), ',' if k == 'struct,' and ts else ''))
        o.append('}\n}')

        def pat(v, k, ts, pre='x'):
            b = ['%s%d' % (pre, i) for i in range(len(ts))]
            if k == 'unit':
                return '%s::%s' % (I, v), b
            if k == 'tuple':
                return '%s::%s(%s)' % (I, v, ', '.join(b)), b
            return '%s::%s { %s }' % (I, v, ', '.join('%s: %s' % f for f in zip(fields[v], b))), b
        if kind != 'bare':
            o.append("impl std::fmt::Display for %s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self {" % I)
            for (v, k, ts) in variants:
                p, b = pat(v, k, ts)
                if len(b) == 1:
                    o.append('%s => Val::disp(x0, f),' % p)  # passes the options on to the one field
                else:
                    o.append('%s => { f.pad("%s")?;%s Ok(()) }' % (p, v, ''.join(' f.write_str("/")?; Val::disp(%s, f)?;' % x for x in b)))
            o.append('} } }')
        o.append(vis + ' struct M;\nimpl Subject for M {\ntype C = %s; type I = %s;' % (C, I))
        o.append('const COPY: bool = %s;' % ('true' if kind == 'copy' else 'false'))
        o.append('const NAME: &\'static str = "%s"; const CNAME: &\'static str = "%s";' % (name, C))
        o.append("const VARIANTS: &'static [&'static str] = &[%s];" % ', '.join('"%s"' % v for v, _, _ in variants))
        o.append('const UNIT: &\'static [bool] = &[%s];' % ', '.join('true' if k == 'unit' else 'false' for _, k, _ in variants))
        o.append('fn copies() -> [bool; 3] { [copies!(%s), copies!(TaggedBox<%s>), copies!(%s)] }' % (C, I, I))
        # gen
        o.append('fn gen(v: usize, r: &mut Rng) -> %s { match v {' % I)
        for i, (v, k, ts) in enumerate(variants):
            p, b = pat(v, k, ts)
            o.append('%d => { %s %s }' % (i, ' '.join('let %s: %s = Val::gen(r);' % f for f in zip(b, ts)), p))
        o.append('_ => { let _ = r; unreachable!() } } }')
        # enc, toks
        for fn, ty, call in [('enc', 'Enc', 'enc'), ('toks', 'Vec<u32>', 'toks')]:
            o.append('fn %s(i: &%s) -> %s { #[allow(unused_mut)] let mut o = vec![]; let k: usize = match i {' % (fn, I, ty))
            for i, (v, k, ts) in enumerate(variants):
                p, b = pat(v, k, ts)
                o.append('%s => { %s %d }' % (p, ' '.join('%s.%s(&mut o);' % (x, call) for x in b), i))
            o.append('}; %s }' % ('(k, o)' if fn == 'enc' else 'let _ = k; o'))
        # from_payload
        o.append('fn from_payload(v: usize, r: &mut Rng) -> Option<(%s, Enc)> { #[allow(unused_mut)] let mut o: Vec<u8> = vec![]; let _ = &r; let c = match v {' % C)
        for i, (v, k, ts) in enumerate(variants):
            if k == 'tuple':
                _, b = pat(v, k, ts)
                o.append('%d => { %s %s %s::from(%s) }' % (
                    i, ' '.join('let %s: %s = Val::gen(r);' % f for f in zip(b, ts)), ' '.join('%s.enc(&mut o);' % x for x in b),
                    C, b[0] if len(b) == 1 else '(%s)' % ', '.join(b)))
        o.append('_ => return None, }; #[allow(unreachable_code)] Some((c, (v, o))) }')
        o.append('fn boxed(c: &%s) -> &TaggedBox<%s> { &c.value } fn boxed_mut(c: &mut %s) -> &mut TaggedBox<%s> { &mut c.value } fn unbox(c: %s) -> TaggedBox<%s> { c.value } fn wrap(b: TaggedBox<%s>) -> %s { %s { value: b } }' % (C, I, C, I, C, I, I, C, C))
        # storage
        o.append('fn storage(v: usize) -> Storage { match v {')
        for i, (v, k, ts) in enumerate(variants):
            if ts:
                o.append('%d => { #[repr(C)] struct L(%s); Storage { min: %s, max: std::mem::size_of::<L>(), align: std::mem::align_of::<L>() } }' % (
                    i, ', '.join(ts), ' + '.join('std::mem::size_of::<%s>()' % t for t in ts)))
            else:
                o.append('%d => Storage { min: 0, max: 0, align: 1 },' % i)
        o.append('_ => unreachable!() } }')
        one = [(i, ts[0]) for i, (v, k, ts) in enumerate(variants) if k == 'tuple' and len(ts) == 1]
        o.append('fn peek(v: usize, b: &TaggedBox<%s>) -> Option<Vec<u8>> { let _ = b; #[allow(unused_mut)] let mut o = vec![]; match v {' % I)
        for i, t in one:
            o.append('%d => unsafe { Val::enc(b.as_ref::<%s>(), &mut o) },' % (i, t))
        o.append('_ => return None }; #[allow(unreachable_code)] Some(o) }')
        o.append('fn poke(v: usize, b: &mut TaggedBox<%s>, r: &mut Rng) -> Option<Enc> { let _ = (&b, &r); #[allow(unused_mut)] let mut o = vec![]; match v {' % I)
        for i, t in one:
            o.append('%d => unsafe { let n: %s = Val::gen(r); *b.as_mut_ref::<%s>() = n; Val::enc(b.as_ref::<%s>(), &mut o) },' % (i, t, t, t))
        o.append('_ => return None }; #[allow(unreachable_code)] Some((v, o)) }')
        o.append('fn into_box_and_drop(v: usize, b: TaggedBox<%s>) -> Option<Vec<u8>> { #[allow(unused_mut)] let mut o = vec![]; match v {' % I)
        for i, t in one:
            o.append('%d => { let x: Box<%s> = unsafe { TaggedBox::into_box(b) }; Val::enc(&*x, &mut o); drop(x) },' % (i, t))
        o.append('_ => { let _ = b; return None } }; #[allow(unreachable_code)] Some(o) }')
        o.append('fn into_raw_and_back(v: usize, b: TaggedBox<%s>) -> TaggedBox<%s> { let d = b.discriminant(); match v {' % (I, I))
        for i, t in one:
            o.append('%d => { let p: *mut %s = TaggedBox::into_raw(b); unsafe { TaggedBox::from_raw(p, d) } }' % (i, t))
        o.append('_ => { let p: *mut u8 = TaggedBox::into_raw(b); unsafe { TaggedBox::from_raw(p, d) } } } }')
        o.append('}')
        for fn, (tr, kinds) in VISITS.items():
            if kind in kinds:
                o.append('pub fn %s<G: %s>(g: &mut G) { g.go::<M>() }' % (fn, tr))
        o.append('}')
        self.mods.append((name, kind))
        self.text = getattr(self, 'text', []) + o

    def write(self, d):
        o = ['// generated by gen.py', 'use harness_prelude::*;'] + self.text
        for fn, (tr, kinds) in VISITS.items():
            o.append('#[allow(dead_code)] pub fn %s<G: %s>(g: &mut G) {' % (fn, tr))
            o += ['    %s::%s(g);' % (n, fn) for n, k in self.mods if k in kinds]
            o.append('let _ = g; }')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, 'subjects.rs')
        t = '\n'.join(o) + '\n'
        if not os.path.exists(p) or open(p).read() != t:
            open(p, 'w').write(t)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('out')
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('--max-variants', type=int, default=16)
    a.add_argument('--extra', type=int, default=2)
    a.add_argument('--sets', default='arity,mixed,struct,single,ord,copy,bare,random')
    o = a.parse_args()
    sets = o.sets.split(',')
    nmax = o.max_variants
    g = Gen(o.seed, min(nmax, 300))
    chunk = min(nmax, 11)
    if 'arity' in sets:
        # every arity with fields of one type, so that exchanged fields show in the values alone
        for i in range(0, 33, chunk):
            vs = g.tuples(['u64'], range(i, min(33, i + chunk)), set())
            g.enum('arity%d' % i, 'full', vs)
    if 'mixed' in sets:
        # every arity with fields of random types
        ar = list(range(0, 33))
        g.r.shuffle(ar)
        for i in range(0, 33, chunk):
            g.enum('mixed%d' % i, 'full', g.tuples(POOLS['full'], ar[i:i + chunk], set()))
    if 'struct' in sets:
        # named fields: both spellings for every number of fields
        vs = []
        for n in [1, 2, 3, 4, 5, 6, 7, g.r.randint(8, 20), g.r.randint(21, 33)]:
            for k in ('struct', 'struct,'):
                vs.append(('N%d' % len(vs), k, g.types(POOLS['full'], n)))
        vs.append(('NoFields', 'struct', []))
        g.enum('struct', 'full', vs)
        vs = []
        for n in range(1, 5):
            for k in ('struct', 'struct,'):
                vs.append(('N%d' % len(vs), k, [g.r.choice(['Tok', 'ZTok', 'String', 'Tok']) for _ in range(n)]))
        vs.append(('Unit', 'unit', []))
        g.enum('structtok', 'ord', vs)
    if 'same' in sets:
        # fields that could be exchanged for each other
        for j, t in enumerate(['u8', 'u64', 'String', 'Tok'] + g.types([t for t in POOLS['full'] if t not in BIGS and t[0] != 'Z'], 3)):
            vs = [('N%d%s' % (n, k[-1]), k, [t] * n) for n in (2, 3, 4) for k in ('struct', 'struct,')]
            vs += [('N%d%s' % (n, k[-1]), k, [t] * n) for n, k in ((g.r.randint(5, 9), 'struct'), (g.r.randint(5, 9), 'struct,'))]
            vs += [('T%d' % n, 'tuple', [t] * n) for n in (2, 3, 4)]
            g.enum('same%d' % j, 'full', [(v.replace(',', 'c'), k, ts) for v, k, ts in vs])
    if 'single' in sets:
        ts = POOLS['full'][:]
        g.r.shuffle(ts)
        step = min(nmax, 14)
        for i in range(0, len(ts), step):
            g.enum('single%d' % i, 'full', [('T%d' % j, 'tuple', [t]) for j, t in enumerate(ts[i:i + step])])
    if 'ord' in sets:
        ts = ['u8', 'Weird', 'Tok', 'String', 'ZTok']
        g.enum('small', 'ord', [('A', 'tuple', ['u8']), ('B', 'unit', []), ('C0', 'tuple', ['Tok', 'bool']), ('D', 'struct', ['Weird']), ('E', 'tuple', ['Weird', 'Weird']), ('F', 'tuple', ['Weird']), ('G', 'tuple', []), ('H', 'unit', [])])
        g.enum('ord', 'ord', g.mix([t for t in POOLS['ord'] if t not in NOT_ORD], min(nmax, 12)))
    if 'copy' in sets:
        g.enum('copy', 'copy', g.mix(POOLS['copy'], min(nmax, 12)))
        g.enum('copy2', 'copy', [('String', 'tuple', ["&'static str"]), ('Two', 'tuple', ['u64', 'u64']), ('N', 'struct', ['u32', 'bool']), ('M', 'struct,', ['f32', 'char']), ('Unit', 'unit', []), ('U8', 'tuple', ['u8'])])
    if 'tok' in sets:
        # everything that holds tokens
        g.enum('tok', 'ord', [('A', 'tuple', ['Tok']), ('B', 'tuple', ['Tok', 'Tok']), ('C0', 'struct', ['Tok', 'u8']), ('D', 'struct,', ['Tok']), ('E', 'tuple', ['ZTok']), ('F', 'tuple', ['Vec<Tok>']), ('G', 'tuple', ['ZTok', 'ZTok']), ('H', 'unit', []), ('J', 'tuple', ['u8', 'Tok', 'ZTok64'])])
        ar = list(range(2, 33))
        for i in range(0, len(ar), chunk):
            g.enum('tokar%d' % i, 'ord', g.tuples(['Tok'], ar[i:i + chunk], set()))
    if 'bare' in sets:
        g.enum('bare', 'bare', g.mix(POOLS['full'], min(nmax, 6)))
        g.enum('one', 'bare', [('Only', 'tuple', ['Tok'])])
        g.enum('unit', 'ord', [('Only', 'unit', [])])
    if 'send' in sets:
        g.enum('send', 'full', [(v, k, t) for v, k, t in g.mix(POOLS['send'], min(nmax, 10))])
        g.enum('send2', 'full', [('A', 'tuple', ['String']), ('B', 'tuple', ['u64', 'Vec<u16>']), ('C0', 'struct', ['String', 'f64']), ('D', 'unit', []), ('E', 'tuple', ['Al64'])])
    if 'large' in sets:
        # as many variants as there are discriminants, as far as is practical
        n = min(nmax, 280)
        vs = [('L%d' % i, 'unit', []) for i in range(n)]
        for i in range(0, n, 5):
            vs[i] = ('L%d' % i, 'struct', ['u32'])
        arr = [i for i in range(n) if i % 5 == 1][:60]
        for j, i in enumerate(arr):
            vs[i] = ('L%d' % i, 'tuple', ['[u8; %d]' % (j + 1)])
        if n > 3:
            vs[n - 1] = ('L%d' % (n - 1), 'tuple', ['u16', 'u64'])
            vs[n - 2] = ('L%d' % (n - 2), 'tuple', ['String'])
        g.enum('large', 'full', vs)
    if 'tiny' in sets:
        # for the interpreters: every macro arm, small types, few variants
        g.enum('tiny', 'full', [('U', 'unit', []), ('A', 'tuple', ['u32']), ('B', 'tuple', ['String', 'u8']), ('C0', 'struct', ['Tok', 'u16']), ('D', 'struct,', ['Option<char>', 'u64', 'bool']), ('E', 'tuple', []), ('F', 'tuple', ['ZTok']), ('G', 'tuple', ['u8', 'Al16', 'Padded'])])
        g.enum('tinyord', 'ord', [('A', 'tuple', ['Vec<Tok>']), ('B', 'tuple', ['Tok', 'ZTok64']), ('N', 'struct,', ['Rc<String>', 'Weird']), ('U', 'unit', [])])
        g.enum('tinycopy', 'copy', [('A', 'tuple', ['u128']), ('B', 'tuple', ['u8', 'u64', 'f32']), ('N', 'struct', ["&'static str", 'i16']), ('U', 'unit', [])])
        used = set()
        for n in g.r.sample(range(2, 33), 3):
            g.enum('tinyar%d' % n, 'full', g.tuples(['u16', 'Tok', 'bool', 'Box<u64>', 'u64', 'Option<u32>'], [n], used))
    if 'mini' in sets:
        # random enums for the interpreters
        for i in range(o.extra):
            kind = g.r.choice(['full', 'full', 'ord', 'copy', 'bare'])
            g.enum('mini%d' % i, kind, g.mix({'copy': [t for t in SMALL if t in POOLS['copy']], 'ord': [t for t in SMALL if t not in NOT_ORD]}.get(kind, SMALL), g.r.randint(1, min(nmax, 5)), g.r.choice([2, 4, 7])))
    if 'miniar' in sets:
        # all arities, one by one over the seeds
        for n in [1 + (o.seed * o.extra + i) % 32 for i in range(o.extra)]:
            g.enum('miniar%d' % n, 'full', g.tuples(SMALL, [n], set()))
    if 'sendtiny' in sets:
        g.enum('sendtiny', 'full', [('A', 'tuple', ['String']), ('B', 'tuple', ['u64', 'Vec<u16>']), ('C0', 'struct', ['String', 'f64']), ('D', 'unit', []), ('E', 'tuple', ['u8', 'Al64', 'u16'])])
    if 'over' in sets:
        # enums with one variant more than some width has discriminants, and far more, for any --max-variants
        g.nmax = 1000
        for n in (3, 5, 9, 17, 33, 65, 129, 257, 300):
            vs = []
            for i in range(n):
                k = i % 4 if n < 100 or i % 7 == 0 or i > n - 4 else 0
                if i % 64 == 0 or i + 1 == n:
                    k = 2
                vs.append(('O%d' % i, *[('unit', []), ('struct', ['u32']), ('tuple', ['[u8; %d]' % (i + 1)]), ('struct,', ['String', 'u8'])][k]))
            g.enum('over%d' % n, 'full', vs)
        g.nmax = nmax
    if 'random' in sets:
        for i in range(o.extra):
            kind = g.r.choice(['full', 'full', 'ord', 'copy'])
            pool = {'ord': [t for t in POOLS['ord'] if t not in NOT_ORD]}.get(kind, POOLS[kind])
            g.enum('random%d' % i, kind, g.mix(pool, g.r.randint(1, min(nmax, 16)), g.r.choice([2, 4, 8])))
    g.write(o.out)


main()
