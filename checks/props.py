"""What each property's check runs."""
from check import Run, NoVerdict, HOST  # noqa

TOKSETS = 'tok,struct,single,ord,bare,mixed,random'
ALLSETS = 'arity,mixed,struct,single,ord,copy,bare,random'


def native(c, bin, sets, widths=(60, 48), scale=100, thorough_widths=(48, 50, 52, 55, 56, 60), rounds=4, **kw):
    """debug and release builds at a few widths; thorough: more widths, and several generations"""
    runs = []
    extra = 2 if c.quick else 8
    for s in range(1 if c.quick else rounds):
        for w in widths if c.quick else thorough_widths:
            for p in ('debug', 'release'):
                runs.append(Run(bin, width=w, profile=p, sets=sets, extra=extra, seed=c.seed + 1000 * s, scale=scale if c.quick else scale * 5, **kw))
    return runs


def C05(c):
    c.run_all(native(c, 'c05', TOKSETS))
    return c.finish('one evaluation = one value boxed, operated on, taken out and dropped (or one step of a random history over several containers) with the '
                    'ledger of live values compared before and after each operation; distinct by enum, variant, ways in and out and the generated value')


def C07(c):
    c.run_all(native(c, 'c07', ALLSETS + ',same') + large(c, 'c07'))
    return c.finish('one evaluation = one value of one variant sent in one of 6 ways into a container and back in one of 4 ways, its exact encoding compared; '
                    'distinct by enum, variant, ways and the encoded value')


def C08(c):
    runs = native(c, 'c08', 'arity,single,struct,ord,copy,bare,random,large')
    c.run_all(runs + large(c, 'c08'))
    return c.finish('one evaluation = one discriminant read from a box made, cloned, copied or operated on in some way, compared with the position of the variant; '
                    'distinct by enum, variant, operation and the word of the box')


def large(c, bin, n56=256, **kw):
    """enums with hundreds of variants"""
    return [Run(bin, width=56, sets='large', nmax=n56, scale=50, **kw), Run(bin, width=48, sets='large', nmax=300, profile='release', scale=50, **kw)]


def C06(c):
    c.run_all(native(c, 'c06', TOKSETS + ',arity'))
    return c.finish('one evaluation = one operation on a box or container with the allocator\'s log of that operation compared with the blocks it may allocate and free; '
                    'distinct by enum, variant, operation and value')


def C09(c):
    c.run_all(native(c, 'c09', 'arity,single,struct,ord,copy,bare,random') + large(c, 'c09', n56=251))
    return c.finish('one evaluation = one operation on a box whose discriminant names no variant (every wrong discriminant where there are few), which has to panic before '
                    'any user code receives a value and leave the stored contents alone; distinct by enum, discriminant, operation and contents')


def C10(c):
    c.run_all(native(c, 'c10', TOKSETS + ',arity,copy,same') + large(c, 'c10'))
    return c.finish('one evaluation = one view (possibly nested in others) with the number of callbacks, the encoding seen, and afterwards the box, its contents and tokens compared; '
                    'distinct by enum, variant, nesting and value')


def C11(c):
    c.run_all(native(c, 'c11', TOKSETS + ',arity,copy,same') + large(c, 'c11'))
    return c.finish('one evaluation = one clone or copy compared with the original, followed by changes to, consumption or destruction of either, and a look at the other; '
                    'distinct by enum, variant, what was done and value')


def C12(c):
    c.run_all(native(c, 'c12', 'arity,mixed,struct,single,ord,copy,random,tok') + large(c, 'c12'))
    return c.finish('one evaluation = one comparison operator on one ordered pair of boxes or containers against the same operator on the enums; distinct by operator and pair of values')


def C13(c):
    c.run_all(native(c, 'c13', 'arity,mixed,struct,single,ord,copy,random,tok') + large(c, 'c13'))
    return c.finish('one evaluation = one value under one format string, the output and the result compared with that of the enum, also with writers failing after n bytes and '
                    'with values reporting errors; distinct by enum, kind, format and output')


def C15(c):
    c.run_all(native(c, 'c15', TOKSETS))
    return c.finish('one evaluation = one operation with a panic at one particular call into user code, after which the boxes, the ledger of values and the heap are examined; '
                    'distinct by enum, variant, operation and point of the panic')


WIDTHS = tuple(range(48, 64))


def grid(c, bin, widths, profiles=('debug', 'release'), rounds=1, **kw):
    return [Run(bin, width=w, profile=p, gen=False, seed=c.seed + 1000 * s, **kw) for s in range(rounds) for w in widths for p in profiles]


def C01(c):
    c.run_all(grid(c, 'c01', WIDTHS, ('debug',), scale=40) + grid(c, 'c01', (63, 60, 57, 52, 48), ('release',)) if c.quick else
              grid(c, 'c01', WIDTHS, rounds=4, scale=400))
    return c.finish('one evaluation = one pair of address and discriminant packed and read back through every accessor, or one 64-bit word split and put together again; '
                    'distinct by width, address and discriminant')


def C02(c):
    """tables at every width, then what an unset or invalid selection means, then sequences of builds"""
    import os
    widths = [Run('c02', width=w, args=[str(w)], gen=False, profile=p) for w in WIDTHS for p in (('debug',) if c.quick else ('debug', 'release'))]
    default = [Run('c02', width=None, args=['60'], gen=False, label='unset')]
    for k, v in enumerate(['', '59', '60bit', '64bits', '47bits', ' 50bits', '50BITS', 'bits', '0bits', '-52bits', '52bits,53bits']):
        default.append(Run('c02', width=None, args=['60'], gen=False, label='invalid %r' % v,
                           env={'TAGGED_BOX_RESERVED_WIDTH': v, 'CARGO_TARGET_DIR': os.path.join(c.base, 'native-invalid%d' % (k % (4 if c.quick else 12)))}))
    c.run_all(widths + default)
    # one build directory, one selection after the other
    rng = __import__('random').Random(c.seed)
    for h in range(1 if c.quick else 6):
        d = os.path.join(c.base, 'native-history%d' % h)
        seq = [48, 63, None, 55, 56] + [rng.choice(WIDTHS + (None, 'x')) for _ in range(3 if c.quick else 15)]
        for k, w in enumerate(seq):
            env = {'CARGO_TARGET_DIR': d}
            if w:
                env['TAGGED_BOX_RESERVED_WIDTH'] = '%sbits' % w
            c.run_all([Run('c02', width=None, args=[str(w) if isinstance(w, int) else '60'], gen=False, env=env, label='history %d step %d: %s' % (h, k, seq[:k + 1]))])
    return c.finish('one evaluation = one exported limit compared with the documented one, or one discriminant stored (or refused) under the selection; distinct by width, limit and value')


def C03(c):
    runs = []
    for w in ((63, 62, 60, 57, 56, 48) if c.quick else WIDTHS):
        for p in ('debug', 'release'):
            if c.quick and p == 'debug' and w in (62, 57, 48):
                continue
            for s in range(1 if c.quick else 3):
                runs.append(Run('c03', width=w, profile=p, sets='over', nmax=16, seed=c.seed + 1000 * s))
    c.run_all(runs)
    return c.finish('one evaluation = one construction with arguments in or beyond the limits, which has to be accepted unchanged or to panic; or one variant of an enum of 3 to 300 variants sent '
                    'through a container; distinct by constructor, contents and arguments')


def C04(c):
    c.run_all(grid(c, 'c04', (60, 48)) + grid(c, 'c04', (55, 63), ('release',)) if c.quick else grid(c, 'c04', WIDTHS, rounds=3, scale=400))
    return c.finish('one evaluation = one value (of 40 types) boxed under some discriminant and read, written or taken out in some way, or one step of a history over many live boxes after which all are '
                    'compared with the model and checked for overlap; distinct by type, discriminant, way and value')


def C14(c):
    c.run_all(native(c, 'c14', 'arity,mixed,single,struct,bare,copy') + [Run('c14', width=60, sets='tiny', tool='miri', target=I686, args=['pointers'])])
    return c.finish('one evaluation = one format string applied to a tagged pointer or box and to the plain address, outputs and results compared (also into writers that fail); '
                    'distinct by format string and output')


def C17(c):
    c.run_all(native(c, 'c17', 'tok,mixed,single,struct,bare,random'))
    return c.finish('one evaluation = one operation of which one particular allocation was refused (in a child process), and the state of the boxes, values and heap after it; '
                    'distinct by enum, variant, operation and allocation')


def C18(c):
    tsan = [Run('c18', width=w, tool='tsan', profile=p, sets='send', scale=50 if c.quick else 300, timeout=800) for w, p in
            (((60, 'debug'),) if c.quick else ((60, 'debug'), (48, 'release'), (56, 'debug'), (52, 'release')))]
    miri = [Run('c18', width=w, tool='miri', sets='sendtiny', miri='-Zmiri-seed=%d' % (c.seed * 100 + k), args=a, seed=c.seed + k)
            for k in range(3 if c.quick else 24) for w, a in ((60, ['stress']), (48, ['generated']))]
    miri.append(Run('known', tool='miri', gen=False, args=['locked'], sig='locked:'))
    c.run_all(tsan + native(c, 'c18', 'send', scale=100) + miri)
    return c.finish('one evaluation = one read of a container shared between threads, one arrival of a container sent through them, or one probe of Send and Sync; distinct by enum and by the '
                    'recorded interleaving of the threads\' steps; ThreadSanitizer and Miri watch for data races throughout')


def same_digests(c, outcomes, kind):
    """what the same program observed must be the same in all builds"""
    groups = {}
    for o in outcomes:
        if o.result:
            groups.setdefault(o.run.group, []).append(o)
    n = 0
    for g, os_ in groups.items():
        base = os_[0].result['digests']
        for o in os_[1:]:
            n += len(base)
            for k in sorted(set(base) | set(o.result['digests'])):
                if base.get(k) != o.result['digests'].get(k):
                    c.viol.append((kind, '%s observed %s in "%s" and %s in "%s"' % (k, base.get(k), os_[0].run.name(), o.result['digests'].get(k), o.run.name()), o.run))
    c.cov['programs compared between builds'] = n
    return n


def C19(c):
    runs = []

    def add(group, w, p, **kw):
        r = Run('c19', width=w, profile=p, **kw)
        r.group = group
        runs.append(r)
    for s in range(1 if c.quick else 4):
        seed = c.seed + 1000 * s
        for w in WIDTHS:
            for p in ('debug',) if c.quick else ('debug', 'release'):
                add('two %d' % s, w, p, nmax=2, sets='ord,copy,random', extra=6, seed=seed, scale=200)
        for w, p in [(60, 'debug'), (60, 'release'), (55, 'debug'), (56, 'release'), (48, 'release')] if c.quick else [(w, p) for w in range(48, 61) for p in ('debug', 'release')]:
            add('sixteen %d' % s, w, p, nmax=16, sets='arity,mixed,struct,single,ord,copy,random', extra=2, seed=seed)
        for w, p in [(56, 'debug'), (55, 'release'), (48, 'debug')] if c.quick else [(w, 'release') for w in range(48, 57)]:
            add('all %d' % s, w, p, nmax=256, sets='large', seed=seed, scale=50)
        for w, p in [(48, 'release'), (55, 'debug')] if c.quick else [(w, 'release') for w in range(48, 56)]:
            add('more than a byte %d' % s, w, p, nmax=280, sets='large', seed=seed, scale=50)
    c.run_all(runs)
    same_digests(c, c.outcomes, 'observations-differ')
    return c.finish('one evaluation = one value sent through all operations of a program, with what was observed mixed into the program\'s digest; the digests of the same program are compared '
                    'between all builds; distinct by the state of the digest')


def C20(c):
    c.run_all(native(c, 'c20', ALLSETS) + large(c, 'c20'))
    return c.finish('one evaluation = the size, alignment and word of one container, its box and its pointer compared with each other and with the heap block found in the allocator\'s log; '
                    'distinct by enum, variant and word')


def C23(c):
    c.run_all(grid(c, 'c23', (63, 60, 56, 48)) if c.quick else grid(c, 'c23', WIDTHS, rounds=3, scale=400))
    return c.finish('one evaluation = all comparison operators and hashes of one pair of tagged pointers, or the order of one triple, compared with the (address, discriminant) pairs; '
                    'distinct by the words')


def C24(c):
    import re
    c.run_all(grid(c, 'c24', WIDTHS, ('debug',) if c.quick else ('debug', 'release')) + grid(c, 'c24', (60, 48), ('release',)))
    # constants beyond the limit must be refused by the compiler, and those within accepted
    n = 0
    for w in (60, 63, 55):
        for what in ('good', 'pointer', 'box', 'static'):
            r = Run('c24x', width=w, gen=False, label=what)
            e = c.env(r)
            e['RUSTFLAGS'] += ' --cfg mon_x="%s"' % what
            e['CARGO_TARGET_DIR'] += '-x'
            err = c.build(r, e)
            n += 1
            if what == 'good':
                if err is not None:
                    if 'E0080' in err:
                        c.viol.append(('constant:refused', 'a constant at the limit does not compile at width %d' % w, r))
                    else:
                        c.viol += [v + (r,) for v in c.on_build_failure(r, err)]
            elif err is None:
                c.viol.append(('constant:accepted', 'a %s beyond the limit compiles at width %d' % (what, w), r))
            elif 'E0080' not in err and not c.viol:
                raise NoVerdict('c24x fails with another error: ' + err[:400])
    c.cov['constants beyond the limit given to the compiler'] = n
    return c.finish('one evaluation = one row of results computed by the compiler compared with the same computed at run time and with the expected values; distinct by the arguments')


def programs(c, bin, widths=(60, 48, 56), scale=100, miri=1, asan=True):
    """drivers with enums of their own: natively at several widths and seeds, under AddressSanitizer, and a little under Miri"""
    if c.quick:
        runs = grid(c, bin, widths, scale=scale)
    else:
        runs = grid(c, bin, (48, 50, 52, 55, 56, 58, 60), rounds=6, scale=scale * 10)
    for k in range(1 if c.quick else 4):
        runs.append(Run(bin, tool='asan', gen=False, width=(60, 48, 55, 52)[k], seed=c.seed + 5000 + k, scale=scale if c.quick else scale * 5))
    for k in range(miri if c.quick else 16):
        runs.append(Run(bin, tool='miri', gen=False, width=(60, 48)[k % 2], seed=c.seed * 40 + k, scale=100, target=(None, None, I686, S390X)[k % 4]))
    c.run_all(runs)


def C25(c):
    programs(c, 'c25')
    return c.finish('one evaluation = one step of a history over recursive values, after which the encodings of all values are compared with those of the same values with plain boxes; '
                    'distinct by operation and encoding of a value')


def C26(c):
    programs(c, 'c26', scale=150)
    return c.finish('one evaluation = one value of a hand-written implementation boxed, viewed, formatted, compared, cloned and taken out again and compared with the same value never boxed, one history '
                    'of boxes with the heap balanced after it, or one unknown discriminant; distinct by value')


def C27(c):
    programs(c, 'c27', scale=200)
    return c.finish('one evaluation = one operation with the operations its user code performs in turn, each compared with a model, and all boxes afterwards; distinct by the values of all boxes')


I686, S390X = 'i686-unknown-linux-gnu', 's390x-unknown-linux-gnu'


# what the sanitizers say, of programs whose other observations are judged by the checks of other properties
UB = r'asan:|valgrind|crash:|abort|undefined-behaviour|heap:'


def C16(c):
    """the interpreter for all that is undefined, and the sanitizers for the larger programs"""
    runs = []
    for k in range(8 if c.quick else 120):
        # (each with enums and values of its own)
        runs.append(Run('c16', tool='miri', width=(60, 48, 56, 52)[k % 4], sets='tiny' if k % 4 == 0 else 'mini,miniar', extra=4, seed=c.seed * 40 + k, scale=60 if c.quick else 200,
                        args=[] if k == 0 else ['enums'], profile='debug'))
    # references that live at the same time, by the stricter of the two models (not for enums with a Box in them: viewing those makes a second Box of the same block, see DESIGN.md)
    stacked = '-Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-env-forward=VERIF_SEED -Zmiri-env-forward=MON_SCALE'
    for k in range(1 if c.quick else 6):
        runs.append(Run('c16', tool='miri', sets='tiny', seed=c.seed * 40 + 20 + k, scale=50 if c.quick else 200, profile='debug', args=['boxes'], env={'MIRIFLAGS': stacked}))
    for a in ('another-type', 'growing'):
        runs.append(Run('known', tool='miri', gen=False, args=[a], sig=a + ':'))
    full = [('c05', TOKSETS), ('c07', ALLSETS), ('c11', TOKSETS + ',arity,copy'), ('c10', TOKSETS + ',arity,copy'), ('c16', ALLSETS + ',tok'), ('c15', 'tok,struct,single,bare'), ('c09', 'arity,single,bare'),
            ('c12', 'ord,single,mixed'), ('c13', 'ord,single,mixed')]
    for b, sets in full[:6] if c.quick else full:
        for w, p in ((60, 'debug'),) if c.quick else ((60, 'debug'), (60, 'release'), (48, 'debug'), (55, 'release')):
            runs.append(Run(b, tool='asan', width=w, profile=p, sets=sets, scale=40 if c.quick else 200, only=UB))
    runs.append(Run('c04', tool='asan', gen=False, width=48, scale=100))
    runs.append(Run('c16', tool='valgrind', width=60, profile='debug', sets=ALLSETS + ',tok', scale=100))
    if not c.quick:
        for b, sets in full:
            runs.append(Run(b, tool='valgrind', width=48, profile='release', sets=sets, scale=20, timeout=3000, only=UB))
    c.run_all(runs)
    return c.finish('one evaluation = one step of a random program over generated enums and boxes (of every operation of the crate), run under Miri (tree borrows, symbolic alignment), AddressSanitizer or '
                    'valgrind, with its outcome compared as well; distinct by the state of what was observed')


def C22(c):
    """the same programs on four targets; what they observe must be the same"""
    runs = []

    def add(group, r):
        r.group = group
        runs.append(r)
    for k in range(2 if c.quick else 24):
        seed = c.seed * 40 + 7 + k
        sets = 'tiny' if k == 0 else 'mini,miniar'
        for kw in [dict(tool='miri', target=I686, width=60), dict(tool='miri', target=S390X, width=60), dict(tool='native', width=60), dict(tool='native', width=48, profile='release')] + \
                ([dict(tool='miri', target=I686, width=48)] if k == 0 else []) + ([] if c.quick else [dict(tool='miri', target=S390X, width=55), dict(tool='miri', target='aarch64-unknown-linux-gnu', width=60),
                                                                          dict(tool='miri', target='powerpc-unknown-linux-gnu', width=60)]):
            add('p%d' % k, Run('c16', sets=sets, extra=4, seed=seed, scale=50 if c.quick else 100, **kw))
    for b in ('c01', 'c24', 'c23', 'c04', 'c14'):
        for t in (I686, S390X):
            add(b + t, Run(b, tool='miri', target=t, width=60 if t == I686 else 52, scale=5, sets='tiny', gen=b == 'c14', args={'c14': ['pointers'], 'c04': ['given']}.get(b, []) if c.quick else [], seed=c.seed))
    c.run_all(runs)
    same_digests(c, c.outcomes, 'observations-differ')
    return c.finish('one evaluation = one step of a random program run under Miri for a 32-bit or big-endian target, or natively, with its outcome compared with the model; the digests of all that a program '
                    'observed are compared between the targets; distinct by the state of what was observed')


def C21(c):
    """a program without std against the same with it"""
    import os, re, subprocess, time
    from concurrent.futures import ThreadPoolExecutor
    from check import VERIF
    man = os.path.join(VERIF, 'nostd/Cargo.toml')

    def cargo(r, args, **kw):
        e = c.env(r)
        e['CARGO_TARGET_DIR'] = os.path.join(c.base, 'nostd-%s%s' % (r.width, '-' + r.target if r.target else ''))
        cmd = ['cargo'] + (['+nightly'] if r.target else []) + [args[0], '--offline', '--quiet', '--manifest-path', man] + args[1:] + (['--release'] if r.profile == 'release' else [])
        if r.target:
            cmd += ['-Zbuild-std=core,alloc', '--target', r.target]
        with c.dirlock(e['CARGO_TARGET_DIR']):
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=800)
        if p.returncode == 0:
            return os.path.join(e['CARGO_TARGET_DIR'], r.profile), None
        if p.returncode < 0 or re.search(r'SIGKILL|No space left|Cannot allocate memory', p.stderr):
            raise NoVerdict('the compiler was stopped: ' + p.stderr[-300:])
        return None, p.stderr

    def program(r):
        """all three binaries at one width and profile"""
        t0 = time.time()
        viol, samples, evals, lines = [], [], 0, set()
        # the program with std has to build in any case
        d, err = cargo(r, ['build', '--bin', 'hosted'])
        if err:
            raise NoVerdict('the hosted program does not build: ' + err[-600:])
        for b in ('bare', 'min'):
            _, err = cargo(r, ['build', '--bin', b])
            if err:
                first = re.search(r'^error.*(?:\n.*){0,3}', err, re.M)
                viol.append(('does-not-build', '%s: %s' % (b, first.group(0)[:400] if first else err[-400:])))
        if not viol:
            def run(*a):
                try:
                    p = subprocess.run([os.path.join(d, a[0])] + [str(x) for x in a[1:]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
                except subprocess.TimeoutExpired:
                    return 'no end', ''
                return p.returncode, p.stdout.decode(errors='replace')
            m = run('min')
            evals += 1
            if m != (0, 'as expected\n'):
                viol.append(('min', 'gave %r' % (m,)))
            for s in range(12 if c.quick else 200):
                a, b = run('bare', c.seed + s), run('hosted', c.seed + s)
                evals += a[1].count('\n')
                lines |= set(a[1].splitlines())
                if a != b or a[0] != 0:
                    x = [(i, p, q) for i, (p, q) in enumerate(zip(a[1].splitlines(), b[1].splitlines())) if p != q][:1]
                    viol.append(('observations-differ', 'seed %d: ended with %d and %d, first difference: %s; last lines %r and %r' % (c.seed + s, a[0], b[0], x, a[1][-100:], b[1][-100:])))
                    break
            for k in range(6):
                a, b = run('bare', c.seed, k), run('hosted', c.seed, k)
                evals += 1
                if a != (42, 'panicked\n') or a != b:
                    viol.append(('panic', 'failing operation %d: %r and %r' % (k, a, b)))
            samples = ['%d lines in all, e.g. %s' % (len(lines), sorted(lines)[len(lines) // 2][:120])]
        return r, evals, len(lines), viol, samples, time.time() - t0

    def bare_metal(r):
        _, err = cargo(r, ['check', '--lib'])
        if err and re.search(r'could not compile `(core|alloc|compiler_builtins)', err):
            raise NoVerdict('no core for ' + r.target)
        first = err and re.search(r'^error.*(?:\n.*){0,3}', err, re.M)
        return r, 1, 1, [('does-not-build', '%s: %s' % (r.target, first.group(0)[:400] if first else err[-400:]))] if err else [], ['compiled for ' + r.target], 0
    jobs = [(program, Run('nostd', width=w, profile=p, gen=False)) for w in ((60, 48, 56) if c.quick else WIDTHS[::3] + (60, 56)) for p in ('debug', 'release')]
    jobs += [(bare_metal, Run('nostd', width=w, target=t, gen=False)) for t, w in (('x86_64-unknown-none', 60), ('thumbv7em-none-eabi', 48))[:2 if c.quick else 2]]
    with ThreadPoolExecutor(8) as ex:
        for r, n, m, viol, samples, wall in ex.map(lambda j: j[0](j[1]), jobs):
            c.record(r, n, m, viol, samples, wall=wall)
    return c.finish('one evaluation = one line of observations of the program without std compared with that of the program with std (also which operations panic); distinct by line')


def C28(c):
    import os, subprocess, sys
    from check import VERIF, REPO

    def package(name, edition, k):
        d = os.path.join(c.base, 'ctx', name)
        os.makedirs(os.path.join(d, 'src'), exist_ok=True)
        open(os.path.join(d, 'Cargo.toml'), 'w').write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "%s"\n[dependencies]\ntb = { package = "tagged-box", path = "%s" }\n[workspace]\n' % (name, edition, REPO))
        r = Run(name, width=(60, 55, 48, 60)[k % 4], profile=('debug', 'release')[k // 4 % 2], gen=False, label='edition ' + edition)
        r.manifest = os.path.join(d, 'Cargo.toml')
        r.env['CARGO_TARGET_DIR'] = os.path.join(c.base, 'ctx', 'target%d' % (k % 4))
        return r, os.path.join(d, 'src/main.rs')
    runs = []
    for k in range(8 if c.quick else 64):
        edition = ('2021', '2015', '2018', '2024')[k % 4]
        seed = c.seed * 100 + k
        r, f = package('ctx%s_%d' % (edition, seed), edition, k)
        subprocess.run([sys.executable, os.path.join(VERIF, 'ctx/gen_ctx.py'), f, '--seed', str(seed), '--units', '60' if c.quick else '150', '--edition', edition] + (['--many'] if k % 4 in (1, 2) else []), check=True)
        runs.append(r)
    c.run_all(runs)
    # known findings
    for name, code, sig, variant in (('named', 'E0072', 'named-like-its-field-type:does-not-compile', 'Pair(Pair, u16)'), ('self', 'E0308', 'self-as-payload:does-not-compile', 'Node(Box<Self>)'),
                                     ('enum', 'E0308', 'named-like-the-enum:does-not-compile', 'I { a: u8, b: u16 }'),
                                     ('const', 'E0308', 'constant-named-like-a-binding:does-not-compile', 'Two(u8, u16)')):
        r, f = package('ctx_' + name, '2021', 0)
        open(f, 'w').write('pub struct Pair(pub u8);\n' + ('pub const var: u8 = 1;\npub const a: u8 = 1;\n' if name == 'const' else '') + 'tb::tagged_box! { pub struct C, pub enum I { Leaf(u8), %s, } }\nfn main() {}\n' % variant)
        err = c.build(r, c.env(r))
        if err and code in err:
            c.viol.append((sig, variant, r))
        elif err and not c.viol:
            c.viol += [v + (r,) for v in c.on_build_failure(r, err)]
    return c.finish('one evaluation = one conversion, view, comparison or formatting of a value of an enum declared somewhere in a generated program, compared with the value made anew; '
                    'distinct by enum, variant and value; that the programs compile is part of what is checked')


def C29(c):
    import os, re, subprocess
    from check import VERIF
    d = os.path.join(VERIF, 'borrow')
    names = sorted(f[:-3] for f in os.listdir(os.path.join(d, 'src/bin')))
    def run(n, bad, **kw):
        r = Run(n, gen=False, label='misused' if bad else '', **kw)
        r.manifest = os.path.join(d, 'Cargo.toml')
        r.env['CARGO_TARGET_DIR'] = os.path.join(c.base, 'borrow-%s%s-%s' % (r.tool, '-bad' if bad else '', r.width))
        return r
    # the programs without the misuse are accepted, and run
    c.run_all([run(n, False, width=w) for w in ((60, 48) if c.quick else WIDTHS) for n in names])
    c.run_all([run(n, False, tool='miri', width=w) for w in ((60,) if c.quick else (60, 48, 55)) for n in names])
    # and with it they aren't
    for w in (60,) if c.quick else (60, 48, 55):
        for n in names:
            r = run(n, True, width=w)
            e = c.env(r)
            e['RUSTFLAGS'] += ' --cfg bad'
            err = c.build(r, e)
            if err is None:
                c.viol.append(('accepted:' + n, 'the compiler accepts the misuse in borrow/src/bin/%s.rs' % n, r))
                continue
            codes = set(re.findall(r'^error\[(E\d+)\]', err, re.M)) | ({'lifetime'} if 'lifetime may not live long enough' in err else set())
            if not codes & {'E0133', 'E0277', 'E0382', 'E0499', 'E0502', 'E0505', 'E0515', 'E0521', 'E0596', 'E0597', 'lifetime'} and not c.viol:
                raise NoVerdict('%s is refused for another reason: %s' % (n, err[:400]))
            c.record(r, 1, 1, samples=['%s: %s' % (n, ', '.join(sorted(codes)))], counters={'misuses refused': 1})
    return c.finish('one evaluation = one program that keeps to the rules, accepted and run (natively, under Miri), or the same program with one step that breaks them, refused by the compiler; distinct by program')
