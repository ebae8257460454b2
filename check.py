#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--only SUBSTRING] [--keep]

Builds the monitors against /repo's working tree, runs the property's workloads under them, and
reports: exit 0 held, 1 violated (VIOLATION line), anything else no verdict.
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MON_REPO', '/repo')
BUILD = os.environ.get('MON_BUILD', os.path.join(VERIF, 'build'))
HOST = 'x86_64-unknown-linux-gnu'
sys.path.insert(0, os.path.join(VERIF, 'checks'))
START = time.time()


def repo_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'tests', 'benches', 'examples'))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(('.rs', '.toml')):
                h.update(p.encode() + b'\0' + open(p, 'rb').read())
    h.update(subprocess.run(['rustc', '-V'], stdout=subprocess.PIPE).stdout)
    return h.hexdigest()[:12]


class NoVerdict(Exception):
    pass


class Decided(Exception):
    pass


class Run:
    """One execution of one monitored program"""

    def __init__(self, bin, width=60, profile='debug', tool='native', sets=None, nmax=None, extra=2, seed=None, scale=100, args=(), env=None,
                 timeout=800, miri='', target=None, label='', gen=True, sig='', only=None):
        self.__dict__.update(locals())
        del self.__dict__['self']
        if nmax is None:
            self.nmax = min(1 << (64 - width), 16) if width else 16
        self.env = dict(env or {})

    def name(self):
        return '%s %s %s%s width %s%s%s' % (self.bin, self.tool, self.target + ' ' if self.target else '', self.profile,
                                            self.width, ' ' + ' '.join(self.args) if self.args else '', ' ' + self.label if self.label else '')


class Outcome:
    def __init__(self, run):
        self.run = run
        self.result = None
        self.viol = []   # (sig, detail)
        self.error = None
        self.stdout = self.stderr = ''
        self.wall = 0


class Checker:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.quick = tier == 'quick'
        self.base = os.path.join(BUILD, repo_hash())
        self.locks = {}
        self.lock = threading.Lock()
        self.outcomes = []
        self.decided = None   # when the first violation was seen
        self.viol = []        # (sig, detail, run)
        self.cov = {}
        self.assume = []
        os.makedirs(self.base, exist_ok=True)
        for d in glob.glob(os.path.join(BUILD, '*')):  # builds of other trees
            if os.path.basename(d) != os.path.basename(self.base) and re.fullmatch(r'[0-9a-f]{12}', os.path.basename(d)) and time.time() - os.path.getmtime(d) > 600:
                shutil.rmtree(d, ignore_errors=True)

    # ---- building ----
    def gen_dir(self, r):
        seed = self.seed if r.seed is None else r.seed
        key = 'g%d-%d-%d-%s' % (seed, r.nmax, r.extra, hashlib.sha256((r.sets or '').encode()).hexdigest()[:8])
        d = os.path.join(BUILD, 'gen', key)
        with self.lock:
            cmd = [sys.executable, os.path.join(VERIF, 'gen/gen.py'), d, '--seed', str(seed), '--max-variants', str(r.nmax), '--extra', str(r.extra)]
            if r.sets:
                cmd += ['--sets', r.sets]
            subprocess.run(cmd, check=True)
        return d

    def env(self, r):
        e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'MIRI', 'RUSTFLAGS', 'TAGGED_BOX', 'RUSTC'))}
        flags = '-A semicolon_in_expressions_from_macros'
        if r.tool == 'asan':
            flags += ' -Zsanitizer=address --cfg mon_plain'
        elif r.tool == 'tsan':
            flags += ' -Zsanitizer=thread --cfg mon_plain'
        elif r.tool == 'valgrind':
            flags += ' --cfg mon_plain'
        e['RUSTFLAGS'] = flags
        if r.width:
            e['TAGGED_BOX_RESERVED_WIDTH'] = '%dbits' % r.width
        e['CARGO_TARGET_DIR'] = os.path.join(self.base, '%s%s-%s' % (r.tool, '-' + r.target if r.target else '', r.width))
        e['CARGO_NET_OFFLINE'] = 'true'
        e['VERIF_SEED'] = str(self.seed if r.seed is None else r.seed)
        e['MON_SCALE'] = str(r.scale)
        if r.tool == 'miri':
            e['MIRIFLAGS'] = ('-Zmiri-permissive-provenance -Zmiri-tree-borrows -Zmiri-symbolic-alignment-check -Zmiri-ignore-leaks -Zmiri-env-forward=VERIF_SEED -Zmiri-env-forward=MON_SCALE ' + r.miri).strip()
        if r.tool == 'asan':
            e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1'
        if r.tool == 'tsan':
            e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=0'
        e['MON_WATCHDOG'] = str({'native': 60, 'asan': 90, 'tsan': 120, 'valgrind': 200}.get(r.tool, 0))
        e.update(r.env)
        if r.gen:
            e['MON_GEN'] = self.gen_dir(r)
        return e

    def cargo(self, r, sub):
        c = ['cargo']
        if r.tool in ('asan', 'tsan', 'miri'):
            c.append('+nightly')
        if r.tool == 'miri':
            c.append('miri')
        c += [sub, '--offline', '--quiet', '--manifest-path', getattr(r, 'manifest', os.path.join(VERIF, 'harness/Cargo.toml')), '--bin', r.bin]
        if r.profile == 'release':
            c.append('--release')
        if r.tool == 'tsan':
            c += ['-Zbuild-std', '--target', HOST]
        if r.tool == 'asan':
            c += ['--target', HOST]
        if r.tool == 'miri' and r.target:
            c += ['--target', r.target]
        return c

    def exe(self, r, e):
        d = e['CARGO_TARGET_DIR']
        if r.tool in ('asan', 'tsan'):
            d = os.path.join(d, HOST)
        return os.path.join(d, r.profile, r.bin)

    def miri_setup(self, target, e):
        """Miri's standard library for a target, built where it isn't there"""
        target = target or HOST
        with self.dirlock('miri ' + target):
            if ('miri', target) in self.locks:
                return
            p = subprocess.run(['cargo', '+nightly', 'miri', 'setup', '--target', target], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if p.returncode:
                raise NoVerdict('no standard library for Miri on %s: %s' % (target, p.stdout[-300:]))
            self.locks['miri', target] = True

    def dirlock(self, key):
        with self.lock:
            return self.locks.setdefault(key, threading.Lock())

    def build(self, r, e):
        """None if built, otherwise the compiler's errors"""
        p = subprocess.run(self.cargo(r, 'build'), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=800)
        if p.returncode == 0:
            return None
        if p.returncode < 0 or re.search(r'\bSIGKILL\b|No space left|Cannot allocate memory|signal: 9', p.stderr):
            raise NoVerdict('the compiler was stopped: ' + p.stderr[-300:])
        return p.stderr

    # ---- running ----
    def execute(self, r):
        o = Outcome(r)
        t0 = time.time()
        try:
            e = self.env(r)
            crumb = os.path.join(self.base, 'crumb-%d-%x' % (os.getpid(), id(r)))
            e['MON_CRUMB'] = crumb
            if r.tool == 'miri':
                # each set of enums in a directory of its own, as the run takes what it finds there
                if r.gen or not hasattr(r, 'manifest'):
                    e['CARGO_TARGET_DIR'] += '-' + hashlib.sha256((r.bin + e.get('MON_GEN', '')).encode()).hexdigest()[:8]
                self.miri_setup(r.target, e)
                cmd = self.cargo(r, 'run') + ['--'] + list(r.args)
            else:
                with self.dirlock(e['CARGO_TARGET_DIR']):
                    err = self.build(r, e)
                    if err is None:
                        exe = self.exe(r, e)
                        own = exe + '-%x' % id(r)
                        subprocess.run(['cp', exe, own], check=True)  # (not with shutil: another thread's fork would keep it open for writing)
                        exe = own
                if err is not None:
                    o.error = 'build failed'
                    o.stderr = err
                    o.viol = self.on_build_failure(r, err)
                    return o
                cmd = [exe] + list(r.args)
                if r.tool == 'valgrind':
                    cmd = ['valgrind', '-q', '--error-exitcode=99', '--leak-check=no', '--fair-sched=yes', '--track-origins=no'] + cmd
            limit = max(30, min(r.timeout, 850 - (time.time() - START))) if self.tier == 'quick' else r.timeout
            try:
                p = self.wait(cmd, e, limit)
            except subprocess.TimeoutExpired:
                o.viol = self.noted(crumb)
                raise NoVerdict('%s: no result after %d s' % (r.name(), limit))
            except Decided:
                o.viol = self.noted(crumb)
                raise NoVerdict('%s: ended early, as there is a violation already' % r.name())
            finally:
                if r.tool != 'miri':
                    os.unlink(cmd[0] if r.tool != 'valgrind' else exe)
            o.stdout, o.stderr = p.stdout, p.stderr
            self.judge(o, p.returncode, crumb)
        except NoVerdict as x:
            o.error = str(x)
        except Exception as x:  # noqa
            o.error = '%s: %r' % (r.name(), x)
        finally:
            o.wall = time.time() - t0
            if not self.decided and any(self.counts(r, sig) for sig, _ in o.viol):
                self.decided = time.time()
            for f in (crumb, crumb + '.v'):
                try:
                    os.unlink(f)
                except Exception:
                    pass
        return o

    def wait(self, cmd, e, limit):
        """runs a program; once there has been a violation elsewhere for a minute, this one isn't needed any more"""
        p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
        t0 = time.time()
        try:
            while True:
                try:
                    out, err = p.communicate(timeout=min(5, max(.1, limit - (time.time() - t0))))
                    return subprocess.CompletedProcess(cmd, p.returncode, out, err)
                except subprocess.TimeoutExpired:
                    if time.time() - t0 >= limit:
                        raise
                    if self.decided and time.time() - self.decided > 60:
                        raise Decided()
        finally:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()

    def noted(self, crumb):
        """the violations a program reported before it was ended"""
        try:
            return [tuple(json.loads(l)) for l in open(crumb + '.v', errors='replace')]
        except (OSError, ValueError):
            return []

    def judge(self, o, rc, crumb):
        r = o.run
        m = re.findall(r'^MONRESULT (.*)$', o.stdout, re.M)
        if m:
            o.result = json.loads(m[-1])
            o.viol += [tuple(v) for v in o.result['violations']]
        else:
            o.viol += self.noted(crumb)
        where = ''
        try:
            where = open(crumb).read().strip()
        except OSError:
            pass
        err = o.stderr
        ub = re.search(r'error: Undefined Behavior: (.*)', err)
        if ub:
            loc = re.search(r'-->\s*(\S+)', err[ub.end():])
            o.viol.append(('undefined-behaviour', '%s at %s' % (ub.group(1)[:300], loc.group(1) if loc else '?')))
        elif r.tool == 'miri' and re.search(r'error: (unsupported operation|abnormal termination|the evaluated program)', err):
            k = re.search(r'error: (.*)', err).group(1)
            if 'unsupported' in k:
                raise NoVerdict('%s: %s' % (r.name(), k))
            o.viol.append(('abort', k[:300]))
        if 'ERROR: AddressSanitizer' in err:
            k = re.search(r'ERROR: AddressSanitizer:? (\S+)', err)
            fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+)', err)[:6]
            o.viol.append(('asan:' + k.group(1), '[%s] %s' % (where, ' < '.join(fr))))
        if 'WARNING: ThreadSanitizer' in err:
            k = re.search(r'WARNING: ThreadSanitizer: (.*?) \(', err)
            fr = re.findall(r'#\d+ (\S+) ', err)[:8]
            o.viol.append(('tsan:' + (k.group(1) if k else '?'), ' < '.join(fr)))
        if r.tool == 'valgrind' and rc == 99:
            o.viol.append(('valgrind', '[%s] %s' % (where, ' '.join(re.findall(r'==\d+== (.*)', err)[:8])[:500])))
        if rc == 0 and o.result:
            return
        # (a recorded finding that doesn't end the program doesn't explain how it ended)
        if any(self.counts(r, sig) or sig == 'undefined-behaviour' or re.match('asan:|tsan:|valgrind|abort', sig) for sig, _ in o.viol):
            return
        if rc in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT) or (rc == 137):
            raise NoVerdict('%s was stopped (%d)' % (r.name(), rc))
        if rc < 0:
            return o.viol.append(('crash:' + signal.Signals(-rc).name, '[%s] %s' % (where, err[-300:])))
        if r.tool == 'miri' and re.search(r'^error(\[E\d+\])?: ', err, re.M):
            o.error = 'build failed'
            o.viol = self.on_build_failure(r, err)
            return
        if rc == 101:
            return o.viol.append(('panic', '[%s] %s' % (where, (re.search(r'panicked at.*(?:\n.*)?', err) or re.search(r'(?s).*', err)).group(0)[-300:])))
        raise NoVerdict('%s ended with %d: %s' % (r.name(), rc, err[-500:]))

    # properties for which "a documented program does not compile" is a violation
    COMPILE_PROPS = ('C02', 'C07', 'C19', 'C21', 'C22', 'C25', 'C26', 'C28', 'C29')

    def on_build_failure(self, r, err):
        if 'could not compile' not in err and not re.search(r'^error', err, re.M):
            raise NoVerdict('%s: %s' % (r.name(), err[-400:]))
        first = re.search(r'^error.*(?:\n.*){0,2}', err, re.M)
        first = first.group(0) if first else err[:300]
        blamed = self.blamed(err)
        if self.prop in blamed or (not blamed and self.prop in self.COMPILE_PROPS):
            return [('does-not-compile', '%s: %s' % (r.name(), first[:400]))]
        raise NoVerdict('%s does not build: %s' % (r.name(), first[:600]))

    # what the compiler misses, and the properties that promise it
    PROMISED = ((r'`[^`]*: (?:std::|core::)?(?:marker::)?(?:Send|Sync)`|cannot be (?:sent|shared) between threads', ('C18',)),
                (r"`[^`]*: (?:std::|core::)?(?:fmt::)?(?:Debug|Display)`|doesn't implement `(?:std::fmt::)?(?:Debug|Display)`", ('C13',)),
                (r"`[^`]*: (?:std::|core::)?(?:fmt::)?(?:LowerHex|UpperHex|Octal|Binary|Pointer)`|doesn't implement `(?:std::fmt::)?(?:LowerHex|UpperHex|Octal|Binary|Pointer)`", ('C14',)),
                (r"`TaggedPointer: (?:std::|core::)?(?:hash::Hash|Hash|(?:cmp::)?(?:PartialEq|Eq|PartialOrd|Ord|Copy|Clone))`|compared? .*`TaggedPointer`|cannot be applied to type `(?:tagged_box::)?TaggedPointer`", ('C23',)),
                (r"`[^`]*: (?:std::|core::)?(?:cmp::)?(?:PartialEq|Eq|PartialOrd|Ord)(?:<[^`]*>)?`|can't compare|binary operation `[=!<>]+` cannot be applied", ('C12',)),
                (r"`[^`]*: (?:std::|core::)?(?:clone::|marker::)?(?:Clone|Copy)`|error\[E0204\]", ('C11',)),
                (r'error\[E0015\]', ('C24',)))

    def blamed(self, err):
        for pat, props in self.PROMISED:
            if re.search(pat, err):
                return props
        return ()

    def run_all(self, runs, workers=8):
        runs = [r for r in runs if not self.only or self.only in r.name()]
        with ThreadPoolExecutor(workers) as ex:
            for o in ex.map(self.execute, runs):
                self.outcomes.append(o)
                for sig, d in o.viol:
                    if o.run.only and not re.match(o.run.only, sig):
                        continue  # (another property's)
                    self.viol.append((o.run.sig + sig, d, o.run))
                if o.error:
                    print('note: %s: %s' % (o.run.name(), o.error), file=sys.stderr)
        return self.outcomes

    def record(self, run, evals, distinct, viol=(), samples=(), counters=None, error=None, wall=0):
        """what was observed in some other way"""
        o = Outcome(run)
        o.result = {'evals': evals, 'distinct': distinct, 'counters': counters or {}, 'samples': list(samples), 'digests': {}}
        o.error, o.wall = error, wall
        self.outcomes.append(o)
        for sig, d in viol:
            self.viol.append((sig, d, run))

    # ---- reporting ----
    def known(self):
        """(signature, description) of the recorded findings"""
        known = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', l)
                if m and m.group(1) == self.prop:
                    known.append((m.group(2), m.group(3).strip()))
        return known

    def counts(self, r, sig):
        """is it this property's, and not recorded?"""
        return (not r.only or re.match(r.only, sig)) and all(k[0] != re.sub(r'\s+', '_', r.sig + sig) for k in self.known())

    def finish(self, rule, extra=None):
        known = self.known()
        seen, fresh = [], []
        for sig, d, r in self.viol:
            k = [x for x in known if x[0] == re.sub(r'\s+', '_', sig)]
            if k:
                if k[0] not in seen:
                    seen.append(k[0])
            else:
                fresh.append((sig, d, r))
        for sig, what in seen:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        evals = distinct = 0
        counters, samples, runs = {}, [], []
        for o in self.outcomes:
            if o.result:
                evals += o.result['evals']
                distinct += o.result['distinct']
                for k, v in o.result['counters'].items():
                    counters[k] = max(counters.get(k, 0), v) if k.startswith('most') else counters.get(k, 0) + v
                samples += ['%s: %s' % (o.run.name(), s) for s in o.result['samples'][:2]]
                runs.append({'run': o.run.name(), 'evaluations': o.result['evals'], 'distinct': o.result['distinct'], 'wall_s': round(o.wall, 1)})
        cov = {'evaluations': evals, 'distinct_nontrivial': distinct, 'rule': rule, 'samples': samples[:12], 'observed': counters, 'runs': runs}
        cov.update(self.cov)
        if extra:
            cov.update(extra)
        if not cov['samples']:
            cov['samples'] = ['none']
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - START, 2), 'violations': len(fresh)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1)
        if fresh:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s-%d.json' % (self.prop, self.seed))
            json.dump({'property': self.prop, 'command': 'VERIF_SEED=%d %s %s --tier %s' % (self.seed, os.path.join(VERIF, 'check.py'), self.prop, self.tier),
                       'violations': [{'kind': s, 'detail': dd, 'run': r.name() if r else None, 'args': list(r.args) if r else None} for s, dd, r in fresh[:60]]},
                      open(rp, 'w'), indent=1)
            for s, dd, r in fresh[:5]:
                print('  %s: %s (%s)' % (s, dd[:400], r.name() if r else ''))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        errs = [o for o in self.outcomes if o.error]
        if errs:
            for o in errs:
                print('no verdict: %s: %s\n%s' % (o.run.name(), o.error, o.stderr[-800:]), file=sys.stderr)
            return 3
        if evals == 0 or any(o.result and o.result['evals'] == 0 for o in self.outcomes):
            print('no verdict: nothing was observed', file=sys.stderr)
            return 4
        missing = [k for k in known if k not in seen]
        for k in missing:
            print('note: the known finding "%s" did not show in this run' % k[1])
        print('held: %s, %d evaluations (%d distinct) in %d runs, %.1f s' % (self.prop, evals, distinct, len(self.outcomes), time.time() - START))
        return 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a.add_argument('--only')
    o = a.parse_args()
    import props
    c = Checker(o.prop, 'thorough' if o.tier == 'thorough' else 'quick', o.seed, o.only)
    try:
        rc = getattr(props, o.prop)(c)
    except NoVerdict as x:
        print('no verdict: %s' % x, file=sys.stderr)
        rc = 3
        if any(c.counts(r, sig) for sig, d, r in c.viol if r):
            rc = c.finish('(stopped at: %s)' % str(x)[:200])  # what was seen before stands
    sys.exit(rc)


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    main()
