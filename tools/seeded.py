#!/usr/bin/env python3
"""Runs the checks against the planted changes of seeded/: seeded.py [ID..] [--all PROPERTY,..] [--seed N]
For each: applies it to /repo, runs its property's check (or the ones given), and undoes it."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
props = a[a.index('--all') + 1].split(',') if '--all' in a else None
seed = a[a.index('--seed') + 1] if '--seed' in a else '1'
ids = [x for x in a if os.path.isdir(os.path.join(V, 'seeded', x))] or sorted(os.listdir(os.path.join(V, 'seeded')))
for i in ids:
    d = os.path.join(V, 'seeded', i)
    m = json.load(open(d + '/meta.json'))
    if subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], stdout=subprocess.PIPE).stdout:
        sys.exit('/repo is not clean')
    try:
        subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
        for p in props or [m['property']]:
            t = time.time()
            r = subprocess.run([os.path.join(V, 'check.py'), p, '--tier', 'quick', '--seed', seed], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            caught = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
            sigs = sorted(set(re.findall(r'^  (\S+):', r.stdout, re.M)))
            print('%-28s %s %s (%d) %.0f s %s' % (i, p, 'caught' if caught else 'quiet' if r.returncode == 0 else 'NO VERDICT', r.returncode, time.time() - t, ' '.join(sigs[:4])), flush=True)
            if not caught:
                print('    ' + '\n    '.join(r.stdout.splitlines()[-4:]), flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
