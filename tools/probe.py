#!/usr/bin/env python3
"""Apply small changes to a scratch copy of /repo one by one and run checks on each (development only; no test suite, no demonstration).
usage: probe.py SPECS.py [--dir DIR] [names...]     SPECS.py: probes = [(name, 'C05,C11', file, old, new), ...]"""
import sys, os, subprocess, argparse
ap = argparse.ArgumentParser()
ap.add_argument('spec'); ap.add_argument('names', nargs='*'); ap.add_argument('--dir', default='/tmp/probe/r0')
a = ap.parse_args()
S = {}; exec(open(a.spec).read(), S)
R = a.dir
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(R): sh(f'mkdir -p {os.path.dirname(R)} && git clone -q /repo {R} && cp -a /repo/extern {R}/')
head = sh('git -C /repo rev-parse HEAD').stdout.strip()
sh(f'git -C {R} fetch -q /repo HEAD; git -C {R} checkout -qf {head}')
for n, checks, f, old, new in S['probes']:
    if a.names and n not in a.names: continue
    sh(f'git -C {R} checkout -q -- .')
    p = f'{R}/{f}'; t = open(p).read()
    if t.count(old) != 1: print(n, 'EDIT: matches', t.count(old), flush=True); continue
    open(p, 'w').write(t.replace(old, new))
    res = []
    for c in checks.split(','):
        r = sh(f'VERIF_REPO={R} VERIF_TIER=quick timeout 900 python3 /verif/check.py {c}', cwd='/verif')
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        if v: res.append(f'{c} caught ' + v[0].split('/')[-1]); break
        res.append(f'{c} exit {r.returncode}' + (' ' + r.stdout[-300:] if r.returncode not in (0, 1) else ''))
    print(n, 'CAUGHT' if any('caught' in x for x in res) else 'MISSED', res, flush=True)
sh(f'git -C {R} checkout -q -- .')
