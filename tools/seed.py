#!/usr/bin/env python3
"""Plant a bug in a scratch copy of /repo and record it under /verif/seeded/<id>.

  seed.py SPEC.py [--slot N] [--checks C01,C02] [--no-checks]

SPEC.py defines: id, property, needs, breaks, edits = [(file, old, new), ...], demo (C++ body).
The edits are applied to a scratch copy (/tmp/seed/r<N>), which is built and tested; the demonstration is compiled
and run against the scratch copy with and without the edits; then the checks run with VERIF_REPO on the scratch copy.
"""
import sys, os, re, subprocess, json, argparse, shutil
BASE = '21ebf9c'
DEMO_SH = '''#!/bin/bash
# Run with the repository as working directory, after its build. Exit 0: the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
TP=/opt/vp/torch-site/torch
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -w -O0 -D_GLIBCXX_USE_CXX11_ABI=0 "$D/demo.cpp" -o "$W/demo" -I"$R/include" -I"$R/extern/boost" \\
	-I"$R/extern/doctest" -I$TP/include -I$TP/include/torch/csrc/api/include \\
	-L"$R/_build/sources" -lQuantiT -L$TP/lib -ltorch -ltorch_cpu -lc10 -lfmt \\
	-Wl,-rpath,"$R/_build/sources:$TP/lib" || exit 2
timeout -k 5 120 "$W/demo"
'''
DEMO_HEAD = '''// Demonstration for a planted bug: main returns 0 when the behaviour is right.
#define DOCTEST_CONFIG_IMPLEMENT
#include <doctest.h>
#include "dimension_manip.h"
#include "dmrg.h"
#include "LinearAlgebra.h"
#include "MPT.h"
#include "models.h"
#include "operators.h"
#include "tensorgdot.h"
#include "blockTensor/LinearAlgebra.h"
#include "blockTensor/btensor.h"
#include "torch_formatter.h"
#include <cstdio>
using namespace quantit;
static int fails = 0;
#define EXPECT(...) do { if (!(__VA_ARGS__)) { ++fails; std::printf("line %d: not so: %s\\n", __LINE__, #__VA_ARGS__); } } while (0)
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ap = argparse.ArgumentParser(); ap.add_argument('spec'); ap.add_argument('--slot', default='0')
ap.add_argument('--checks'); ap.add_argument('--no-checks', action='store_true'); ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--seed', default='1')
a = ap.parse_args()
S = {}; exec(open(a.spec).read(), S)
R = f'/tmp/seed/r{a.slot}'
head = sh('git -C /repo rev-parse HEAD').stdout.strip()
def mk():
    if not os.path.isdir(R):
        sh(f'mkdir -p /tmp/seed && cp -a /repo {R} && rm -rf {R}/_build')
    sh(f'git -C {R} fetch -q /repo HEAD; git -C {R} checkout -qf {head}; git -C {R} checkout -q -- .')
    os.makedirs(f'/tmp/seed/vp{a.slot}', exist_ok=True)
    for f in ('env.sh', 'build.sh', 'test.sh', 'results.py'):
        t = re.sub(r'/repo\b', R, open('/opt/vp/' + f).read())
        if f != 'env.sh': t = t.replace('/opt/vp/env.sh', f'/tmp/seed/vp{a.slot}/env.sh')
        open(f'/tmp/seed/vp{a.slot}/{f}', 'w').write(t)
def build():
    r = sh(f'bash /tmp/seed/vp{a.slot}/build.sh')
    if r.returncode: print(r.stdout[-3000:]); print('BUILD FAILED'); sys.exit(3)
def demo(what, cwd=None):
    d = f'/tmp/seed/demo{a.slot}'; os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write(S.get('head', DEMO_HEAD) + S['demo'].lstrip('\n')); open(d + '/demo.sh', 'w').write(DEMO_SH)
    r = sh(f'bash {d}/demo.sh', cwd=cwd or R); print(f'demo {what}: exit {r.returncode}\n' + r.stdout[-1500:]); return r.returncode
mk()
for f, old, new in S['edits']:
    p = f'{R}/{f}'; t = open(p).read()
    if t.count(old) != 1: print('EDIT: matches', t.count(old), f, old[:80]); sys.exit(3)
    open(p, 'w').write(t.replace(old, new))
patch = subprocess.run(['git', '-C', R, 'diff', '-U3'], stdout=subprocess.PIPE).stdout
# removed lines must be original
rem = []
cur = None; ln = 0
for l in patch.decode().split('\n'):
    if l.startswith('--- a/'): cur = l[6:]
    elif l.startswith('@@'): ln = int(l.split()[1].split(',')[0][1:])
    elif l.startswith('-'): rem.append((cur, ln)); ln += 1
    elif l.startswith(' '): ln += 1
bad = 0
for f, n in rem:
    b = sh(f'git -C {R} blame -L {n},{n} -s {head} -- "{f}"').stdout
    if not b.lstrip('^').startswith(BASE): bad += 1; print('NOT ORIGINAL', b.strip())
print(f'{len(rem)} changed lines, {bad} not original')
if bad: sys.exit(3)
build()
if not a.no_tests:
    sh(f'bash /tmp/seed/vp{a.slot}/test.sh /tmp/seed/t{a.slot}.json')
    b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(f'/tmp/seed/t{a.slot}.json'))
    bp = set(b.get('passed') or b.get('stable') or b.get('tests') or [])
    miss = sorted(bp - {re.sub('^' + R, '/repo', x) for x in t['passed']}); print('suite: missing', miss)
    if miss: sh(f'git -C {R} checkout -q -- .'); print('CAUGHT BY SUITE'); sys.exit(4)
rc1 = demo('patched')
if rc1 == 0 or rc1 == 2: print('DEMO DOES NOT FAIL'); sys.exit(4)
ids = (a.checks.split(',') if a.checks else [S['property']])
caught = {}
if not a.no_checks:
    for c in ids:
        r = sh(f'VERIF_REPO={R} VERIF_SEED={a.seed} VERIF_TIER=quick timeout 900 python3 /verif/check.py {c}', cwd='/verif')
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        caught[c] = (r.returncode, v[:3]); print('CHECK', c, 'exit', r.returncode, v[:3])
        if not v: print(r.stdout[-600:])
sh(f'git -C {R} checkout -q -- .')
rc0 = demo('clean', '/repo')  # built by /opt/vp/build.sh
if rc0: print('DEMO FAILS ON CLEAN'); sys.exit(4)
o = f'/verif/seeded/{S["id"]}'; os.makedirs(o, exist_ok=True)
open(o + '/patch.diff', 'wb').write(patch)
shutil.copy(f'/tmp/seed/demo{a.slot}/demo.cpp', o); open(o + '/demo.sh', 'w').write(DEMO_SH); os.chmod(o + '/demo.sh', 0o755)
json.dump({'property': S['property'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(o + '/meta.json', 'w'), indent=1)
print('KEPT', S['id'], 'caught' if any(v[0] == 1 and v[1] for v in caught.values()) else 'NOT CAUGHT', caught)
