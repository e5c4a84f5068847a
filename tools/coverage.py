#!/usr/bin/env python3
"""Which lines of /repo's library do the checks execute?  (development only)
usage: coverage.py [--jobs N] [--time S] [IDs]     builds in /tmp/cov, prints the lines never executed to /tmp/cov/uncovered.txt"""
import sys, os, json, subprocess, argparse, glob, gzip, collections, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('--jobs', type=int, default=4)
ap.add_argument('--time', default='40')
a = ap.parse_args()
ids = a.ids or sorted(check.CHECKS)
C = '/tmp/cov'
os.makedirs(C, exist_ok=True)
fl = [f for f in check.flags(False) if not f.startswith('-O')] + ['-O0', '--coverage', '-fprofile-update=atomic', '-fprofile-filter-files=%s/(sources|include)/.*' % check.REPO]
def comp(src):
    o = '%s/%s.o' % (C, os.path.basename(src)[:-4])
    if not os.path.exists(o):
        r = subprocess.run(['g++', *(f for f in fl), '-c', src, '-o', o], capture_output=True, text=True)
        if r.returncode: print(src, r.stderr[-2000:])
    return o
libs = [check.REPO + '/sources/' + l + '.cpp' for l in check.lib_sources()]
main = C + '/pbt_main.o'
subprocess.run(['g++', '-O1', '-std=gnu++17', '-D_GLIBCXX_USE_CXX11_ABI=0', '-w', '-I' + check.H, '-c', check.H + '/pbt_main.cpp', '-o', main], check=True)
drv = {i: [check.H + '/' + d for d in check.CHECKS[i]['src']] for i in ids}
with cf.ThreadPoolExecutor(a.jobs) as ex:
    list(ex.map(comp, libs + sorted({d for i in ids for d in drv[i]})))
lo = [comp(l) for l in libs]
T = check.TORCH
for f in glob.glob(C + '/*.gcda'): os.unlink(f)
for i in ids:
    b = C + '/' + i
    subprocess.run(['g++', '--coverage', '-Wl,-u,__gcov_dump', '-o', b, main, *[comp(d) for d in drv[i]], *lo, '-L' + T + '/lib', '-Wl,-rpath,' + T + '/lib', '-Wl,--no-as-needed',
                    '-ltorch', '-ltorch_cpu', '-lc10', '-lpthread', '-Wl,--allow-shlib-undefined'], check=True)
    r = subprocess.run([b, '--prop', i, '--tier', 'quick', '--seed', '5', '--out', C + '/e.json', '--replay-dir', C, '--jobs', str(a.jobs), '--time', a.time], env=check.env(False), capture_output=True, text=True)
    print(i, r.returncode, r.stdout.strip().splitlines()[-1:], flush=True)
    os.unlink(b)
lines = collections.defaultdict(lambda: collections.defaultdict(int))
for g in sorted(glob.glob(C + '/*.gcno')):
    r = subprocess.run(['gcov', '--json-format', '--stdout', g], capture_output=True, cwd=C)
    for l in r.stdout.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        for f in j['files']:
            n = os.path.normpath(f['file'])
            if not n.startswith(check.REPO + '/'): continue
            for x in f['lines']: lines[n][x['line_number']] += x['count']
with open(C + '/uncovered.txt', 'w') as out:
    for n in sorted(lines):
        L = lines[n]
        miss = sorted(k for k in L if not L[k])
        print('%s: %d of %d lines executed' % (n, len(L) - len(miss), len(L)))
        src = open(n).read().splitlines()
        out.write('==== %s: %d of %d\n' % (n, len(L) - len(miss), len(L)))
        for k in miss: out.write('%5d %s\n' % (k, src[k - 1] if k <= len(src) else ''))
