#!/usr/bin/env python3
"""Build and run the property checks of /verif against /repo's working tree.

usage: check.py build                     compile everything (setup)
       check.py <ID> [--tier quick|thorough] [--replay FILE] [--seed N] [--cases N] [--facet F] [--asan]
"""
import sys, os, re, json, hashlib, subprocess, time, concurrent.futures as cf, argparse, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TORCH = '/opt/vp/torch-site/torch'
B = os.path.join(V, 'build')
H = os.path.join(V, 'harness')
sys.path.insert(0, V)
from checks import CHECKS

def flags(asan):
    f = ['-DFMT_HEADER_ONLY=1', '-DDOCTEST_CONFIG_DISABLE', '-DFMT_DEPRECATED_OSTREAM', '-D_GLIBCXX_USE_CXX11_ABI=0',
         '-O1', '-std=gnu++17', '-fPIC', '-w', '-D_GLIBCXX_ASSERTIONS',
         '-I' + REPO + '/extern/boost', '-I' + REPO + '/extern/doctest', '-I' + REPO + '/include', '-I' + H,
         '-isystem', TORCH + '/include', '-isystem', TORCH + '/include/torch/csrc/api/include']
    if asan:
        f += ['-fsanitize=address', '-fno-omit-frame-pointer', '-g1']
    return f

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]

def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.tpp', '.ipp', '.inl')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, r).encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()

def lib_sources():
    # the files the project itself compiles into its library
    d = os.path.join(REPO, 'sources')
    listed = set(re.findall(r'[\w/.-]+\.cpp', re.sub(r'#.*', '', open(os.path.join(d, 'CMakeLists.txt')).read())))
    return sorted(f[:-4] for f in os.listdir(d) if f in listed)

def compile_one(src, fl, key):
    out = os.path.join(B, key + '.o')
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++', *fl, '-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('compilation of %s failed\n%s' % (src, r.stdout[-6000:]))
    os.rename(tmp, out)
    return out

def build(ids, asan=False):
    """returns {id: binary}"""
    os.makedirs(B, exist_ok=True)
    fl = flags(asan)
    rh = tree_hash(os.path.join(REPO, 'include'))
    hh = tree_hash(H)
    have = set(lib_sources())
    jobs, order = {}, []
    def add(src, *extra):
        key = sha(os.path.basename(src), open(src, 'rb').read(), ' '.join(fl), *extra)
        if src not in jobs:
            jobs[src] = key
            order.append(src)
    plain = ['-O1', '-std=gnu++17', '-D_GLIBCXX_USE_CXX11_ABI=0', '-fPIC', '-w', '-I' + H] + (['-fsanitize=address'] if asan else [])
    need = {}
    for i in ids:
        ck = CHECKS[i]
        libs = ck.get('libs')
        if libs is None or not set(libs) <= have:
            libs = sorted(have)          # sources were moved about: take all of them
        need[i] = []
        for d in ck['src']:
            s = os.path.join(H, d)
            add(s, rh, hh)
            need[i].append(s)
        for l in sorted(libs, key=lambda l: l != 'btensor'):
            s = os.path.join(REPO, 'sources', l + '.cpp')
            add(s, rh)
            need[i].append(s)
    order.sort(key=lambda s: (not s.endswith('/btensor.cpp'), not s.startswith(H)))
    objs = {}
    with cf.ThreadPoolExecutor(8) as ex:
        m = os.path.join(H, 'pbt_main.cpp')
        fm = ex.submit(compile_one, m, plain, sha(open(m, 'rb').read(), hh, ' '.join(plain)))
        fs = {s: ex.submit(compile_one, s, fl, jobs[s]) for s in order}
        for s, f in fs.items():
            objs[s] = f.result()
        main = fm.result()
    out = {}
    for i in ids:
        o = [main] + [objs[s] for s in need[i]]
        b = os.path.join(B, i + ('.asan' if asan else '') + '-' + sha(*[os.path.basename(x) for x in o]))
        if not os.path.exists(b):
            for f in os.listdir(B):   # only the newest binary of a property is kept
                if f.startswith(i + ('.asan' if asan else '') + '-'):
                    os.unlink(os.path.join(B, f))
            r = subprocess.run(['g++', '-o', b + '.tmp', *o, *(['-fsanitize=address'] if asan else []),
                                '-L' + TORCH + '/lib', '-Wl,-rpath,' + TORCH + '/lib', '-Wl,--no-as-needed',
                                '-ltorch', '-ltorch_cpu', '-lc10', '-lpthread', '-Wl,--allow-shlib-undefined'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                if CHECKS[i].get('libs') is not None and 'undefined reference' in r.stdout:
                    # the code was reorganized: link everything
                    print('note: linking all of the library for', i, re.findall(r'undefined reference.*', r.stdout)[:3], file=sys.stderr)
                    CHECKS[i] = dict(CHECKS[i], libs=None)
                    return build(ids, asan)
                raise RuntimeError('link of %s failed\n%s' % (i, r.stdout[-4000:]))
            os.rename(b + '.tmp', b)
        out[i] = b
    return out

def prune():
    fs = [os.path.join(B, f) for f in os.listdir(B)]
    fs.sort(key=os.path.getmtime, reverse=True)
    tot = 0
    for f in fs:
        tot += os.path.getsize(f)
        if tot > 4e9 and time.time() - os.path.getmtime(f) > 600:
            os.unlink(f)

def env(asan):
    e = dict(os.environ, OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    if asan:
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=0:detect_odr_violation=0:handle_abort=0'
    return e

def main():
    if len(sys.argv) > 1 and sys.argv[1] == 'build':
        t = time.time()
        build(sorted(CHECKS))
        print('built %d checks in %.0f s' % (len(CHECKS), time.time() - t))
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases')
    ap.add_argument('--facet')
    ap.add_argument('--time')
    ap.add_argument('--asan', action='store_true')
    a = ap.parse_args()
    pid = a.id
    t0 = time.time()
    try:
        binary = build([pid], a.asan)[pid]
    except RuntimeError as e:
        # The tree does not compile against its public interface: nothing can be said about the property.
        print('check %s could not be built: %s' % (pid, e), file=sys.stderr)
        return 2
    tb = time.time() - t0
    if a.replay:
        return subprocess.run([binary, '--prop', pid, '--replay', a.replay], env=env(a.asan)).returncode
    rd = os.path.join(V, 'replays')
    os.makedirs(rd, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    tmp = os.path.join(B, '%s.%d.json' % (pid, os.getpid()))
    cmd = [binary, '--prop', pid, '--tier', a.tier, '--seed', str(a.seed), '--out', tmp, '--replay-dir', rd,
           '--jobs', str(min(8, os.cpu_count() or 1))]
    for k in ('cases', 'facet', 'time'):
        if getattr(a, k): cmd += ['--' + k, getattr(a, k)]
    r = subprocess.run(cmd, env=env(a.asan), stdout=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout)
    runs = []
    if os.path.exists(tmp):
        runs.append(json.load(open(tmp)))
        os.unlink(tmp)
    rc = r.returncode
    # thorough: a second, address-sanitized exploration with another seed
    asan_note = None
    if a.tier == 'thorough' and not a.asan and rc == 0 and CHECKS[pid].get('asan', True):
        try:
            ab = build([pid], True)[pid]
            cmd2 = [ab, '--prop', pid, '--tier', 'quick', '--seed', str(a.seed + 1000003), '--out', tmp, '--replay-dir', rd,
                    '--jobs', str(min(8, os.cpu_count() or 1)), '--time', '150']
            r2 = subprocess.run(cmd2, env=env(True), stdout=subprocess.PIPE, text=True)
            sys.stdout.write('(address sanitizer)\n' + '\n'.join(l for l in r2.stdout.splitlines() if not l.startswith('KNOWN-FINDING')) + '\n')
            rc = r2.returncode
            if os.path.exists(tmp):
                runs.append(json.load(open(tmp)))
                os.unlink(tmp)
        except RuntimeError as e:
            print('sanitized build failed: %s' % e, file=sys.stderr)
            return 2
    if rc not in (0, 1) or not runs:
        print('driver of %s ended with %s' % (pid, rc), file=sys.stderr)
        return 2
    j = runs[0]
    cov = dict(evaluations=sum(x['evaluations'] for x in runs),
               distinct_nontrivial=sum(x['distinct_nontrivial'] for x in runs),
               rule=j['rule'], samples=j['samples'] or ['(none)'], discarded=sum(x['discarded'] for x in runs),
               scheduled=sum(x['scheduled'] for x in runs), facets=j['facets'], labels=j['labels'],
               unreproduced='; '.join(x['unreproduced'] for x in runs if x['unreproduced']),
               known_findings=j['known'], build_s=round(tb, 1), run_s=round(sum(x['run_s'] for x in runs), 1))
    if len(runs) > 1:
        cov['address_sanitizer_evaluations'] = runs[1]['evaluations']
    ev = dict(property=pid, tier='thorough' if a.tier == 'thorough' else 'quick', seed=a.seed, level='exploration',
              coverage=cov, assumptions=j['assumptions'], wall_s=round(time.time() - t0, 2),
              violations=sum(x['violations'] for x in runs))
    p = os.path.join(V, 'evidence', pid + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1)
    os.rename(p + '.tmp', p)
    if j['scheduled'] and j['evaluations'] < 0.2 * j['scheduled'] and rc == 0:
        print('note: only %d of %d scheduled cases were evaluated' % (j['evaluations'], j['scheduled']))
    prune()
    return rc

if __name__ == '__main__':
    sys.exit(main())
