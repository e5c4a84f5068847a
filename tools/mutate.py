#!/usr/bin/env python3
"""Mutation campaign: systematic small changes of the library sources, to find what the checks miss.

  mutate.py FILE(relative to sources/ or include/) -n COUNT [-s SEED] [-j SLOTS] [--funcs regex] [--lines a-b]

Nothing in /repo is touched: a mutated source is compiled from /tmp/mut, linked with the objects of the unmodified
sources, and the checks concerned are run, most relevant first, until one reports a violation.  Survivors are listed
in /tmp/mut/survivors.txt for a person to look at (many are equivalent to the original).
"""
import sys, os, re, json, random, subprocess, argparse, threading, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
from checks import CHECKS
REL = {
 'btensor.cpp': 'C04 C05 C06 C08 C09 C10 C12 C13 C11 C26 C15',
 'btensor_linalg.cpp': 'C15 C16 C24',
 'LinearAlgebra.cpp': 'C14 C16 C23',
 'MPT.cpp': 'C17 C19 C20 C18 C24',
 'dmrg.cpp': 'C25 C23 C24',
 'models.cpp': 'C22', 'operators.cpp': 'C21 C22', 'tensorgdot.cpp': 'C07 C06',
 'any_quantity.cpp': 'C02 C01', 'groups.cpp': 'C01', 'torch_formatter.cpp': 'C26', 'dimension_manip.cpp': 'C08 C14 C15 C16',
 'blockTensor/flat_map.h': 'C03', 'Conserved/quantity.h': 'C01', 'Conserved/Composite/cquantity.h': 'C01 C02',
 'Conserved/Composite/quantity_impl.h': 'C01 C02', 'blockTensor/any_quantity.h': 'C02 C01',
 'torch_formatter.h': 'C26', 'tensorgdot.h': 'C07', 
}
ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('-n', type=int, default=20); ap.add_argument('-s', type=int, default=1)
ap.add_argument('-j', type=int, default=2); ap.add_argument('--lines'); ap.add_argument('--checks'); ap.add_argument('--time', default='25')
ap.add_argument('--jobs', default='4')
a = ap.parse_args()
REPO = check.REPO
hdr = not a.file.endswith('.cpp')
path = os.path.join(REPO, 'include' if hdr else 'sources', a.file)
ids = (a.checks or REL[a.file]).replace(',', ' ').split()
L = open(path).read().split('\n')

def strip(l):
    l = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + ' ' * (len(m.group(0)) - 2) + '"', l)
    return re.sub(r'//.*', lambda m: ' ' * len(m.group(0)), l)

cands = []
incomment = False; depth_test = None; depth = 0
lo, hi = (map(int, a.lines.split('-')) if a.lines else (1, len(L)))
for n, raw in enumerate(L, 1):
    l = strip(raw)
    if incomment:
        if '*/' in l: incomment = False
        continue
    if '/*' in l:
        if '*/' not in l: incomment = True
        continue
    if re.match(r'\s*(qtt_)?(TEST_CASE|SUBCASE)', l) and depth_test is None and 'TEST_CASE' in l: depth_test = depth
    if depth_test is not None:
        depth += l.count('{') - l.count('}')
        if depth == depth_test and '}' in l: depth_test = None
        continue
    depth += l.count('{') - l.count('}')
    if not (lo <= n <= hi): continue
    if re.match(r'\s*(#|template|using|namespace|static_assert|fmt::print|friend|typedef|class|struct|public|private|throw)', l) or not l.strip(): continue
    if 'fmt::print' in l or 'template' in l or 'TORCH_CHECK' in l: continue
    if not l[:1].isspace(): continue
    def add(s, e, r, kind): cands.append((n, s, e, r, kind))
    for m in re.finditer(r'(?<=\s)(<=|>=|<|>|==|!=)(?=\s)', l):
        for r in {'<': ['<=', '>='], '>': ['>=', '<='], '<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['==']}[m.group(1)]: add(*m.span(1), r, 'rel')
    for m in re.finditer(r'(?<=[\w\)\]] )([+\-*/])(?= [\w\(])', l): add(*m.span(1), {'+': '-', '-': '+', '*': '+', '/': '*'}[m.group(1)], 'arith')
    for m in re.finditer(r'(?<=\s)(\+=|-=|\*=|&=|\|=)(?=\s)', l): add(*m.span(1), {'+=': '-=', '-=': '+=', '*=': '=', '&=': '=', '|=': '='}[m.group(1)], 'assign')
    for m in re.finditer(r'\b(and|or)\b|(&&|\|\|)(?= [\w!(])', l):
        g = m.group(0); add(*m.span(), {'and': 'or', 'or': 'and', '&&': '||', '||': '&&'}[g], 'logic')
    for m in re.finditer(r'\bnot |(?<=[(\s])!(?=[\w(])', l): add(*m.span(), '', 'not')
    for m in re.finditer(r'\b(true|false)\b', l): add(*m.span(), 'false' if m.group(0) == 'true' else 'true', 'bool')
    for m in re.finditer(r'(?<![\w.<])([0-4])(?![\w.>:])', l):
        v = int(m.group(1)); add(*m.span(1), str(v + 1), 'const')
        if v: add(*m.span(1), str(v - 1), 'const')
    for m in re.finditer(r'(\+\+|--)(?=\w|\()|(?<=\w)(\+\+|--)', l):
        if not re.match(r'\s*(\+\+|--)?\w+(\+\+|--)?;', l): add(*m.span(), '', 'incr')
    m = re.match(r'(\s*)((\+\+|--|\*)?[\w.\->:\[\]()*]+\s*([+\-*&|]?=[^=]|\(|\+\+|--|;).*;)\s*$', l)
    if m and not re.match(r'\s*(return|auto|const|int|size_t|bool|double|else|break|case|delete)\b', l) and l.count('(') == l.count(')'):
        add(m.start(2), m.end(2), ';', 'del')
    m = re.match(r'\s*(?:\} )?(?:else )?(if|while) \((.*)\)\s*\{?$', l)
    if m and 'constexpr' not in l:
        if m.group(1) == 'if': add(*m.span(2), 'true', 'if1')
        add(*m.span(2), 'false', 'if0')
    for m in re.finditer(r'\b(begin|end|front|back|min|max|lower_bound|upper_bound|conj|first|last)\b(?=\()', l):
        r = {'begin': 'end', 'end': 'begin', 'front': 'back', 'back': 'front', 'min': 'max', 'max': 'min', 'lower_bound': 'upper_bound', 'upper_bound': 'lower_bound', 'conj': 'clone'}.get(m.group(1))
        if r and r not in ('end', 'begin'): add(*m.span(1), r, 'name')
    for m in re.finditer(r'\{([\w\-]+), ([\w\-]+)\}', l):
        if m.group(1) != m.group(2): add(*m.span(), '{%s, %s}' % (m.group(2), m.group(1)), 'swap')
os.makedirs('/tmp/mut', exist_ok=True)
done = set()
DB = '/tmp/mut/done.txt'
if os.path.exists(DB): done = set(l.split('\t')[0] for l in open(DB))
def key(c): return hashlib.sha1((a.file + L[c[0] - 1] + str(c[0:4])).encode()).hexdigest()[:12]
random.Random(a.s).shuffle(cands)
cands = [c for c in cands if key(c) not in done]
print(len(cands), 'candidates'); cands = cands[:a.n]

# base objects
objs = {}
check.build(ids)
fl = check.flags(False); rh = check.tree_hash(os.path.join(REPO, 'include')); hh = check.tree_hash(check.H)
def okey(src, *extra): return os.path.join(check.B, check.sha(os.path.basename(src), open(src, 'rb').read(), ' '.join(fl), *extra) + '.o')
plain = ['-O1', '-std=gnu++17', '-D_GLIBCXX_USE_CXX11_ABI=0', '-fPIC', '-w', '-I' + check.H]
mainsrc = os.path.join(check.H, 'pbt_main.cpp')
mainobj = os.path.join(check.B, check.sha(open(mainsrc, 'rb').read(), hh, ' '.join(plain)) + '.o')
lock = threading.Lock()
def log(f, s):
    with lock: open(f, 'a').write(s + '\n')
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def run(slot, c):
    n, s, e, r, kind = c
    d = '/tmp/mut/s%d_%d' % (os.getpid(), slot); os.makedirs(d, exist_ok=True)
    ml = L[:]; ml[n - 1] = L[n - 1][:s] + r + L[n - 1][e:]
    desc = '%s:%d [%s] %s  ==>  %s' % (a.file, n, kind, L[n - 1].strip(), ml[n - 1].strip())
    if hdr:
        if not os.path.isdir(d + '/include'): sh(['cp', '-a', REPO + '/include', d + '/include'])
        open(os.path.join(d, 'include', a.file), 'w').write('\n'.join(ml))
        mfl = [f.replace(REPO + '/include', d + '/include') for f in fl]
    else:
        open(d + '/' + a.file, 'w').write('\n'.join(ml))
        m = sh(['nice', 'g++', *fl, '-I' + REPO + '/sources', '-c', d + '/' + a.file, '-o', d + '/m.o'])
        if m.returncode: log(DB, key(c) + '\tNOCOMPILE\t' + desc); return
    verdict = 'SURVIVED'; times = []
    for i in ids:
        libs = CHECKS[i].get('libs')
        if libs is None: libs = check.lib_sources()
        srcs = [os.path.join(check.H, x) for x in CHECKS[i]['src']]
        o = [mainobj]
        bad = False
        for x in srcs + [os.path.join(REPO, 'sources', l + '.cpp') for l in libs]:
            if hdr:
                out = d + '/' + os.path.basename(x) + '.o'
                m = sh(['nice', 'g++', *mfl, '-c', x, '-o', out])
                if m.returncode: bad = True; break
                o.append(out)
            elif os.path.basename(x) == a.file: o.append(d + '/m.o')
            elif x in srcs: o.append(okey(x, rh, hh))
            else: o.append(okey(x, rh))
        if bad: verdict = 'NOCOMPILE'; break
        m = sh(['g++', '-o', d + '/t', *o, '-L' + check.TORCH + '/lib', '-Wl,-rpath,' + check.TORCH + '/lib', '-Wl,--no-as-needed',
                '-ltorch', '-ltorch_cpu', '-lc10', '-lpthread', '-Wl,--allow-shlib-undefined'])
        if m.returncode: verdict = 'NOLINK'; print(m.stdout[-500:]); break
        t0 = time.time()
        try: m = sh(['nice', d + '/t', '--prop', i, '--tier', 'quick', '--seed', '1', '--replay-dir', d, '--jobs', a.jobs, '--shrink', '0', '--hang', '20', '--time', a.time], env=check.env(False), timeout=400); rc = m.returncode
        except subprocess.TimeoutExpired: rc = 'timeout'
        times.append('%s:%.0fs' % (i, time.time() - t0))
        if rc == 1: verdict = 'KILLED ' + i; break
        if rc != 0: verdict = 'RC %s %s' % (rc, i); break
    log(DB, key(c) + '\t' + verdict + '\t' + desc)
    if not verdict.startswith('KILLED') and verdict != 'NOCOMPILE': log('/tmp/mut/survivors.txt', verdict + '\t' + desc)
    print(verdict, ' '.join(times), desc, flush=True)
def worker(slot):
    while True:
        with lock:
            if not cands: return
            c = cands.pop()
        try: run(slot, c)
        except Exception as ex: print('error', ex, flush=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
