#!/usr/bin/env python3
"""mutate.py FILE(relative to /repo) CHECK[,CHECK..] [--max N] [--seed S] [--lines a-b]
Developer tool: token-level mutants in scratch copies, lists those no check reports."""
import hashlib, os, random, re, shutil, subprocess, sys, tempfile
import time
from concurrent.futures import ThreadPoolExecutor, as_completed
A = sys.argv
FILE, CHECKS = A[1], A[2].split(',')
opt = lambda k, d: A[A.index(k) + 1] if k in A else d
MAX, SEED, LINES = int(opt('--max', '80')), int(opt('--seed', '1')), opt('--lines', '')
J = int(opt('--jobs', '7'))
R = '/repo'
OPS = [(r'\+=', ['-=', '=']), (r'-=', ['+=', '=']), (r'\*=', ['=', '+=']), (r'/=', ['*=']), (r'<=', ['<', '==']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r'\+\+', []), (r'--', []), (r'->', []), (r'::', []), (r'<<', []), (r'>>', []),
       (r'\+', ['-']), (r'-', ['+']), (r'\*', ['+', '/']), (r'/', ['*']), (r'<', ['<=']), (r'>', ['>=']),
       (r'CblasNoTrans', ['CblasTrans']), (r'CblasTrans', ['CblasNoTrans']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\d+\.\d*|\.\d+', ['FLT']), (r'\b\d+\b', ['INT']), (r'[A-Za-z_]\w*', ['ID'])]
TOK = re.compile('|'.join('(%s)' % o for o, _ in OPS))
KW = set('for int double auto if else const return std vector void while bool size_t template typename this new break continue throw nullptr float static inline using namespace unsigned long span resize size push_back begin end data at'.split())


def mutants(src, rng):
    lines = src.split('\n')
    lo, hi = (int(x) for x in LINES.split('-')) if LINES else (1, len(lines))
    out = []
    ids_of = {}
    for n in range(lo - 1, min(hi, len(lines))):
        ln = lines[n]
        s = ln.strip()
        if not s or s.startswith(('#', '//', 'using', '*', '/*')):
            continue
        if s.endswith(';') and not s.startswith(('return', 'const ', 'auto', 'double ', 'int ', 'std::vector', 'throw', '}', 'break', 'for')) and s.count('(') == s.count(')'):
            out.append((n, ln, re.match(r'\s*', ln).group() + ';', 'delete'))
        code = re.sub(r'"[^"]*"', lambda m: ' ' * len(m.group()), ln.split('//')[0])
        # nearby identifiers
        near = set()
        for q in range(max(0, n - 12), min(len(lines), n + 6)):
            near |= set(re.findall(r'[A-Za-z_]\w*', re.sub(r'"[^"]*"', '', lines[q].split('//')[0])))
        for m in TOK.finditer(code):
            k = m.lastindex - 1
            tok = m.group()
            reps = OPS[k][1]
            rr = []
            for r in reps:
                if r == 'INT':
                    rr += [str(int(tok) + 1)] + ([str(int(tok) - 1)] if int(tok) > 0 else [])
                elif r == 'FLT':
                    rr += [str(float(tok) + 1)]
                elif r == 'ID':
                    if tok in KW or len(tok) > 20:
                        continue
                    cand = [x for x in near if x != tok and x not in KW and not x.startswith('cblas') and (abs(len(x) - len(tok)) <= 2) and x[0].islower() == tok[0].islower()]
                    if cand and rng.random() < .35:
                        rr.append(rng.choice(sorted(cand)))
                else:
                    rr.append(r)
            for r in rr:
                out.append((n, ln, ln[:m.start()] + r + ln[m.end():], '%s->%s' % (tok, r)))
    return lines, out


def objhash(w):
    inc = ['-I' + R + '/libsymmetrix/source', '-I/verif/stubs', '-I/opt/vp/cmake/shim/source', '-I/verif/stubs/lammps', '-I/verif/stubs/kokkos']
    if FILE.endswith('.py'):
        r = subprocess.run(['python3', '-c', 'import ast,sys;print(ast.dump(ast.parse(open(sys.argv[1]).read())))', w], capture_output=True, text=True)
        return r.stdout if r.returncode == 0 else None
    src = w if w.endswith('.cpp') else None
    if src is None:
        return 'hdr'
    r = subprocess.run(['clang++-18' if shutil.which('clang++-18') else 'clang++', '-std=c++20', '-O1', '-w', '-S', '-emit-llvm', '-g0', '-o', '-', src] + ['-I' + os.path.dirname(w)] + inc, capture_output=True, text=True)
    if r.returncode:
        return None
    return hashlib.md5('\n'.join(l for l in r.stdout.split('\n') if not l.startswith(('source_filename', '; ModuleID'))).encode()).hexdigest()


def run(t):
    i, lines, (n, old, new, desc) = t
    w = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % w, shell=True, check=True)
        f = os.path.join(w, FILE)
        L = list(lines)
        L[n] = new
        open(f, 'w').write('\n'.join(L))
        h = objhash(f)
        if h is None:
            return ('nocompile', n, old, new, desc, '')
        if h == BASE and h != 'hdr':
            return ('equivalent', n, old, new, desc, '')
        res = []
        t0 = time.time()
        for c in CHECKS:
            r = subprocess.run(['python3', os.environ.get('VF', '/verif') + '/checks/run.py', c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w))
            und = r.stdout.count('UNDECIDED')
            res.append('%s=%d%s %ds' % (c, r.returncode, '(und %d)' % und if und else '', time.time() - t0))
            if r.returncode == 1:
                return ('caught', n, old, new, desc, ' '.join(res))
        return ('SURVIVED', n, old, new, desc, ' '.join(res))
    finally:
        shutil.rmtree(w, ignore_errors=True)


src = open(os.path.join(R, FILE)).read()
rng = random.Random(SEED)
lines, M = mutants(src, rng)
rng.shuffle(M)
w0 = tempfile.mkdtemp(prefix='mut', dir='/tmp')
subprocess.run('git -C /repo archive HEAD | tar x -C %s' % w0, shell=True, check=True)
BASE = objhash(os.path.join(w0, FILE))
shutil.rmtree(w0)
cnt = {}
with ThreadPoolExecutor(J) as ex:
    for fu in as_completed([ex.submit(run, (i, lines, m)) for i, m in enumerate(M[:MAX])]):
        r = fu.result()
        cnt[r[0]] = cnt.get(r[0], 0) + 1
        slow = r[0] == 'caught' and int(r[5].split()[-1][:-1]) > 120
        if slow:
            r = ('slow',) + r[1:]
        if r[0] in ('SURVIVED', 'slow'):
            print('%s line %d %s | %s | %s\n    %s\n    %s' % (r[0], r[1] + 1, FILE, r[4], r[5], r[2].strip(), r[3].strip()), flush=True)
print(FILE, 'of', len(M), cnt)
