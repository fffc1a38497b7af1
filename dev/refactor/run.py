#!/usr/bin/env python3
"""Behaviour-preserving edits: every check must stay quiet on each of them.
usage: run.py [name-substring ...]   (scratch copies under /tmp)"""
import concurrent.futures as cf
import os, shutil, subprocess, sys, tempfile, importlib
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
ROOT = os.path.dirname(os.path.dirname(here))


def one(v):
    name, edits, checks = v
    d = tempfile.mkdtemp(prefix='rf_', dir='/tmp')
    out = []
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % d, shell=True, check=True)
        cpp = set()
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old is None:
                s = new
            else:
                if old not in s:
                    return name, ['EDIT-FAILED %s: %r' % (f, old[:60])]
                s = s.replace(old, new)
            open(p, 'w').write(s)
            if f.endswith('.cpp'):
                cpp.add(p)
        for p in cpp:
            r = subprocess.run(['g++', '-std=c++20', '-fsyntax-only', '-I/opt/vp/cmake/shim/source', '-I' + ROOT + '/stubs', '-I' + ROOT + '/stubs/kokkos', '-I' + ROOT + '/stubs/lammps', '-I' + d + '/libsymmetrix/source', p], capture_output=True, text=True)
            if r.returncode:
                return name, ['COMPILE ' + r.stderr[:600]]
        for c in checks:
            if os.environ.get('RF_SKIP') and c in os.environ['RF_SKIP']:
                continue
            ev = os.path.join(d, 'ev')
            r = subprocess.run(['python3', 'checks/run.py', c], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev), capture_output=True, text=True)
            head = r.stdout.split('\n')[0]
            und = [l[:200] for l in r.stdout.split('\n') if l.startswith('UNDECIDED')]
            bad = [l[:300] for l in r.stdout.split('\n') if l.startswith('  ') or l.startswith('VIOL')]
            out.append('%s rc=%d %s' % (c, r.returncode, head))
            if r.returncode not in (0,):
                out += ['   !! ' + b for b in bad[:6]] + [r.stderr[-300:]]
            if und:
                out.append('   %d undecided, e.g. %s' % (len(und), und[0]))
    finally:
        shutil.rmtree(d)
    return name, out


if __name__ == '__main__':
    vs = []
    for m in ('v_num', 'v_mace', 'v_pair', 'v_kokkos', 'v_py'):
        if os.path.exists(os.path.join(here, m + '.py')):
            vs += importlib.import_module(m).VARIANTS
    if len(sys.argv) > 1:
        vs = [v for v in vs if any(a in v[0] for a in sys.argv[1:])]
    with cf.ThreadPoolExecutor(int(os.environ.get('RF_JOBS', '5'))) as ex:
        for n, o in ex.map(one, vs):
            print('==', n)
            for l in o:
                print('  ', l)
            sys.stdout.flush()
