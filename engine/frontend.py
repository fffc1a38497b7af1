"""clang front end: parses /repo's translation units into resolved, typed ASTs.

System and third-party headers go into a precompiled header, so the JSON dump of
a translation unit holds the repository's own declarations only.  Headers that
the sandbox lacks (sphericart, Kokkos, LAMMPS) are replaced by declaration-only
stand-ins under /verif/stubs.
"""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(os.path.dirname(HERE), 'stubs')
CLANG = shutil.which('clang++-18') or shutil.which('clang++') or 'clang++'

LIB = 'libsymmetrix/source'
BIND = 'symmetrix/source/cpp'
PAIR = 'pair_symmetrix'


class AnalysisBroken(Exception):
    """the analyser cannot find or parse what it has to look at"""


class TU:
    def __init__(self, path, root):
        self.path = path
        self.root = root
        self.byid = {}
        self.parent = {}
        self.funcs = {}      # mangled -> definition node
        self.qual = {}       # id -> qualified name
        self.classes = {}    # name -> CXXRecordDecl definition


class Program:
    def __init__(self):
        self.tus = {}
        self.defs = {}        # mangled -> (tu, node)
        self.byqual = {}      # qualified name -> [(tu, node)]
        self.classes = {}     # name -> (tu,node)

    def find(self, qual, nparams=None, kind=None):
        c = self.byqual.get(qual, [])
        if nparams is not None:
            c = [x for x in c if len(params(x[1])) == nparams]
        return c


def params(fn):
    return [n for n in fn.get('inner', []) if n.get('kind') == 'ParmVarDecl']


def body(fn):
    for n in fn.get('inner', []):
        if n.get('kind') == 'CompoundStmt':
            return n
        if n.get('kind') == 'CXXTryStmt':
            return n['inner'][0]
    return None


def _fix_locations(root, default_file):
    """the dump omits file and line when they did not change: fill them in"""
    state = [default_file, 0]

    def loc(d):
        if not isinstance(d, dict):
            return
        if 'spellingLoc' in d or 'expansionLoc' in d:
            for k in ('spellingLoc', 'expansionLoc'):
                if k in d:
                    loc(d[k])
            e = d.get('expansionLoc') or d.get('spellingLoc')
            d['file'] = e.get('file')
            d['line'] = e.get('line')
            return
        if not d:
            return
        if 'file' in d:
            state[0] = d['file']
        else:
            d['file'] = state[0]
        if 'line' in d:
            state[1] = d['line']
        else:
            d['line'] = state[1]

    stack = [root]
    # document order, iterative
    def walk(n):
        for k, v in n.items():
            if k == 'loc':
                loc(v)
            elif k == 'range':
                loc(v.get('begin'))
                loc(v.get('end'))
            elif k == 'inner':
                for c in v:
                    if isinstance(c, dict):
                        walk(c)
            elif isinstance(v, dict) and k in ('referencedDecl', 'foundReferencedDecl', 'decl', 'ownedTagDecl'):
                pass
    walk(root)


def _index(tu, stop=None):
    def walk(n, parent, qual):
        i = n.get('id')
        if i:
            tu.byid.setdefault(i, n)
            tu.parent[i] = parent
        k = n.get('kind')
        q = qual
        if k in ('NamespaceDecl',):
            q = qual + [n['name']] if n.get('name') else qual
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if n.get('name'):
                q = qual + [n['name']]
                if n.get('completeDefinition'):
                    nm = '::'.join(q)
                    if k == 'ClassTemplateSpecializationDecl':
                        targs = [c.get('type', {}).get('qualType') for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument']
                        nm += '<' + ','.join(str(t) for t in targs) + '>'
                        q = qual + [n['name'] + '<' + ','.join(str(t) for t in targs) + '>']
                    tu.classes.setdefault(nm, n)
                    tu.qual[i] = nm
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            pc = n.get('parentDeclContextId')
            base = q
            if pc:
                cq = tu.qual.get(pc)
                if cq:
                    base = cq.split('::') if not cq.endswith('>') else [cq]
            tu.qual[i] = '::'.join(base + [n.get('name', '')])
            if body(n) is not None:
                tu.funcs.setdefault(n.get('mangledName') or i, n)
            q = base + [n.get('name', '')]
        elif i and n.get('name') and k not in ('ParmVarDecl', 'VarDecl'):
            tu.qual.setdefault(i, '::'.join(q + [n['name']]) if k != 'NamespaceDecl' and k not in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') else '::'.join(q))
        for c in n.get('inner', []) or []:
            if isinstance(c, dict):
                walk(c, n, q)
    walk(tu.root, None, [])


PRE = '''
#include <bits/stdc++.h>
'''
PRE_JSON = '#include <nlohmann/json.hpp>\n'
PRE_PYBIND = '#include <pybind11/pybind11.h>\n#include <pybind11/complex.h>\n#include <pybind11/numpy.h>\n#include <pybind11/stl.h>\n'


class Frontend:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.tmp = tempfile.mkdtemp(prefix='vp_fe_')
        self.pch = {}
        self.shim = self._shim()

    def _shim(self):
        # cblas.hpp includes "../external/cblas-prototypes/cblas.h" (a submodule that is absent here)
        d = os.path.join(self.tmp, 'shim')
        os.makedirs(os.path.join(d, 'source'))
        os.makedirs(os.path.join(d, 'external', 'cblas-prototypes'))
        with open(os.path.join(d, 'external', 'cblas-prototypes', 'cblas.h'), 'w') as f:
            f.write('#pragma once\n#include <cblas.h>\n')
        return os.path.join(d, 'source')

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def flags(self, kind):
        fl = ['-std=c++20', '-w', '-fsyntax-only', '-ferror-limit=20']
        inc = [self.shim, os.path.join(self.repo, LIB)]
        if kind == 'pybind':
            import sysconfig
            inc.append(sysconfig.get_paths()['include'])
            inc.append('/usr/include/python3.12')
            try:
                import pybind11
                inc.append(pybind11.get_include())
            except ImportError:
                pass
        if kind in ('kokkos', 'pair_kokkos'):
            inc.append(os.path.join(STUBS, 'kokkos'))
        if kind in ('pair', 'pair_kokkos'):
            inc.append(os.path.join(self.repo, PAIR))
            inc.append(os.path.join(STUBS, 'lammps'))
        inc.append(STUBS)
        return fl + ['-I' + i for i in inc]

    def _make_pch(self, kind):
        if kind in self.pch:
            return self.pch[kind]
        src = PRE + PRE_JSON
        if kind == 'pybind':
            src += PRE_PYBIND
        if kind == 'kokkos':
            src += '#include <Kokkos_Core.hpp>\n'
        h = os.path.join(self.tmp, 'pre_%s.hpp' % kind)
        with open(h, 'w') as f:
            f.write(src)
        out = h + '.pch'
        fl = [x for x in self.flags(kind) if x != '-fsyntax-only']
        r = subprocess.run([CLANG] + fl + ['-x', 'c++-header', h, '-o', out], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('cannot precompile system headers: ' + r.stderr[:2000])
        self.pch[kind] = out
        return out

    def _kind(self, rel):
        b = os.path.basename(rel)
        if rel.startswith(BIND):
            return 'pybind'
        if rel.startswith(PAIR):
            return 'pair_kokkos' if 'kokkos' in b else 'pair'
        if 'kokkos' in b:
            return 'kokkos'
        return 'plain'

    def parse(self, rel):
        kind = self._kind(rel)
        pch = self._make_pch(kind if kind in ('pybind', 'kokkos') else 'plain')
        path = os.path.join(self.repo, rel)
        if not os.path.exists(path):
            raise AnalysisBroken('source file %s is gone' % rel)
        fl = self.flags(kind)
        cmd = [CLANG, '-include-pch', pch] + fl + ['-Xclang', '-ast-dump=json', path]
        r = subprocess.run(cmd, capture_output=True)
        if r.returncode:
            raise AnalysisBroken('%s does not parse: %s' % (rel, r.stderr.decode()[:1500]))
        root = json.loads(r.stdout)
        _fix_locations(root, path)
        tu = TU(rel, root)
        _index(tu)
        return tu

    def program(self, rels):
        kinds = set(k if k in ('pybind', 'kokkos') else 'plain' for k in map(self._kind, rels))
        for k in kinds:
            self._make_pch(k)
        p = Program()
        p.kind = 'kokkos' if 'kokkos' in kinds else 'plain'
        with ThreadPoolExecutor(8) as ex:
            for rel, tu in zip(rels, ex.map(self.parse, rels)):
                p.tus[rel] = tu
                for m, n in tu.funcs.items():
                    if m in p.defs:
                        continue
                    p.defs[m] = (tu, n)
                    p.byqual.setdefault(tu.qual.get(n['id'], n.get('name', '')), []).append((tu, n))
                for c, n in tu.classes.items():
                    p.classes.setdefault(c, (tu, n))
        return p


def where(node, repo=None, col=False):
    """file:line of a node, relative to the repository"""
    for k in ('loc', 'range'):
        d = node.get(k)
        if not d:
            continue
        if k == 'range':
            d = d.get('begin', {})
        f, l = d.get('file'), d.get('line')
        if f and l:
            f = os.path.relpath(f, repo or REPO) if os.path.isabs(f) else f
            return '%s:%s:%s' % (f, l, d.get('col')) if col else '%s:%s' % (f, l)
    return '?'
