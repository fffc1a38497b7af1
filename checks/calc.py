"""P13, P14: the ASE calculator, summarised from its Python source."""
import itertools
import os

import numpy as np
from common import AnalysisBroken, REPO
import terms as T
from terms import Poly, poly
from values import Unsupported
from pyval import PyInterp, PyRaise, Obj, Opaque, Model, NSpace, Exc, Fn, Cls, Lam, num, topoly, toobj
from peval import same

PKG = 'symmetrix/source/symmetrix/'
CALC = PKG + 'symmetrix_calc.py'
EXTRACT = PKG + 'extract_mace_data.py'


ALL = ['positions', 'numbers', 'cell', 'pbc', 'initial_charges', 'initial_magmoms']


class Found(Exception):
    def __init__(self, oid, where, text):
        Exception.__init__(self, text)
        self.oid, self.where, self.text = oid, where, text


def var(n):
    return poly(T.var(n)) if not isinstance(T.var(n), Poly) else T.var(n)


# ------------------------------------------------------------- the modelled world
class System:
    """atoms with a symmetric, i-sorted neighbour list: numbers[N], pairs [(i, j)] (both directions listed)"""

    def __init__(self, name, numbers, bonds, rank=3, order='fwd'):
        self.name, self.numbers, self.rank = name, numbers, rank
        self.N = len(numbers)
        pairs = []
        for (i, j) in bonds:
            pairs += [(i, j), (j, i)]
        by = {}
        for p in pairs:
            by.setdefault(p[0], []).append(p[1])
        self.pairs = []
        for i in sorted(by):
            js = by[i]
            js = sorted(js, reverse=(order == 'rev'))
            if order == 'mix' and len(js) > 2:
                js = js[1:] + js[:1]
            self.pairs += [(i, j) for j in js]
        n = len(self.pairs)
        self.D = np.empty((n, 3), dtype=object)
        self.d = np.empty((n,), dtype=object)
        for p in range(n):
            for c in range(3):
                self.D[p, c] = var('%s.D%d%s' % (name, p, 'xyz'[c]))
            self.d[p] = var('%s.d%d' % (name, p))
        self.V = var(name + '.V')

    def E(self, i):
        return var('%s.E%d' % (self.name, i))

    def f(self, p):
        return var('%s.f%d' % (self.name, p))

    def __str__(self):
        return self.name


SYSTEMS = [
    System('two-atoms', [1, 8], [(0, 1)]),
    System('chain-with-images', [8, 1, 6, 1], [(0, 1), (1, 2), (2, 3), (0, 1), (2, 2), (0, 2)], order='rev'),
    System('isolated-first', [6, 1, 8], [(1, 2), (1, 2)]),
    System('isolated-middle', [1, 8, 6, 1], [(0, 2), (2, 3), (0, 3)], order='mix'),
    System('isolated-last', [8, 8, 1, 6], [(0, 1), (0, 2)]),
    System('no-neighbours', [6, 1], []),
    System('single-atom', [8], []),
    System('molecule-without-cell', [8, 1, 1], [(0, 1), (0, 2), (1, 2)], rank=0),
    System('slab-2d', [1, 6], [(0, 1), (0, 1), (1, 1)], rank=2),
    System('dense', [1, 6, 8, 6, 1], [(i, j) for i in range(5) for j in range(i + 1, 5)] + [(0, 0), (3, 3), (1, 4)], order='mix'),
]


MOVED = [
    System('two-atoms-moved', [1, 8], [(0, 1)]),
    System('two-atoms-swapped', [8, 1], [(0, 1)]),
    System('two-atoms-other', [6, 8], [(0, 1), (0, 1)]),
    System('isolated-last-moved', [8, 8, 1, 6], [(0, 3), (1, 3)]),
    System('isolated-last-recoloured', [6, 1, 1, 8], [(0, 1), (0, 2)], rank=3),
]
HISTORIES = [[SYSTEMS[a], SYSTEMS[b]] for a in range(len(SYSTEMS)) for b in range(len(SYSTEMS)) if a != b]
HISTORIES += [[SYSTEMS[0], m] for m in MOVED[:3]] + [[SYSTEMS[4], m] for m in MOVED[3:]] + [[SYSTEMS[0], MOVED[1], SYSTEMS[9], MOVED[0]], [SYSTEMS[9], SYSTEMS[5], MOVED[2]]]


def atoms_of(S):
    N = S.N

    def get_volume(ip, a, k):
        if S.rank != 3:
            raise PyRaise('ValueError', 'cell has rank %d: volume not defined' % S.rank)
        return S.V
    pos = np.empty((N, 3), dtype=object)
    for i in range(N):
        for c in range(3):
            pos[i, c] = var('x%d%s' % (i, 'xyz'[c]))
    cell = Obj('cell', rank=S.rank, volume=S.V if S.rank == 3 else poly(0))
    cell.attrs['volume'] = S.V if S.rank == 3 else poly(0)
    at = Obj('atoms', len=N, cell=cell)
    at.attrs.update({
        'get_atomic_numbers': Model(lambda ip, a, k: np.array(S.numbers, dtype=int)), 'numbers': np.array(S.numbers, dtype=int),
        'get_volume': Model(get_volume), 'get_positions': Model(lambda ip, a, k: pos.copy()), 'positions': pos,
        'get_global_number_of_atoms': Model(lambda ip, a, k: N), 'get_cell': Model(lambda ip, a, k: cell), 'get_pbc': Model(lambda ip, a, k: np.array([S.rank > c for c in range(3)])),
        'pbc': np.array([S.rank > c for c in range(3)]), 'copy': Model(lambda ip, a, k: at), '__len__': Model(lambda ip, a, k: N)})
    return at


class Evaluator:
    """stands for the compiled model: what it is handed, and opaque results"""

    def __init__(self, znums, etail=0, ftail=0):
        self.z, self.etail, self.ftail = znums, etail, ftail
        self.calls = []
        self.o = Obj('evaluator', atomic_numbers=list(znums), r_cut=var('r_cut'))
        self.o.attrs['@closed'] = True
        self.o.attrs['node_energies'] = [var('stale_e%d' % i) for i in range(max(etail, 0))]
        self.o.attrs['node_forces'] = [var('stale_f%d' % i) for i in range(3 * max(ftail, 0))]
        self.o.attrs['compute_node_energies_forces'] = Model(self.compute)
        self.cur = None

    def compute(self, ip, args, kw):
        if kw or len(args) != 7:
            raise Found('call', '', 'compute_node_energies_forces takes 7 positional arguments, got %d positional and %d keyword' % (len(args), len(kw)))
        S = self.cur
        bad = lambda t: Found('pairs', '', '[system %s] %s' % (S, t))

        def ints(x, what):
            a = np.asarray(x if not isinstance(x, (list, tuple)) else [num(v) for v in x])
            if a.ndim != 1 and a.size:
                a = a.reshape(-1)
            if a.dtype == object:
                a = np.array([num(v) for v in a.ravel()], dtype=object)
                if any(v is None for v in a):
                    raise bad('%s is not made of integers' % what)
            return [int(v) for v in a.ravel()]

        def reals(x):
            a = np.asarray(x, dtype=object) if isinstance(x, (list, tuple)) else np.asarray(x)
            return [topoly(v) for v in a.ravel()]
        n = num(args[0])
        if n is None or isinstance(args[0], np.ndarray) and args[0].ndim:
            raise bad('number of nodes is not a number')
        n = int(n)
        ntypes, nneigh, nidx, jtypes = (ints(args[q], w) for q, w in ((1, 'node_types'), (2, 'num_neigh'), (3, 'neigh_indices'), (4, 'neigh_types')))
        xyz, r = reals(args[5]), reals(args[6])
        P = len(S.pairs)
        if n != S.N:
            raise bad('%d nodes handed to the model for %d atoms (an atom without neighbours is left out)' % (n, S.N))
        if len(ntypes) < n or len(nneigh) < n:
            raise bad('node_types/num_neigh have %d/%d entries for %d nodes' % (len(ntypes), len(nneigh), n))
        nneigh, ntypes = nneigh[:n], ntypes[:n]
        if sum(nneigh) != P or len(nidx) != P or len(jtypes) != P or len(r) != P or len(xyz) != 3 * P:
            raise bad('%d neighbour entries counted, arrays of %d/%d/%d/%d entries, for %d pairs' % (sum(nneigh), len(nidx), len(jtypes), len(r), len(xyz) // 3, P))
        # which pair is each entry
        ent = []
        for q in range(P):
            hit = [p for p in range(P) if all(same_const(xyz[3 * q + c], S.D[p, c]) for c in range(3))]
            if not hit:
                raise bad('pair vector %d handed to the model is no neighbour vector (%s, %s, %s)' % (q, xyz[3 * q], xyz[3 * q + 1], xyz[3 * q + 2]))
            ent.append(hit[0])
        if sorted(ent) != list(range(P)):
            raise bad('neighbour pairs are repeated or left out')
        # which atom is each node
        atom, lo = [], 0
        for k in range(n):
            es = ent[lo:lo + nneigh[k]]
            own = {S.pairs[p][0] for p in es}
            if len(own) > 1:
                raise bad('the entries of node %d belong to the atoms %s' % (k, sorted(own)))
            atom.append(own.pop() if own else None)
            lo += nneigh[k]
        free = [a for a in range(n) if a not in atom]
        for k in range(n):
            if atom[k] is None:
                if k in free:
                    atom[k] = k
                    free.remove(k)
        for k in range(n):
            if atom[k] is None:
                atom[k] = free.pop(0)
        if sorted(atom) != list(range(n)):
            raise bad('the entries of one atom are spread over several nodes')
        for k in range(n):
            if not 0 <= ntypes[k] < len(self.z) or self.z[ntypes[k]] != S.numbers[atom[k]]:
                raise bad('node %d is given type %d (model species %s) but is element %d' % (k, ntypes[k], self.z, S.numbers[atom[k]]))
        for q in range(P):
            j = S.pairs[ent[q]][1]
            if not 0 <= jtypes[q] < len(self.z) or self.z[jtypes[q]] != S.numbers[j]:
                raise bad('neighbour entry %d is given type %d (model species %s) but is element %d' % (q, jtypes[q], self.z, S.numbers[j]))
            if not 0 <= nidx[q] < n or atom[nidx[q]] != j:
                raise bad('neighbour entry %d points at node %d, its neighbour is atom %d' % (q, nidx[q], j))
            if not same_const(r[q], S.d[ent[q]]):
                raise bad('distance of neighbour entry %d is %s' % (q, r[q]))
        self.calls.append(S)
        self.o.attrs['node_energies'] = [S.E(atom[k]) for k in range(n)] + [poly(0)] * self.etail
        self.o.attrs['node_forces'] = [S.f(ent[q]) * S.D[ent[q], c] for q in range(P) for c in range(3)] + [poly(0)] * (3 * self.ftail)
        return None


def same_const(a, b):
    d = topoly(a) - topoly(b)
    return d.const() == 0


def world(S_of, ev, kokkos=True, extract=None, models=None, log=None):
    """modules the calculator imports, as far as they are modelled"""
    log = log if log is not None else []

    def neighbor_list(ip, a, k):
        S = S_of()
        q = a[0] if a else k.get('quantities')
        at = a[1] if len(a) > 1 else k.get('a', k.get('atoms'))
        cut = a[2] if len(a) > 2 else k.get('cutoff')
        if not isinstance(q, str) or not isinstance(at, Obj) or at.objname != 'atoms':
            raise Unsupported('neighbour list arguments')
        c = topoly(cut) if not isinstance(cut, Opaque) else None
        if c is None:
            raise Unsupported('neighbour list cutoff')
        if not same_const(c, var('r_cut')):
            raise Found('cutoff', '', 'neighbours are searched within %s, the model has cutoff r_cut' % c)
        if k.get('self_interaction') is True:
            raise Found('cutoff', '', 'atoms are listed as neighbours of themselves')
        out = []
        for ch in q:
            if ch == 'i':
                out.append(np.array([p[0] for p in S.pairs], dtype=int))
            elif ch == 'j':
                out.append(np.array([p[1] for p in S.pairs], dtype=int))
            elif ch == 'd':
                out.append(S.d.copy())
            elif ch == 'D':
                out.append(S.D.copy())
            else:
                raise Unsupported('neighbour list quantity ' + ch)
        return tuple(out) if len(out) > 1 else out[0]

    def voigt(ip, a, k):
        m = toobj(a[0])
        if m.shape != (3, 3):
            raise Found('stress', '', 'stress matrix has shape %s' % (m.shape,))
        r = np.empty(6, dtype=object)
        for q, (x, y) in enumerate(((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))):
            r[q] = m[x, y]
        return r
    base = Obj('Calculator')

    def base_init(ip, a, k):
        s = a[0]
        s.attrs.setdefault('results', {})
        s.attrs.setdefault('parameters', {})
        s.attrs.setdefault('atoms', None)
        return None

    def base_calc(ip, a, k):
        at = a[1] if len(a) > 1 else k.get('atoms')
        if at is not None:
            a[0].attrs['atoms'] = at
        return None
    base.attrs.update({'__init__': Model(base_init), 'calculate': Model(base_calc)})
    vt = Model(voigt)
    nl = Model(neighbor_list)
    np_ = NSpace('numpy')
    mods = {
        'numpy': np_, 'logging': Opaque('logging'), 'matscipy.neighbours!missing': True, 'warnings': Opaque('warnings'),
        'ase.neighborlist.neighbor_list': nl, 'ase.neighborlist': NSpace('ase.neighborlist', neighbor_list=nl),
        'ase.calculators.calculator': NSpace('ase.calculators.calculator', Calculator=base, PropertyNotImplementedError=Exc('PropertyNotImplementedError'), all_changes=list(ALL)),
        'ase.stress': NSpace('ase.stress', full_3x3_to_voigt_6_stress=vt),
        'ase.constraints': NSpace('ase.constraints', full_3x3_to_voigt_6_stress=vt),
    }
    if models is not None:
        mods.update(models)
    return mods, base


def load(mods, base, selfobj):
    path = os.path.join(REPO, CALC)
    if not os.path.exists(path):
        raise AnalysisBroken(CALC)

    def sup(ip, a, k):
        s = selfobj
        return Obj('super', __init__=Model(lambda ip, a, k: base.attrs['__init__'].f(ip, [s] + list(a), k)), calculate=Model(lambda ip, a, k: base.attrs['calculate'].f(ip, [s] + list(a), k)))
    ip = PyInterp(path, CALC, mods, {'super': Model(sup)})
    ip.load_module()
    c = ip.globals.get('Symmetrix')
    if not isinstance(c, Cls):
        raise AnalysisBroken('class Symmetrix in ' + CALC)
    return ip, c


def run_history(history, znums, etail, ftail, use_kokkos=True):
    """the results of each calculate() of a history of systems on one calculator"""
    ev = Evaluator(znums, etail, ftail)
    b = Build(True, False, True, make=lambda cls, p: ev.o, S_of=lambda: ev.cur)
    b.construct(use_kokkos=use_kokkos)
    me, ip, cls = b.me, b.ip, b.cls
    out = []
    m = cls.method('calculate')
    if m is None:
        raise AnalysisBroken('Symmetrix.calculate')
    prev = None
    for S in history:
        ev.cur = S
        chg = list(ALL)
        if prev is not None and prev.N == S.N:
            chg = ['positions'] + (['numbers'] if prev.numbers != S.numbers else []) + ['cell'] + (['pbc'] if prev.rank != S.rank else [])
        prev = S
        ncalls = len(ev.calls)
        me.attrs['results'] = {}                       # Calculator.reset() before a recalculation
        ip.call_fn(Fn(m, cls.env, ip, me), [atoms_of(S)], {'properties': ['energy'], 'system_changes': chg})
        if len(ev.calls) == ncalls:
            raise Found('call', '', 'calculate() returns without evaluating the model')
        out.append(dict(me.attrs['results']))
    return out, ip


def where(ip, name):
    c = ip.globals['Symmetrix']
    m = c.method(name)
    return '%s:%d' % (CALC, m.lineno) if m else CALC


def p_calc(ck):
    ck.rule('pairs', 'The arguments handed to the model describe every atom once, in an order in which each node lists exactly its own neighbour pairs with the right species, index, vector and distance.')
    ck.rule('energy', 'energy and free_energy are the sum over atoms, energies one entry per atom.')
    ck.rule('forces', 'forces[a] = sum of pair forces on a as neighbour minus those of pairs it centres; one row per atom.')
    ck.rule('stress', 'stress = -(sum over pairs F x D)/V in Voigt order xx yy zz yz xz xy, only required for a cell with a volume.')
    ck.rule('no-error', 'No system with at least one atom makes calculate() raise.')
    ck.assume('neighbor_list returns a symmetric list grouped by the central atom (ASE and matscipy do)')
    ck.assume('the model returns pair forces whose virial is symmetric (rotational invariance of the energy)')
    ck.assume('node_energies/node_forces may be longer than needed, with zeros in the tail (Kokkos containers only grow)')
    ck.analysed(CALC + '::Symmetrix.calculate')
    ztabs = [[8, 1, 6]] if ck.tier == 'quick' else [[8, 1, 6], [1, 6, 8], [6, 92, 8, 1]]
    hist = [[S] for S in SYSTEMS]
    two = HISTORIES
    for zt in ztabs:
        for h in hist + two:
            for (et, ft) in ((0, 0), (2, 3)):
                for kk in ((True, False) if et == 0 and len(h) == 1 else (True,)):
                    name = '%s/%s%s' % ('+'.join(map(str, h)), 'exact' if not et else 'grown', '' if kk else '/serial')
                    if zt is not ztabs[0]:
                        name += '/' + '-'.join(map(str, zt))
                    ck.attempt('calc/' + name, one, ck, name, h, zt, et, ft, kk)
    p_calc_reject(ck)


def one(ck, name, h, zt, et, ft, kk):
    try:
        res, ip = run_history(h, zt, et, ft, kk)
    except Found as f:
        ck.bad('%s/%s' % (f.oid, name), CALC, f.text)
        return
    except PyRaise as e:
        if e.kind in ('ValueError', 'IndexError', 'KeyError', 'TypeError', 'AttributeError', 'NameError', 'RuntimeError', 'ZeroDivisionError', 'AssertionError', 'PropertyNotImplementedError', 'NotImplementedError'):
            ck.bad('no-error/' + name, '%s:%d' % (CALC, getattr(e.node, 'lineno', 0)), 'calculate() raises %s for a valid system' % e)
            return
        raise
    w = where(ip, 'calculate')
    ck.ok('pairs/' + name, w)
    ck.ok('no-error/' + name, w)
    for S, r in zip(h, res):
        tag = name if len(h) == 1 else '%s@%s' % (name, S)
        judge(ck, tag, w, S, r)


def rows(x):
    if x is None or isinstance(x, Opaque):
        raise Unsupported('result unknown')
    return np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x


def judge(ck, tag, w, S, r):
    tot = poly(0)
    for i in range(S.N):
        tot = tot + S.E(i)
    for key in ('energy', 'free_energy'):
        if key not in r:
            ck.bad('%s/%s' % (key, tag), w, 'no %s in the results' % key)
        else:
            v = topoly(r[key]) if not isinstance(r[key], np.ndarray) else topoly(r[key].item() if r[key].size == 1 else None)
            ck.decide('%s/%s' % (key, tag), w, same_const(v, tot), '%s is %s, not the sum of the %d atomic energies' % (key, v, S.N))
    if 'energies' not in r:
        ck.bad('energies/' + tag, w, 'no energies in the results')
    else:
        e = rows(r['energies'])
        if e.shape != (S.N,):
            ck.bad('energies/' + tag, w, 'energies has shape %s for %d atoms' % (e.shape, S.N))
        else:
            ck.decide('energies/' + tag, w, all(same_const(e[i], S.E(i)) for i in range(S.N)), 'energies = %s' % [str(x) for x in e])
    want = np.empty((S.N, 3), dtype=object)
    want[:] = poly(0)
    vir = np.empty((3, 3), dtype=object)
    vir[:] = poly(0)
    for p, (i, j) in enumerate(S.pairs):
        for c in range(3):
            F = S.f(p) * S.D[p, c]
            want[j, c] = want[j, c] + F
            want[i, c] = want[i, c] - F
            for d in range(3):
                vir[c, d] = vir[c, d] - F * S.D[p, d]
    if 'forces' not in r:
        ck.bad('forces/' + tag, w, 'no forces in the results')
    else:
        f = rows(r['forces'])
        if f.shape != (S.N, 3):
            ck.bad('forces/' + tag, w, 'forces has shape %s for %d atoms' % (f.shape, S.N))
        else:
            bad = [(i, c) for i in range(S.N) for c in range(3) if not same_const(f[i, c], want[i, c])]
            ck.decide('forces/' + tag, w, not bad, 'force on atom %s component %s is %s, expected %s' % ((bad[0][0], 'xyz'[bad[0][1]], f[bad[0]], want[bad[0]]) if bad else ('',) * 4))
    if S.rank == 3:
        if 'stress' not in r:
            ck.bad('stress/' + tag, w, 'no stress in the results of a periodic system')
            return
        s = rows(r['stress'])
        if s.shape != (6,):
            ck.bad('stress/' + tag, w, 'stress has shape %s' % (s.shape,))
            return
        bad = []
        for q, (x, y) in enumerate(((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))):
            if not same_const(topoly(s[q]), vir[x, y] * T.inv(S.V)):
                bad.append(q)
        ck.decide('stress/' + tag, w, not bad, 'stress component %s differs from minus the virial over the volume' % (['xx', 'yy', 'zz', 'yz', 'xz', 'xy'][bad[0]] if bad else ''))


# ------------------------------------------------------------- an element the model does not know
def p_calc_reject(ck):
    ck.rule('unknown-element', 'An atom whose element the model does not contain makes calculate() raise.')
    for k, (nums, bonds) in enumerate((([1, 7], [(0, 1)]), ([7, 1], [(0, 1)]), ([7], []), ([1, 8, 7], [(0, 1)]))):
        S = System('unknown-element-%d' % k, nums, bonds)

        def go(S=S):
            try:
                run_history([S], [8, 1, 6], 0, 0)
            except PyRaise:
                ck.ok('unknown-element/%s' % S, CALC)
            except Found as f:
                ck.bad('unknown-element/%s' % S, CALC, 'element 7 is handed to a model of species [8, 1, 6]: %s' % f.text)
            else:
                ck.bad('unknown-element/%s' % S, CALC, 'element 7 is evaluated with a model of species [8, 1, 6]')
        ck.attempt('unknown-element/%s' % S, go)


# ------------------------------------------------------------- construction
def signature(path, name):
    import ast
    t = ast.parse(open(os.path.join(REPO, path), encoding='utf-8').read())
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return n
    raise AnalysisBroken('%s in %s' % (name, path))


class Build:
    """one construction of the calculator in a modelled world"""

    def __init__(self, has_kokkos, initialised, is_json, model='model.file', make=None, S_of=lambda: None):
        self.log = []
        self.model = model
        self.init = initialised
        self.made = None
        self.files = {}
        self.extracted = None
        sig = signature(EXTRACT, 'extract_mace_data')

        def ctor(cls):
            def f(ip, a, k):
                if k or len(a) != 1 or not isinstance(a[0], str):
                    raise Found('construct', '', 'the model class is constructed with %d arguments, not one file name' % (len(a) + len(k)))
                if cls != 'MACE' and not self.init:
                    raise Found('kokkos', '', '%s is constructed before Kokkos is initialised' % cls)
                p = a[0]
                if p == self.model:
                    if not is_json:
                        raise PyRaise('RuntimeError', '[json.exception.parse_error.101]')
                elif p in self.files:
                    fo = self.files[p]
                    if fo['deleted']:
                        raise Found('convert', '', 'the converted file is read after it is deleted')
                    if fo['pending']:
                        raise Found('convert', '', 'the converted file is read while its contents are still buffered')
                    if ''.join(fo['content']).strip() != 'json(data)':
                        raise Found('convert', '', 'the converted file holds %s, not the JSON text of the extracted data' % (fo['content'],))
                else:
                    raise Found('construct', '', 'model read from %r, which is neither the file asked for nor its conversion' % p)
                if make:
                    return make(cls, p)
                o = Obj('evaluator', r_cut=var('r_cut_' + cls + ('' if p == self.model else '_conv')), atomic_numbers=[1])
                o.attrs['@cls'] = cls
                self.made = (cls, p, o)
                return o
            return Model(f, cls)
        mod = Obj('symmetrix')
        mod.attrs['@closed'] = True
        mod.attrs['MACE'] = ctor('MACE')
        if has_kokkos:
            def init(ip, a, k):
                if self.init:
                    raise Found('kokkos', '', 'Kokkos is initialised a second time')
                self.init = True
            mod.attrs.update({'MACEKokkos': ctor('MACEKokkos'), 'MACEKokkosFloat': ctor('MACEKokkosFloat'), '_kokkos_is_initialized': Model(lambda ip, a, k: self.init), '_init_kokkos': Model(init),
                              '_finalize_kokkos': Model(lambda ip, a, k: self.no_final())})

        def extract(ip, a, k):
            ex = PyInterp.__new__(PyInterp)
            names = [x.arg for x in sig.args.args]
            got = dict(zip(names, a))
            if len(a) > len(names):
                raise PyRaise('TypeError', 'too many arguments to extract_mace_data')
            for q, v in k.items():
                if q not in names or q in got:
                    raise PyRaise('TypeError', 'unexpected argument %s of extract_mace_data' % q)
                got[q] = v
            nd = len(names) - len(sig.args.defaults)
            miss = [x for x in names[:nd] if x not in got]
            if miss:
                raise PyRaise('TypeError', 'extract_mace_data() missing argument %s' % miss[0])
            self.extracted = got
            return Obj('data')

        def dumps(ip, a, k):
            if isinstance(a[0], Obj) and a[0].objname == 'data':
                return 'json(data)'
            raise Unsupported('json of something else')

        def dump(ip, a, k):
            ip.call(ip.attr(a[1], 'write'), [dumps(ip, a[:1], k)], {})

        def tmp(ip, a, k):
            name = '/tmp/converted%d' % len(self.files)
            st = {'content': [], 'pending': False, 'deleted': False, 'delete': k.get('delete', True), 'closed': False}
            mode = a[0] if a else k.get('mode', 'w+b')
            self.files[name] = st

            def write(ip, a, k):
                if st['closed']:
                    raise PyRaise('ValueError', 'I/O operation on closed file.')
                x = a[0]
                if isinstance(x, Opaque) or 'b' in mode:
                    raise Unsupported('binary write')
                st['content'].append(x)
                st['pending'] = True

            def flush(ip, a, k):
                st['pending'] = False

            def close(ip, a, k):
                st['pending'] = False
                st['closed'] = True
                if st['delete'] and k.get('@', True):
                    st['deleted'] = True
            f = Obj('file', write=Model(write), flush=Model(flush), close=Model(close), __exit__=Model(close), seek=Model(flush), fileno=Model(lambda ip, a, k: 3))
            f.attrs['name'] = name
            f.attrs['__enter__'] = Model(lambda ip, a, k: f)
            return f

        def path(ip, a, k):
            return Opaque('Path')
        self.mods, self.base = world(S_of, None, models={
            '.symmetrix': mod, '.extract_mace_data.extract_mace_data': Model(extract), '.extract_mace_data': NSpace('extract', extract_mace_data=Model(extract)),
            'json': NSpace('json', dumps=Model(dumps), dump=Model(dump)), 'tempfile': NSpace('tempfile', NamedTemporaryFile=Model(tmp)), 'tempfile.NamedTemporaryFile': Model(tmp)})
        self.me = Obj('self')
        self.me.attrs['@closed'] = True
        self.me.attrs['@get'] = self.inherited
        self.ip, self.cls = load(self.mods, self.base, self.me)
        self.me.attrs['@class'] = self.cls

    def inherited(self, name):
        import ase.calculators.calculator as acc
        if hasattr(acc.Calculator, name):
            raise Unsupported('inherited attribute %s' % name)
        return None

    def no_final(self):
        raise Found('kokkos', '', 'Kokkos is shut down')

    def construct(self, **kw):
        m = self.cls.method('__init__')
        if m is None:
            raise AnalysisBroken('Symmetrix.__init__')
        self.ip.call_fn(Fn(m, self.cls.env, self.ip, self.me), [self.model], kw)


def p_init(ck):
    ck.rule('select', 'dtype float64/float32 with Kokkos selects MACEKokkos/MACEKokkosFloat, float64 without Kokkos selects MACE.')
    ck.rule('reject', 'Any other dtype, float32 without Kokkos, and Kokkos when not built in are refused with an exception before a model is made.')
    ck.rule('kokkos', 'Kokkos is initialised exactly once, before the first Kokkos model.')
    ck.rule('convert', 'A file that is not JSON is converted by extract_mace_data, called with arguments it accepts (species, head, num_spline_points as given), and the model is made from the complete JSON text of the result.')
    ck.rule('cutoff', 'The neighbour cutoff is the r_cut of the model that was made.')
    ck.analysed(CALC + '::Symmetrix.__init__')
    ck.analysed(EXTRACT + '::extract_mace_data (signature)')
    legal = {('float64', True): 'MACEKokkos', ('float32', True): 'MACEKokkosFloat', ('float64', False): 'MACE'}
    DEF = object()
    for dtype in ('float64', 'float32', 'float16', 'double', None, DEF):
        for kk in (True, False, DEF):
            for has in (True, False):
                for ini in (False, True):
                    if ini and not has:
                        continue
                    for js in (True, False):
                        for kw in ({}, {'head': 'h'}, {'species': [1, 8], 'num_spline_points': 64}, {'label': 'x', 'species': None}):
                            if js and kw and 'label' not in kw:
                                continue
                            if (dtype in (DEF, 'double', None) or kk is DEF) and kw:
                                continue
                            ck.attempt('init', one_init, ck, dtype, kk, has, ini, js, kw, legal, DEF)


def one_init(ck, dtype, kk, has, ini, js, kw, legal, DEF):
    args = dict(kw)
    if dtype is not DEF:
        args['dtype'] = dtype
    if kk is not DEF:
        args['use_kokkos'] = kk
    eff = ('float64' if dtype is DEF else dtype, True if kk is DEF else kk)
    name = '%s/%s/%s%s/%s/%s' % (dtype if dtype is not DEF else 'default', {True: 'kokkos', False: 'serial', DEF: 'default'}[kk], 'built' if has else 'absent', '-up' if ini else '', 'json' if js else 'torch',
                                 '+'.join(sorted(kw)) or 'plain')
    b = Build(has, ini, js)
    want = legal.get(eff)
    if want and want != 'MACE' and not has:
        want = None
    wh = where(b.ip, '__init__')
    try:
        b.construct(**args)
    except Found as f:
        ck.bad('%s/%s' % (f.oid, name), wh, f.text)
        return
    except PyRaise as e:
        if want is None:
            ck.ok('reject/' + name, wh)
            if b.made is not None:
                ck.bad('reject/' + name, wh, 'a model is made before the combination is refused')
            return
        ck.bad(('select/' if js else 'convert/') + name, '%s:%d' % (CALC, getattr(e.node, 'lineno', 0)), 'construction raises %s' % e)
        return
    if want is None:
        ck.bad('reject/' + name, wh, 'accepted and evaluated with %s' % (b.made[0] if b.made else None))
        return
    ev = b.me.attrs.get('evaluator')
    if not isinstance(ev, Obj) or '@cls' not in ev.attrs:
        ck.und('select/' + name, wh, 'evaluator not understood')
        return
    ck.decide('select/' + name, wh, ev.attrs['@cls'] == want, 'evaluated with %s, not %s' % (ev.attrs['@cls'], want))
    cut = b.me.attrs.get('cutoff')
    if cut is not None and not isinstance(cut, Opaque):
        ck.decide('cutoff/' + name, wh, same_const(cut, ev.attrs['r_cut']), 'cutoff is %s, the model has %s' % (cut, ev.attrs['r_cut']))
    ck.ok('kokkos/' + name, wh)
    if not js:
        got = b.extracted
        if got is None:
            ck.bad('convert/' + name, wh, 'the model file is not converted')
            return
        exp = {k: v for k, v in kw.items() if k in ('species', 'head', 'num_spline_points')}
        rest = {k: v for k, v in got.items() if k != 'model'}
        ok = got.get('model') == b.model and all(rest.get(k) == v for k, v in exp.items()) and all(k in exp or v is None for k, v in rest.items())
        ck.decide('convert/' + name, wh, ok, 'conversion called with %s for options %s' % (rest, exp))
