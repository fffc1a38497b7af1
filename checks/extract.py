"""P21: the model file the extractor writes, summarised from its Python source.

The shapes of the torch model (elements, channels, angular momenta, paths, kinds of interaction)
are enumerated; its weights are terms; torch, e3nn, mace and scipy are given by their meaning."""
import itertools
import math
import os

import numpy as np
from common import AnalysisBroken, REPO
from cpp import program, body, where as cwhere
import terms as T
from terms import Poly, Atom, poly, inv, var
from values import Unsupported
from pyval import PyInterp, PyRaise, Obj, Opaque, Model, NSpace, Fn, num, toobj, topoly
from peval import Point, h01, taints, CannotEval, Domain
from mace import gval

FILE = 'symmetrix/source/symmetrix/extract_mace_data.py'
LMAX = 3


class Callable(Obj):
    def __init__(self, name, f, **attrs):
        Obj.__init__(self, name, **attrs)
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def F(name, *a):
    return poly(Atom('fn', name, *[x if isinstance(x, str) else poly(x) for x in a]))


def ten(name, *shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        a[i] = poly(Atom('read', 'torch.' + name, tuple(poly(x) for x in i)))
    return a


def zero_d(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return a


class Cfg:
    def __init__(self, label, zs=(1, 8, 14), C=2, L_max=1, dens=(0, 0), zbl=False, species=None, heads=None, paths=None, head=None, tup=False, oldU=False, n=3, want=None, up=None):
        self.__dict__.update(locals())
        self.sel = want if want is not None else sorted(zs)
        self.paths = paths or [(0, 0, 0), (0, 1, 1), (1, 1, 0), (1, 0, 1), (1, 2, 1), (2, 2, 0), (2, 1, 1), (3, 3, 0), (3, 2, 1)]
        self.neta = [sum(1 for p in self.paths if p[0] == l) for l in range(LMAX + 1)]


CFGS = [
    Cfg('3 elements in model order, all extracted'),
    Cfg('3 elements not in order of atomic number, 2 extracted by symbol, density interactions, ZBL', zs=(14, 1, 8), dens=(1, 1), zbl=True, species=['Si', 'H'], want=[1, 14], heads=['one'], tup=True),
    Cfg('2 elements extracted by number, first interaction density, L_max 0', zs=(8, 1), dens=(1, 0), species=[8, 1], want=[1, 8], L_max=0, paths=[(0, 0, 0), (1, 1, 0), (2, 2, 0), (3, 3, 0)], oldU=True, zbl=True),
    Cfg('1 element, 1 channel, second interaction density, two heads', zs=(6, 7), C=1, dens=(0, 1), species=['7'], want=[7], heads=['pt_head', 'mine'], head='mine', n=4, L_max=0, paths=[(0, 0, 0), (1, 1, 0), (2, 2, 0), (3, 3, 0)]),
    Cfg('empty species list, L_max 2', zs=(7, 1), C=1, L_max=2, species=[], paths=[(0, 0, 0), (0, 2, 2), (1, 1, 0), (1, 1, 2), (2, 2, 0), (2, 0, 2), (3, 3, 0), (3, 1, 2)]),
]


def ueta(corr, l):
    return {1: 1, 2: 2, 3: 2 if l == 0 else 1, 4: 1}[corr]


_U = {}


def uconst(corr, l):
    """the generalised Clebsch-Gordan table: constants, most of them zero"""
    k = (corr, l)
    if k not in _U:
        D = (LMAX + 1) ** 2
        a = np.zeros((2 * l + 1,) + (D,) * corr + (ueta(corr, l),))
        dense = {1: 2, 2: 9, 3: 61}[corr]
        for q, i in enumerate(np.ndindex(a.shape)):
            if (q * 7 + 3 * corr + l) % dense == 0:
                a[i] = 0.2 + round(h01('U', corr, l, i), 3)
        _U[k] = a
    return _U[k]


def cg(l1, m1, l2, m2, l, m):
    return 0.0 if abs(m1) + abs(m2) < abs(m) or (m1 + 2 * m2 + m) % 3 == 0 else 0.3 + round(h01('cg', l1, m1, l2, m2, l, m), 3)


class World:
    def __init__(self, cfg, bad=None):
        self.cfg = cfg
        self.bad = bad
        self.splines = []
        self.model = self.build(cfg)
        self.whole = self.model if not (cfg.heads and len(cfg.heads) > 1) else Obj('multihead model', heads=cfg.heads, parameters=Model(lambda ip, a, k: [Obj('p', dtype=Opaque('dtype'))]), **{'@closed': True})
        self.whole.attrs['to'] = Model(lambda ip, a, k: self.whole)
        self.head_seen = None

    def irr(self, l, mul=1):
        return (mul, Obj('Irrep', l=l))

    def build(self, cfg):
        C, nZ, L = cfg.C, len(cfg.zs), cfg.L_max
        m = Obj('model', **{'@closed': True})
        A = m.attrs
        if cfg.heads:
            A['heads'] = cfg.heads
        A['parameters'] = Model(lambda ip, a, k: [Obj('p', dtype=Opaque('dtype'))])
        A['atomic_numbers'] = np.array(cfg.zs)
        A['r_max'] = zero_d(var('torch.r_max'))
        A['spherical_harmonics'] = Obj('sh', _lmax=LMAX if self.bad != 'l_max' else 2)
        A['node_embedding'] = Obj('ne', linear=Obj('ne.linear', irreps_out=Obj('irr', count=Model(lambda ip, a, k: C if a and a[0] == '0e' else 0)), weight=ten('embed', nZ * C)))
        A['atomic_energies_fn'] = Obj('ae', atomic_energies=ten('E0', 1, nZ))
        A['scale_shift'] = Obj('ss', scale=zero_d(var('torch.scale')), shift=zero_d(var('torch.shift')))
        if cfg.zbl:
            A['pair_repulsion'] = True
            A['pair_repulsion_fn'] = Obj('zbl', types=('ZBLBasis',) if self.bad != 'zbl' else ('Other',), a_exp=zero_d(var('torch.a_exp')), a_prefactor=zero_d(var('torch.a_pre')), c=ten('zblc', 4),
                                         covalent_radii=ten('zblr', 5), p=np.array(6))
        elif cfg.C == 2:
            A['pair_repulsion'] = False
        A['radial_embedding'] = Callable('radial_embedding', self.radial)
        names = [('RealAgnosticDensityInteractionBlock' if cfg.dens[0] else 'RealAgnosticInteractionBlock'), ('RealAgnosticDensityResidualInteractionBlock' if cfg.dens[1] else 'RealAgnosticResidualInteractionBlock')]
        if self.bad == 'first':
            names[0] = 'RealAgnosticAttResidualInteractionBlock'
        if self.bad == 'second':
            names[1] = 'RealAgnosticInteractionBlock'
        ints = []
        for q in (0, 1):
            K = (LMAX + 1) * C if q == 0 else len(cfg.paths) * C
            o = Obj('interaction %d' % q, types=(names[q],), typename=names[q], conv_tp_weights=Callable('R', lambda b, q=q, K=K: self.rows('R', q, b, K)), avg_num_neighbors=var('torch.avg%d' % q), **{'@closed': True})
            if cfg.dens[q]:
                o.attrs['density_fn'] = Callable('density', lambda b, q=q: self.rows('dens', q, b, 1))
            nup = 1 if q == 0 else L + 1
            o.attrs['linear_up'] = self.linear('up%d' % q, [(C, C)] * nup)
            if q == 0:
                sk = [ten('skip0.%d' % l, C, nZ, C) for l in range(LMAX + 1)]
                o.attrs['linear'] = self.linear('lin0', [(C, C)] * (LMAX + 1))
            else:
                sk = [ten('skip1.%d' % l, C, nZ, C) for l in range(1)]
                ln = self.linear('lin1', [(cfg.neta[l] * C, C) for l in range(LMAX + 1)], split=[p[0] for p in cfg.paths])
                o.attrs['linear'] = ln
            o.attrs['skip_tp'] = Obj('skip_tp', weight_views=Model(lambda ip, a, k, sk=sk: [(i, Opaque('instruction'), w) for i, w in enumerate(sk)] if k.get('yield_instruction') or (len(a) > 1 and a[1]) else sk),
                                     weight_view_for_instruction=Model(lambda ip, a, k, sk=sk: sk[a[0]]))
            ints.append(o)
        ints[1].attrs['conv_tp'] = Callable('conv_tp', self.tp, irreps_out=[self.irr(p[0], C) for p in cfg.paths], instructions=[Obj('ins', i_in1=p[2], i_in2=p[1]) for p in cfg.paths])
        if self.bad == 'layers':
            ints = ints + [ints[1]]
        if self.bad == 'one layer':
            ints = ints[:1]
        A['interactions'] = ints
        prods = []
        for q in (0, 1):
            outs = L if q == 0 else 0
            cs = [Obj('contraction', correlation=3 if self.bad != 'correlation %d' % q else 4, weights=[ten('con%d.%d.2' % (q, l), nZ, ueta(2, l), C), ten('con%d.%d.1' % (q, l), nZ, ueta(1, l), C)] if self.bad != 'correlation %d' % q else
                      [ten('con%d.%d.3' % (q, l), nZ, ueta(3, l), C), ten('con%d.%d.2' % (q, l), nZ, ueta(2, l), C), ten('con%d.%d.1' % (q, l), nZ, ueta(1, l), C)],
                      weights_max=ten('con%d.%d.%d' % (q, l, 3 if self.bad != 'correlation %d' % q else 4), nZ, ueta(3, l), C)) for l in range(outs + 1)]
            prods.append(Obj('product %d' % q, symmetric_contractions=Obj('sc', contractions=cs, irreps_in=[self.irr(l, C) for l in range(LMAX + 1)], irreps_out=[self.irr(l, C) for l in range(outs + 1)]),
                             linear=self.linear('prod%d' % q, [(C, C)] * (outs + 1), lmax=outs)))
        A['products'] = prods
        A['readouts'] = [Obj('readout 0', linear=self.linear('read0', [(C, 1)])),
                         Obj('readout 1', linear_1=self.linear('read1', [(C, 16)]), linear_2=self.linear('read2', [(16, 1)]), non_linearity=Obj('nl', acts=[Obj('act', cst=var('torch.cst'))]))]
        return m

    def linear(self, name, blocks, split=None, lmax=None):
        n = sum(a * b for a, b in blocks)
        o = Obj('Linear ' + name, weight=ten(name, n), bias=ten(name + '.bias', 0), irreps_in=Obj('irreps', blocks=blocks), irreps_out=Obj('irreps', lmax=lmax, blocks=blocks))

        def view(ip, a, k):
            w = o.attrs['weight']
            if split is not None:
                raise Unsupported('views of a linear layer with separate paths')
            s = sum(x * y for x, y in blocks[:a[0]])
            return w[s:s + blocks[a[0]][0] * blocks[a[0]][1]].reshape(blocks[a[0]])
        o.attrs['weight_view_for_instruction'] = Model(view)
        return o

    # ------------------------------------------------- uninterpreted parts
    def radial(self, r, attrs, edge, numbers):
        e = np.asarray(edge).astype(int).reshape(2, -1)
        if e.shape[1] != 1:
            raise Unsupported('several edges')
        a = np.asarray(attrs)
        if a.shape != (len(self.cfg.zs),) * 2:
            raise PyRaise('RuntimeError', 'node attributes of shape %s' % (a.shape,))
        i, j = sorted(int(x) for x in e[:, 0])
        rr = toobj(r)
        if rr.ndim != 2 or rr.shape[1] != 1:
            raise Unsupported('shape of the radii')
        out = np.empty((rr.shape[0], 2), dtype=object)
        for q in range(rr.shape[0]):
            for b in (0, 1):
                out[q, b] = F('bes', b, i, j, rr[q, 0])
        return (out, Opaque('cutoffs')) if self.cfg.tup else out

    def rows(self, name, q, b, K):
        if not isinstance(b, np.ndarray):
            raise PyRaise('TypeError', 'radial basis of type %s' % type(b).__name__)
        out = np.empty((b.shape[0], K), dtype=object)
        for i in range(b.shape[0]):
            for k in range(K):
                out[i, k] = F(name, q, k, *b[i])
        return out

    def tp(self, H, Y, R):
        cfg = self.cfg
        C = cfg.C
        out = []
        for le, (l, l1, l2) in enumerate(cfg.paths):
            blk = np.zeros((C, 2 * l + 1))
            hs = sum(2 * p + 1 for p in range(l2)) * C
            for u in range(C):
                for m1 in range(2 * l1 + 1):
                    y = float(num(Y[0, l1 * l1 + m1]))
                    if not y:
                        continue
                    for m2 in range(2 * l2 + 1):
                        h = float(num(H[0, hs + u * (2 * l2 + 1) + m2]))
                        if h:
                            for m in range(2 * l + 1):
                                blk[u, m] += cg(l1, m1 - l1, l2, m2 - l2, l, m - l) * y * h * float(num(R[0, le * C + u]))
            out.append(blk.reshape(-1))
        return np.concatenate(out).reshape(1, -1)

    def U(self, ip, a, k):
        if 'use_cueq_cg' in k and self.cfg.oldU:
            raise PyRaise('TypeError', 'unexpected argument use_cueq_cg')
        irr, out, corr = a[0], a[1], int(a[2] if len(a) > 2 else k['correlation'])
        o = self.iter_irr(out)
        if len(o) != 1 or len(self.iter_irr(irr)) != LMAX + 1 or corr > 4:
            raise Unsupported('irreps of the contraction')
        if corr == 4:
            t = np.zeros((2 * o[0] + 1, 1, 1))
            return [out, t[0] if o[0] == 0 else t]
        t = uconst(corr, o[0])
        return [out, t[0] if o[0] == 0 else t]

    def iter_irr(self, x):
        if isinstance(x, Obj) and 'ls' in x.attrs:
            return x.attrs['ls']
        out = []
        for y in x:
            y = y[1] if isinstance(y, tuple) else y
            if not isinstance(y, Obj) or 'l' not in y.attrs:
                raise Unsupported('irreps')
            out.append(y.attrs['l'])
        return out

    def spline(self, ip, a, k):
        r, y = toobj(a[0]), toobj(a[1])
        bc = k.get('bc_type', a[3] if len(a) > 3 else None)
        self.splines.append((bc, ip.cur))
        if y.shape != r.shape:
            raise PyRaise('ValueError', 'x and y of different length')

        def at(d):
            def f(x, nu=0, *_a, **_k):
                x = toobj(x)
                if x.shape != r.shape or any(x[i] != r[i] for i in range(len(x))):
                    raise Unsupported('spline at other points')
                if d + nu == 0:
                    return y.copy()
                if d + nu > 1:
                    raise Unsupported('second derivative')
                return np.array([F('dspl', q, *y) for q in range(len(y))], dtype=object)
            return f
        return Callable('spline', at(0), derivative=Model(lambda ip, a, k: Callable('derivative', at(a[0] if a else 1))))

    def modules(self):
        W = self

        def linspace(ip, a, k):
            lo, hi, n = topoly(a[0]), topoly(a[1]), int(num(a[2] if len(a) > 2 else k.get('num', 50)))
            if k.get('endpoint', True) is not True or n < 2:
                raise Unsupported('linspace')
            h = (hi - lo) * inv(poly(n - 1))
            g = np.array([lo + h * i for i in range(n)], dtype=object)
            return (g, h) if k.get('retstep') else g

        def scal(f):
            def g(ip, a, k):
                if isinstance(a[0], Poly) and a[0].const() is None or isinstance(a[0], np.ndarray) and a[0].dtype == object:
                    raise Unsupported('function of terms')
                return f(float(num(a[0])) if isinstance(a[0], Poly) else a[0])
            return Model(g)

        def minv(ip, a, k):
            x = toobj(a[0])
            if x.shape == (1, 1):
                return np.array([[inv(x[0, 0])]], dtype=object)
            if x.shape == (2, 2):
                d = inv(x[0, 0] * x[1, 1] - x[0, 1] * x[1, 0])
                return np.array([[x[1, 1] * d, -x[0, 1] * d], [-x[1, 0] * d, x[0, 0] * d]], dtype=object)
            raise Unsupported('inverse')

        def rank(ip, a, k):
            return toobj(a[0]).shape[0] - (1 if W.bad == 'rank' else 0)

        def tanh(ip, a, k):
            x = toobj(a[0])
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = F('tanh', x[i])
            return out

        def tensor(ip, a, k):
            if isinstance(a[0], np.ndarray):
                return a[0]
            r = np.array(a[0])
            return toobj(r) if r.dtype.kind == 'f' else r

        def floats(fill):
            def f(ip, a, k):
                s = a[0] if isinstance(a[0], (list, tuple)) else a
                return np.full(tuple(int(num(x)) for x in s), float(fill))
            return Model(f)

        def load(ip, a, k):
            W.loaded = a[0]
            return W.whole

        def pick(ip, a, k):
            W.head_seen = a[1] if len(a) > 1 else k.get('head_to_keep')
            if a[0] is not W.whole or len(W.whole.attrs.get('heads', ())) < 2:
                raise PyRaise('RuntimeError', 'not a multihead model')
            return W.model

        def lin(ip, a, k):
            blocks = a[0].attrs['blocks']
            return W.linear('tmp', blocks)

        def irreps(ip, a, k):
            x = a[0]
            if isinstance(x, str):
                return Obj('irreps', ls=[int(p.strip()[0]) for p in x.split('+')])
            o = Obj('irreps', **{q: v for q, v in x.attrs.items()})
            o.attrs['simplify'] = Model(lambda ip, a, k: o)
            return o
        types = {n: Obj('class ' + n, cls=n) for n in ('RealAgnosticInteractionBlock', 'RealAgnosticDensityInteractionBlock', 'RealAgnosticResidualInteractionBlock', 'RealAgnosticDensityResidualInteractionBlock', 'ZBLBasis')}
        blocks = NSpace('mace.modules.blocks', **types)
        np_ = NSpace('numpy', linspace=Model(linspace), sqrt=scal(np.sqrt), abs=scal(np.abs), absolute=scal(np.abs), linalg=NSpace('linalg', inv=Model(minv), matrix_rank=Model(rank)))
        torch = NSpace('torch', load=Model(load), device=Model(lambda ip, a, k: Opaque('device')), float64=Opaque('float64'), double=Opaque('float64'), int64=Opaque('int64'), tanh=Model(tanh), tensor=Model(tensor),
                       eye=Model(lambda ip, a, k: np.eye(int(num(a[0])))), ones=floats(1), zeros=floats(0), atleast_1d=Model(lambda ip, a, k: np.atleast_1d(a[0])), reshape=Model(lambda ip, a, k: a[0].reshape(a[1])),
                       set_default_dtype=Model(lambda ip, a, k: None), get_default_dtype=Model(lambda ip, a, k: Opaque('float64')), serialization=Opaque('serialization'))
        import ase.data
        return {'torch': torch, 'os': Opaque('os'), 'logging': Opaque('logging'), 'itertools': NSpace('itertools', product=Model(lambda ip, a, k: list(itertools.product(*a, **k)))), 'numpy': np_,
                'matplotlib.pyplot': Opaque('plt'), 'scipy.interpolate': NSpace('scipy.interpolate', CubicSpline=Model(self.spline)),
                'e3nn.o3': NSpace('e3nn.o3', Irrep=Opaque('Irrep'), Irreps=Model(irreps), Linear=Model(lin), wigner_3j=Opaque('w3j')),
                'mace.modules.radial': NSpace('mace.modules.radial', ZBLBasis=types['ZBLBasis']), 'mace.tools.cg': NSpace('mace.tools.cg', U_matrix_real=Model(self.U)),
                'mace.tools.scripts_utils': NSpace('mace.tools.scripts_utils', remove_pt_head=Model(pick)), 'mace.modules.blocks': blocks, 'ase.data': NSpace('ase.data', chemical_symbols=list(ase.data.chemical_symbols),
                                                                                                                                                  atomic_numbers=dict(ase.data.atomic_numbers))}

    def run(self):
        path = os.path.join(REPO, FILE)
        if not os.path.exists(path):
            raise AnalysisBroken(FILE)
        BT = {n: Callable(n, lambda x=(), n=n: {'tuple': tuple, 'list': list}[n](ip.iter(x))) for n in ('tuple', 'list')}

        def isinst(ip, a, k):
            o, t = a
            ts = t if isinstance(t, tuple) else (t,)
            for c in ts:
                if isinstance(c, Obj) and 'cls' in c.attrs:
                    if isinstance(o, Obj) and 'types' in o.attrs and c.attrs['cls'] in o.attrs['types']:
                        return True
                elif c is BT['tuple']:
                    if isinstance(o, tuple):
                        return True
                elif c is BT['list']:
                    if isinstance(o, list):
                        return True
                else:
                    raise Unsupported('isinstance')
            return False

        def typ(ip, a, k):
            if isinstance(a[0], Obj) and 'typename' in a[0].attrs:
                return Obj('type', __name__=a[0].attrs['typename'])
            return Opaque('type')
        ip = PyInterp(path, FILE, self.modules(), {'isinstance': Model(isinst), 'type': Model(typ), 'next': Model(lambda ip, a, k: ip.iter(a[0])[0]), **BT})
        ip.limit = 6000000
        ip.cur = 0
        ip.load_module()
        f = ip.globals.get('extract_mace_data')
        if not isinstance(f, Fn):
            raise AnalysisBroken('extract_mace_data in ' + FILE)
        self.fn, self.ip = f, ip
        kw = {'num_spline_points': self.cfg.n}
        if self.cfg.species is not None:
            kw['species'] = list(self.cfg.species)
        if self.cfg.head is not None:
            kw['head'] = self.cfg.head
        return ip.call_fn(f, ['model.pt'], kw)


# ---------------------------------------------------------------- what the file has to hold
def expected(cfg):
    C, nZ, L, n = cfg.C, len(cfg.zs), cfg.L_max, cfg.n
    mi = [list(cfg.zs).index(z) for z in cfg.sel]
    rc, scale, shift = var('torch.r_max'), var('torch.scale'), var('torch.shift')
    h = rc * inv(poly(n - 1))
    s = lambda x: topoly(1 / math.sqrt(x))
    flat = lambda a: [x for x in np.asarray(a, dtype=object).reshape(-1)]
    r = [h * i + poly(0) for i in range(n)]
    pairs = [tuple(sorted((mi[a], mi[b]))) for a in range(len(mi)) for b in range(a, len(mi))]
    out = {'num_channels': C, 'r_cut': rc, 'l_max': LMAX, 'L_max': L, 'atomic_numbers': list(cfg.sel), 'num_elements': len(cfg.sel), 'has_zbl': bool(cfg.zbl),
           'A0_scaled': bool(cfg.dens[0]), 'A1_scaled': bool(cfg.dens[1])}
    out['atomic_energies'] = [ten('E0', 1, nZ)[0, m] + shift for m in mi]
    if cfg.zbl:
        out.update(zbl_a_exp=var('torch.a_exp'), zbl_a_prefactor=var('torch.a_pre'), zbl_c=[x * scale for x in ten('zblc', 4)], zbl_covalent_radii=list(ten('zblr', 5)), zbl_p=6)
    grid = [poly(T.Fraction(1, 10 ** 12)) + (rc - poly(T.Fraction(1, 10 ** 12))) * inv(poly(n - 1)) * i for i in range(n)]
    bes = lambda p: [[F('bes', b, p[0], p[1], x) for b in (0, 1)] for x in grid]
    out['radial_spline_h'] = h
    for q in (0, 1):
        K = (LMAX + 1) * C if q == 0 else len(cfg.paths) * C
        vals = [[[F('R', q, k, *row) for row in bes(p)] for k in range(K)] for p in pairs]
        out['radial_spline_values_%d' % q] = vals
        out['radial_spline_derivs_%d' % q] = [[[F('dspl', i, *y) for i in range(n)] for y in t] for t in vals]
        if cfg.dens[q]:
            v = []
            for p in pairs:
                v.append([F('tanh', F('dens', q, 0, *row) * F('dens', q, 0, *row)) for row in bes(p)])
            out['A%d_spline_h' % q] = h
            out['A%d_spline_values' % q] = v
            out['A%d_spline_derivs' % q] = [[F('dspl', i, *y) for i in range(n)] for y in v]
    emb, up0 = ten('embed', nZ * C).reshape(nZ, C), ten('up0', C * C).reshape(C, C)
    out['H0_weights'] = [sum((emb[m, q] * s(nZ) * up0[q, k] * s(C) for q in range(C)), poly(0)) for m in mi for k in range(C)]
    a0 = []
    for m in mi:
        row = []
        for l in range(LMAX + 1):
            w = ten('lin0', (LMAX + 1) * C * C).reshape(LMAX + 1, C, C)[l]
            sk = ten('skip0.%d' % l, C, nZ, C)[:, m, :]
            f = s(C) * s(nZ * C) * (poly(1) if cfg.dens[0] else inv(var('torch.avg0')))
            row.append([x * f for x in flat(np.dot(w, sk))])
        a0.append(row)
    out['A0_weights'] = a0
    p0, up1 = ten('prod0', (L + 1) * C * C).reshape(L + 1, C, C), ten('up1', (L + 1) * C * C).reshape(L + 1, C, C)
    out['H1_weights'] = [x * s(C) * s(C) for l in range(L + 1) for x in flat(np.dot(p0[l], up1[l]))]
    out['Phi1_l'], out['Phi1_l1'], out['Phi1_l2'] = [[p[q] for p in cfg.paths] for q in range(3)]
    w1 = ten('lin1', sum(cfg.neta) * C * C)
    o, a1 = 0, []
    for l in range(LMAX + 1):
        k = cfg.neta[l] * C * C
        f = s(cfg.neta[l] * C) * (poly(1) if cfg.dens[1] else inv(var('torch.avg1')))
        a1.append([x * f for x in w1[o:o + k]])
        o += k
    out['A1_weights'] = a1
    U = [[x * s(C) for x in row] for row in up1[0]]
    if C == 1:
        I = [[inv(U[0][0])]]
    else:
        d = inv(U[0][0] * U[1][1] - U[0][1] * U[1][0])
        I = [[U[1][1] * d, -U[0][1] * d], [-U[1][0] * d, U[0][0] * d]]
    I = np.array(I, dtype=object)
    out['H2_weights_for_H1'] = [[x * s(nZ * C) for x in flat(np.dot(I, ten('skip1.0', C, nZ, C)[:, m, :]))] for m in mi]
    out['H2_weights_for_M1'] = [x * s(C) for x in ten('prod1', C * C)]
    out['readout_1_weights'] = [x * s(C) * scale for x in np.dot(I, ten('read0', C))]
    r1 = ten('read1', C * 16)
    out['readout_2_weights_1'] = [r1[i * 16 + j] * s(C) for j in range(16) for i in range(C)]
    out['readout_2_weights_2'] = [x * poly(T.Fraction(1, 4)) * scale for x in ten('read2', 16)]
    out['readout_2_scale_factor'] = var('torch.cst')
    return out


def contraction(cfg, q, l, m, mz, k):
    """monomial -> coefficient of the symmetric contraction"""
    nZ, C = len(cfg.zs), cfg.C
    out = {}
    for corr in (1, 2, 3):
        t = uconst(corr, l)[m]
        W = ten('con%d.%d.%d' % (q, l, corr), nZ, ueta(corr, l), C)
        for i in zip(*np.nonzero(t)):
            key = tuple(sorted(int(x) for x in i[:-1]))
            out[key] = out.get(key, poly(0)) + W[mz, i[-1], k] * topoly(float(t[i]))
    return out


FNS = {n: (lambda pt, a, n=n: gval(n, tuple(int(x) for x in a[:k_of(n)]), [float(x) for x in a[k_of(n):]])) for n in ('bes', 'R', 'dens', 'dspl')}
FNS['tanh'] = lambda pt, a: math.tanh(float(a[0]))


def k_of(n):
    return {'bes': 3, 'R': 2, 'dens': 2, 'dspl': 1}[n]


def mkpt(s):
    def reals(kind, name, path):
        if name == 'torch.r_max':
            return 4.5 + s
        return 0.4 + h01('w', s, name, path)
    return Point(s, None, {}, reals, fns=FNS)


def differ(x, y, P):
    """'' if two entries are the same number for every model"""
    if isinstance(x, (bool, np.bool_)) or isinstance(y, bool):
        return '' if isinstance(x, (bool, np.bool_)) and bool(x) == bool(y) else 'is %s, not %s' % (x, y)
    if not isinstance(x, (int, float, Poly, np.generic)):
        return 'is not a number (%s)' % type(x).__name__
    a, b = topoly(x), topoly(y)
    if a == b:
        return ''
    if taints(a):
        raise Unsupported('term %s' % taints(a)[:1])
    for pt in P:
        u, v = float(pt.poly(a, {})), float(pt.poly(b, {}))
        if abs(u - v) > 1e-8 * max(abs(u), abs(v), 1e-2):
            return 'is %.10g where the model gives %.10g' % (u, v)
    return ''


def tree(x, y, P, at=''):
    if isinstance(y, list):
        if isinstance(x, np.ndarray):
            return '%s is an array, which JSON cannot hold' % (at or 'it')
        if not isinstance(x, (list, tuple)):
            return '%s is %s, not a list' % (at or 'it', type(x).__name__)
        if len(x) != len(y):
            return '%s has %d entries, not %d' % (at or 'it', len(x), len(y))
        for i, (a, b) in enumerate(zip(x, y)):
            r = tree(a, b, P, at + '[%d]' % i)
            if r:
                return r
        return ''
    if isinstance(x, np.ndarray):
        return '%s is an array, which JSON cannot hold' % (at or 'it')
    d = differ(x, y, P)
    return '%s %s' % (at or 'it', d) if d else ''


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return x


def contractions(cfg, out, P):
    L = cfg.L_max
    w0, m0, w1, m1 = out['M0_weights'], out['M0_monomials'], out['M1_weights'], out['M1_monomials']
    mi = [list(cfg.zs).index(z) for z in cfg.sel]

    def cmp(where, ws, ms, want):
        if not isinstance(ws, list) or len(ws) != len(ms):
            return '%s: %s weights for %d monomials' % (where, len(ws) if isinstance(ws, list) else type(ws).__name__, len(ms))
        have = {}
        for m, w in zip(ms, ws):
            k = tuple(sorted(int(x) for x in m))
            have[k] = topoly(w) + have.get(k, poly(0))
        for k in set(have) | set(want):
            d = differ(have.get(k, poly(0)), want.get(k, poly(0)), P)
            if d:
                return '%s: the coefficient of monomial %s %s' % (where, list(k), d)
        return ''
    if set(w0) != {str(i) for i in range(len(mi))} or set(m0) != {str(i) for i in range((L + 1) ** 2)} or set(w1) != set(w0):
        return 'keys of the polynomial tables: %s, %s, %s' % (sorted(w0), sorted(m0), sorted(w1))
    for i, mz in enumerate(mi):
        for k in range(cfg.C):
            for l in range(L + 1):
                for m in range(2 * l + 1):
                    lm = str(l * l + m)
                    r = cmp('M0, element %d, lm %s, channel %d' % (i, lm, k), w0[str(i)][lm][str(k)], m0[lm], contraction(cfg, 0, l, m, mz, k))
                    if r:
                        return r
            r = cmp('M1, element %d, channel %d' % (i, k), w1[str(i)][str(k)], m1, contraction(cfg, 1, 0, 0, mz, k))
            if r:
                return r
    return ''


def couplings(cfg, out):
    """the sparse coupling table, as the evaluators index it"""
    start, lme0, want = [], [], {}
    q = 0
    for l, l1, l2 in cfg.paths:
        start.append(q)
        q += (2 * l1 + 1) * (2 * l2 + 1)
    base = [sum((2 * a + 1) * cfg.neta[a] for a in range(l)) for l in range(LMAX + 1)]
    seen = [0] * (LMAX + 1)
    for le, (l, l1, l2) in enumerate(cfg.paths):
        e = seen[l]
        seen[l] += 1
        for m in range(2 * l + 1):
            for a in range(2 * l1 + 1):
                for b in range(2 * l2 + 1):
                    c = cg(l1, a - l1, l2, b - l2, l, m - l)
                    if c:
                        want[base[l] + m * cfg.neta[l] + e, start[le] + a * (2 * l2 + 1) + b] = c
    x, y, z = out['Phi1_lme'], out['Phi1_lelm1lm2'], out['Phi1_clebsch_gordan']
    if not (isinstance(x, list) and isinstance(y, list) and isinstance(z, list) and len(x) == len(y) == len(z)):
        return 'the three arrays of the coupling table differ in length or are not lists'
    have = {}
    for a, b, c in zip(x, y, z):
        have[int(a), int(b)] = have.get((int(a), int(b)), 0.0) + float(num(c))
    for k in set(have) | set(want):
        if abs(have.get(k, 0.0) - want.get(k, 0.0)) > 1e-9:
            return 'coupling of product %d into component %d is %.6g, the tensor product gives %.6g' % (k[1], k[0], have.get(k, 0.0), want.get(k, 0.0))
    return ''


def read_keys():
    """entries each loader reads: (name, conditional, where)"""
    out = []
    for src, owner in (('mace.cpp', 'MACE'), ('mace_kokkos.cpp', 'MACEKokkos')):
        p = program(src)
        n = 0
        for tu in p.tus.values():
            for fid, fn in tu.funcs.items():
                if fn.get('name') != 'load_from_json' or body(fn) is None:
                    continue

                def walk(x, cond):
                    nonlocal n
                    if not isinstance(x, dict):
                        return
                    if x.get('kind') == 'CXXOperatorCallExpr' or x.get('kind') == 'CXXMemberCallExpr':
                        ks = [c for c in x.get('inner', []) if isinstance(c, dict) and c.get('kind')]
                        t = ks[1].get('type', {}).get('qualType', '') if x['kind'] == 'CXXOperatorCallExpr' and len(ks) > 2 else ''
                        if 'json' in t:
                            s = ks[2]
                            while s.get('kind') != 'StringLiteral' and s.get('inner'):
                                s = s['inner'][-1]
                            if s.get('kind') == 'StringLiteral':
                                out.append((s['value'].strip('"'), cond, cwhere(x), owner))
                                n += 1
                    for c in x.get('inner', []) or []:
                        walk(c, cond or x.get('kind') == 'IfStmt')
                walk(body(fn), False)
                break
        if not n:
            raise AnalysisBroken('load_from_json in ' + src)
    return out


SPECIAL = ('M0_weights', 'M0_monomials', 'M1_weights', 'M1_monomials', 'Phi1_lme', 'Phi1_lelm1lm2', 'Phi1_clebsch_gordan')
REJECT = [('layers', 'three interactions'), ('one layer', 'one interaction'), ('first', 'a first interaction of another kind'), ('second', 'a second interaction of another kind'), ('l_max', 'l_max 2'),
          ('zbl', 'another pair repulsion'), ('rank', 'singular weights between the layers'), ('correlation 0', 'correlation 4 in the first layer'), ('correlation 1', 'correlation 4 in the second layer')]


def p_extract(ck):
    ck.rule('entry', 'each entry of the returned dictionary, as a term in the weights of the torch model, equals the number the MACE layer definitions give for it, in the nesting and order in which the evaluators index it')
    ck.rule('keys', 'every entry the C++ loaders read is written; those they read conditionally at least when the model has what they describe')
    ck.rule('clamped', 'every radial table ends with slope zero at the cutoff')
    ck.rule('rejected', 'a model outside of what the evaluators support raises instead of being written')
    ck.assume('torch, e3nn, mace, scipy and numpy do what they document; e3nn normalises linear layers by 1/sqrt(fan in) and the two-input layers by 1/sqrt(channels x elements)')
    ck.assume('the generalised Clebsch-Gordan tables are sparse constants; l_max is 3 and the correlation order 3, as the extractor demands')
    P = [mkpt(s) for s in range(2)]
    try:
        keys = read_keys()
    except AnalysisBroken as e:
        ck.und('keys', '', 'anchor not found: %s' % e)
        keys = []
    for cfg in CFGS:
        ck.attempt('entries/' + cfg.label, one, ck, cfg, P, keys, limit=160)
    small = dict(zs=(8, 1), species=[8], want=[8], C=1, L_max=0, paths=[(0, 0, 0), (1, 1, 0), (2, 2, 0), (3, 3, 0)])
    for bad, text in REJECT:
        def rej():
            w = World(Cfg(bad, zbl=(bad == 'zbl'), **small), bad)
            oid = 'rejected/' + text
            try:
                w.run()
            except PyRaise as e:
                ck.ok(oid, w.ip.where(e.node) if e.node is not None else FILE, 'raises %s' % e.kind)
                return
            ck.bad(oid, w.ip.where(w.fn.node), 'a model with %s is written without complaint' % text)
        ck.attempt('rejected/' + text, rej, limit=100)

    def unknown():
        w = World(Cfg('unknown species', **dict(small, species=['Xx'], want=[])))
        try:
            w.run()
        except PyRaise as e:
            ck.decide('rejected/an unknown species', FILE, e.kind == 'ValueError', 'an unknown species raises %s' % e.kind)
            return
        ck.bad('rejected/an unknown species', w.ip.where(w.fn.node), 'an unknown species is accepted')
    ck.attempt('rejected/an unknown species', unknown, limit=60)

    def foreign():
        w = World(Cfg('species the model lacks', **dict(small, species=['He'], want=[])))
        try:
            w.run()
        except PyRaise:
            ck.ok('rejected/a species the model lacks', FILE)
            return
        ck.bad('rejected/a species the model lacks', w.ip.where(w.fn.node), 'a species the model has no weights for is accepted')
    ck.attempt('rejected/a species the model lacks', foreign, limit=60)
    from cli import p_cli
    p_cli(ck)


def one(ck, cfg, P, keys):
    w = World(cfg)
    base = cfg.label + '/'
    try:
        out = w.run()
    except PyRaise as e:
        wh = w.ip.where(e.node) if e.node is not None else FILE
        ck.analysed('extract_mace_data')
        if e.kind == 'NameError':
            raise Unsupported('name %s' % e.text)
        ck.bad(base + 'returns', wh, 'the extraction of a supported model raises %s: %s' % (e.kind, e.text))
        return
    wh = w.ip.where(w.fn.node)
    for f in set(w.ip.calls):
        ck.analysed(f)
    if not isinstance(out, dict):
        raise Unsupported('result of the extractor')
    out = plain(out)
    for name, cond, kw, owner in keys:
        need = not cond or (('zbl' in name and cfg.zbl) or (name.startswith('A0') and cfg.dens[0]) or (name.startswith('A1') and cfg.dens[1]))
        if need:
            ck.decide(base + 'keys/%s/%s' % (owner, name), kw, name in out, '%s reads %s, which the extractor does not write for this model' % (owner, name))
    if cfg.heads and len(cfg.heads) > 1:
        ck.decide(base + 'head', wh, w.head_seen == cfg.head, 'head %r asked for, %r kept' % (cfg.head, w.head_seen))
    for k, v in expected(cfg).items():
        oid = base + k
        if k not in out:
            ck.bad(oid, wh, 'entry %s is missing' % k)
            continue
        try:
            r = tree(out[k], v, P)
        except (CannotEval, Domain, Unsupported) as e:
            ck.und(oid, wh, 'term cannot be compared: %s' % e)
            continue
        ck.decide(oid, wh, not r, 'entry %s: %s' % (k, r))
    for name, f in (('M0, M1', lambda: contractions(cfg, out, P)), ('Phi1 couplings', lambda: couplings(cfg, out))):
        try:
            miss = [k for k in SPECIAL if (k[0] == 'M') == (name[0] == 'M') and k not in out]
            r = 'entry %s is missing' % miss[0] if miss else f()
        except (CannotEval, Domain, Unsupported) as e:
            ck.und(base + name, wh, 'term cannot be compared: %s' % e)
            continue
        except (KeyError, TypeError, AttributeError) as e:
            r = 'not nested as the evaluators read it (%s)' % e
        ck.decide(base + name, wh, not r, r)
    bad = [b for b, _n in w.splines if not ok_bc(b)]
    ck.decide(base + 'clamped', wh, not bad and bool(w.splines), 'a radial table is built with end conditions %s' % (bad[:1],))


def ok_bc(b):
    if not isinstance(b, (tuple, list)) or len(b) != 2:
        return b == 'clamped'
    return b[1] == 'clamped' or (isinstance(b[1], tuple) and b[1][0] == 1 and float(b[1][1]) == 0.0)
