"""MACE evaluation: the whole chain of stages at constant system configurations,
symbolic model parameters and geometry."""
import copy
import math
from cpp import *
from peval import gradient, h01, CannotEval, Domain
from values import Unsupported, Str
import interp as I

SRC = ('mace.cpp', 'zbl.cpp', 'cubic_spline.cpp', 'cubic_spline_set.cpp', 'multilayer_perceptron.cpp', 'multivariate_polynomial.cpp', 'tools.cpp')


class Cfg:
    def __init__(self, label, types, edges, nel, C, l_max, L_max, paths, cg, scaled=False, zbl=False, ghosts=()):
        """edges: per node list of neighbour node indices; paths: (l, l1, l2) sorted by l"""
        self.label, self.types, self.edges, self.nel, self.C, self.l_max, self.L_max, self.paths = label, types, edges, nel, C, l_max, L_max, paths
        self.N = len(edges)
        self.pairs = [(i, j) for i, js in enumerate(edges) for j in js]
        self.ntypes = [types[j] for _i, j in self.pairs]
        self.sc0, self.sc1 = scaled if isinstance(scaled, tuple) else (scaled, scaled)
        self.zbl = zbl
        self.num_lm, self.num_LM = (l_max + 1) ** 2, (L_max + 1) ** 2
        self.num_e = [sum(1 for p in paths if p[0] == l) for l in range(l_max + 1)]
        self.num_lme = sum(2 * p[0] + 1 for p in paths)
        self.num_lelm = sum((2 * a + 1) * (2 * b + 1) for _l, a, b in paths)
        self.cg = [(x % self.num_lme, y % self.num_lelm) for x, y in cg]

    def tij(self, a, b):
        """position of the unordered element pair in the table order (0,0),(0,1),...,(1,1),..."""
        a, b = min(a, b), max(a, b)
        return sum(self.nel - q for q in range(a)) + (b - a)


CG = [(0, 3), (1, 0), (2, 5), (2, 7), (4, 11), (5, 2), (3, 8), (7, 13), (6, 9), (0, 6), (8, 4), (9, 1)]
CFGS = [
    Cfg('3 nodes (2,0,3 neighbours), 3 elements, 2 channels, l_max 2, L_max 1', [2, 0, 1], [[1, 2], [], [0, 0, 1]], 3, 2, 2, 1,
        [(0, 0, 0), (0, 1, 1), (1, 1, 0), (1, 2, 1), (1, 0, 1), (2, 2, 0)], CG, scaled=True, zbl=True),
    Cfg('2 nodes (1,2 neighbours), 2 elements, 3 channels, l_max 1, L_max 0, second layer scaled', [1, 0], [[1], [0, 0]], 2, 3, 1, 0,
        [(0, 0, 0), (1, 1, 0)], CG, scaled=(False, True)),
    Cfg('4 nodes, 4 elements, 1 channel, l_max 1, L_max 1, scaled', [3, 1, 2, 0], [[1, 2, 3], [2, 3], [3, 0], []], 4, 1, 1, 1,
        [(0, 0, 0), (0, 1, 1), (1, 1, 0), (1, 0, 1), (1, 1, 1)], CG, scaled=True, zbl=False),
    Cfg('2 nodes, 1 element, 2 channels, l_max 2, L_max 2, first layer scaled', [0, 0], [[1, 1], [0]], 1, 2, 2, 2,
        [(0, 0, 0), (1, 1, 2), (1, 2, 1), (2, 2, 2)], CG, scaled=(True, False), zbl=True),
    Cfg('2 isolated nodes, 2 elements', [0, 1], [[], []], 2, 2, 1, 1, [(0, 0, 0), (1, 0, 1)], CG[:3], zbl=True),
]

AGAIN = [
    Cfg('2 nodes (1,2 neighbours), 2 elements, 2 channels, l_max 1, L_max 1, scaled, ZBL', [1, 0], [[1], [0, 0]], 2, 2, 1, 1,
        [(0, 0, 0), (0, 1, 1), (1, 1, 0), (1, 0, 1)], CG, scaled=True, zbl=True),
]

DEEP = [
    Cfg('3 nodes, 2 elements, 2 channels, l_max 3, L_max 2, scaled, ZBL', [0, 1, 0], [[1, 2], [0], [1, 0]], 2, 2, 3, 2,
        [(0, 0, 0), (0, 2, 2), (1, 1, 0), (1, 2, 1), (2, 1, 1), (3, 3, 0), (3, 1, 2)], CG, scaled=True, zbl=True),
]

P0 = [(0, 0, 0), (1, 1, 0)]


def larger(k):
    """configurations with one size beyond k"""
    out = []
    n = k + 2
    e = [[] for _ in range(n)]
    e[0], e[-1], e[n // 2] = [n - 1], [0, n - 2], [n - 1]
    out.append(Cfg('%d nodes' % n, [i % 2 for i in range(n)], e, 2, 1, 1, 0, P0, CG[:4], scaled=True))
    out.append(Cfg('%d neighbours' % n, [1, 0], [[1 - q % 2 for q in range(n)], [0]], 2, 1, 1, 0, P0, CG[:4], scaled=True))
    if k <= 40:
        out.append(Cfg('%d channels' % n, [1, 0], [[1], [0]], 2, n, 0, 0, [(0, 0, 0)], CG[:2]))
    if k <= 6:
        out.append(Cfg('l_max %d' % (k + 1), [1, 0], [[1], [0]], 2, 1, k + 1, 1, [(l, l, 0) for l in range(k + 2)] + [(k + 1, k, 1)], CG[:6]))
    if k <= 12:
        out.append(Cfg('%d elements' % n, [n - 1, 0, n // 2], [[1, 2], [0], [0, 1]], n, 1, 0, 0, [(0, 0, 0)], CG[:2], zbl=True))
    m = min(n, 100)
    out.append(Cfg('%d coupling terms' % m, [1, 0], [[1], [0]], 2, 1, 2, 1, [(0, 0, 0), (0, 1, 1), (1, 1, 0), (1, 2, 1), (1, 0, 1), (2, 2, 0)], [(q, 3 * q + q // 7) for q in range(m)]))
    return out


# ---------------------------------------------------------------- uninterpreted smooth functions
def coef(name, *k):
    return (h01('G', name, k) * 1.4 - 0.6) * 0.5


def split(args):
    """leading integers identify the function, the rest are its real arguments"""
    return args


def gval(name, ids, xs):
    v = coef(name, ids, 'c')
    for i, x in enumerate(xs):
        v += coef(name, ids, i) * x + 0.5 * coef(name, ids, i, i) * x * x
        if i + 1 < len(xs):
            v += 0.5 * coef(name, ids, i, i + 1) * x * xs[i + 1]
    return v


def gder(name, ids, xs, a):
    v = coef(name, ids, a) + coef(name, ids, a, a) * xs[a]
    if a + 1 < len(xs):
        v += 0.5 * coef(name, ids, a, a + 1) * xs[a + 1]
    if a > 0:
        v += 0.5 * coef(name, ids, a - 1, a) * xs[a - 1]
    return v


NIDS = {'spl': 2, 'spl1d': 1, 'S': 1, 'P': 1, 'R2': 1}      # leading identifying arguments


def idv(x):
    return x if isinstance(x, str) else int(x)


def mkfns():
    f, d = {}, {}
    for n, k in NIDS.items():
        def val(pt, a, n=n, k=k):
            return gval(n, tuple(idv(x) for x in a[:k]), [float(x) for x in a[k:]])

        def der(pt, a, n=n, k=k):
            # first argument: which real argument
            return gder(n, tuple(idv(x) for x in a[1:k + 1]), [float(x) for x in a[k + 1:]], int(a[0]))

        def dval(pt, a, n=n, k=k):
            ids, xs = tuple(idv(x) for x in a[:k]), [float(x) for x in a[k:]]
            return [0] * k + [gder(n, ids, xs, i) for i in range(len(xs))]
        f[n] = val
        f[n + '.d'] = der
        d[n] = dval
    return f, d


FNS, DFNS = mkfns()


def F(name, *a):
    return poly(Atom('fn', name, *[x if isinstance(x, str) else poly(x) for x in a]))


# ---------------------------------------------------------------- models of the evaluated sub-objects
class Objects:
    """sub-objects are identified by what they were constructed from"""

    def __init__(self):
        self.names = []

    def new(self, ip, name, **fields):
        if name not in self.names:
            self.names.append(name)
        r = ip.tmp()
        ip.store(r.sub('objid'), poly(self.names.index(name)))
        for k, v in fields.items():
            ip.store(r.sub(k), poly(v))
        return r

    def of(self, ip, b):
        if not isinstance(b, Loc):
            raise Unsupported('object')
        v = ip.load(b.sub('objid'), 'int')
        c = v.const() if isinstance(v, Poly) else None
        if c is None:
            return 'unknown object %s' % (v,)
        return self.names[int(c)]


def origin(ip, v, depth):
    """where the contents of a container come from"""
    if depth == 0:
        return ip.val(v, 'double').key
    out = []
    for base in (0, 1):
        l = v
        for q in range(depth):
            l = l.at(poly(base * (q + 1))) if isinstance(l, Ptr) else l.sub(poly(base * (q + 1)))
        x = ip.load(l, 'double')
        t = [a for m in x.t for a, _e in m] if isinstance(x, Poly) else []
        if len(t) != 1 or t[0].kind != 'read' or x != poly(t[0]):
            return 'values %s' % (x,)
        root, path = t[0].args
        path = list(path)
        for q in reversed(range(depth)):
            y = path.pop()
            if isinstance(y, str) or y != poly(base * (q + 1)):
                return 'reordered %s' % x
        out.append(root + ''.join('.' + y if isinstance(y, str) else '[%s]' % y for y in path))
    return out[0] if out[0] == out[1] else 'mixed %s' % out


def vec_of(ip, v, t='double'):
    n = ip.container_size(v)
    c = n.const()
    if c is None:
        raise Unsupported('vector length')
    if isinstance(v, Ptr):
        return [ip.load(v.at(poly(i)), t) for i in range(int(c))]
    return [ip.load(v.sub(poly(i)), t) for i in range(int(c))]


def put(ip, dst, i, v, n):
    l = dst.at(poly(i)) if isinstance(dst, Ptr) else dst.sub(poly(i))
    ip.store(l, v, node=n)


def newvec(ip, vals, n):
    r = ip.tmp()
    for i, v in enumerate(vals):
        ip.store(r.sub(poly(i)), v, node=n)
    ip.set_size(r, poly(len(vals)))
    return r


def sc(ip, v):
    return ip.val(v, 'double')


def spanv(ip, v):
    if isinstance(v, Loc) and not v.path and isinstance(ip.st.cells.get(v.root), Ptr):
        return ip.st.cells[v.root]
    return v


def models(cfg, ob):
    nspl = {'0': (cfg.l_max + 1) * cfg.C, '1': len(cfg.paths) * cfg.C}

    def set_new(ip, b, args, n):
        h, v, d = args
        name = 'spline-set(%s, %s, %s)' % (origin(ip, h, 0), origin(ip, v, 2), origin(ip, d, 2))
        K = nspl['0' if 'values_0' in name else '1']
        return ob.new(ip, name, num_splines=K)

    def spl_new(ip, b, args, n):
        return ob.new(ip, 'spline(%s, %s, %s)' % (origin(ip, args[0], 0), origin(ip, args[1], 1), origin(ip, args[2], 1)))

    def pol_new(ip, b, args, n):
        if len(args) != 3:
            raise Unsupported('polynomial constructor')
        return ob.new(ip, 'polynomial(%s, %s, %s)' % (origin(ip, args[0], 0), origin(ip, args[1], 1), origin(ip, args[2], 2)))

    def mlp_new(ip, b, args, n):
        sh = vec_of(ip, args[0], 'int')
        w = [origin(ip, args[1].sub(poly(q)), 1) for q in range(len(sh) - 1)]
        return ob.new(ip, 'mlp(%s, %s, %s)' % ([str(x) for x in sh], w, origin(ip, args[2], 0)))

    def set_vals(kind):
        def m(ip, b, args, n):
            if ip.discover:
                return None
            idx = ob.of(ip, b)
            r = sc(ip, args[0])
            K = int(ip.load(b.sub('num_splines'), 'int').const())
            if kind == 'evaluate' and len(args) == 1:
                return newvec(ip, [F('spl', idx, k, r) for k in range(K)], n)
            if kind in ('evaluate_derivs', 'evaluate_deriv') and len(args) == 1:
                return Tup([newvec(ip, [F('spl', idx, k, r) for k in range(K)], n), newvec(ip, [F('spl.d', 0, idx, k, r) for k in range(K)], n)])
            outs = [spanv(ip, a) for a in args[1:]]
            for q, o in enumerate(outs):
                for k in range(K):
                    put(ip, o, k, F('spl', idx, k, r) if q == 0 else F('spl.d', 0, idx, k, r), n)
            return None
        return m

    def spl1(kind):
        def m(ip, b, args, n):
            if ip.discover:
                return None
            idx = ob.of(ip, b)
            r = sc(ip, args[0])
            v, d = F('spl1d', idx, r), F('spl1d.d', 0, idx, r)
            if kind == 'evaluate':
                return v
            if kind == 'evaluate_deriv_divided':
                return Tup([v, d * inv(r)])
            return Tup([v, d])
        return m

    def pol(kind):
        def m(ip, b, args, n):
            if ip.discover:
                return None
            idx = ob.of(ip, b)
            xs = vec_of(ip, args[0])
            if len(xs) < cfg.num_lm:
                raise Unsupported('short polynomial input')
            xs = xs[:cfg.num_lm]
            v = F('P', idx, *xs)
            if kind in ('evaluate', 'evaluate_simple'):
                return v
            return Tup([v, newvec(ip, [F('P.d', a, idx, *xs) for a in range(len(xs))], n)])
        return m

    def mlp(kind):
        def m(ip, b, args, n):
            if ip.discover:
                return None
            idx = ob.of(ip, b)
            xs = vec_of(ip, args[0])
            v = newvec(ip, [F('R2', idx, *xs)], n)
            if kind == 'evaluate':
                return v
            return Tup([v, newvec(ip, [F('R2.d', a, idx, *xs) for a in range(len(xs))], n)])
        return m

    def sph(grad):
        def m(ip, b, args, n):
            if ip.discover:
                return None
            xs = vec_of(ip, args[0])
            ny = ip.container_size(args[1]).const()
            num = len(xs) // 3
            lm = ip.load(Loc(b.root + '.lmax'), 'int').const()
            if lm is None:
                raise Unsupported('degree of the spherical harmonics')
            nl = (int(lm) + 1) ** 2
            if ny is None or ny < num * nl:
                raise Unsupported('spherical harmonic buffer')
            for i in range(num):
                c = xs[3 * i:3 * i + 3]
                for lm in range(nl):
                    put(ip, args[1], i * nl + lm, F('S', lm, *c), n)
                    if grad:
                        for a in range(3):
                            put(ip, args[2], 3 * i * nl + a * nl + lm, F('S.d', a, lm, *c), n)
            return None
        return m
    out = {'CubicSplineSet::CubicSplineSet': set_new, 'CubicSpline::CubicSpline': spl_new, 'MultivariatePolynomial::MultivariatePolynomial': pol_new,
           'MultilayerPerceptron::MultilayerPerceptron': mlp_new}
    for k in ('evaluate', 'evaluate_deriv', 'evaluate_derivs'):
        out['CubicSplineSet::' + k] = set_vals(k)
    for k in ('evaluate', 'evaluate_deriv', 'evaluate_deriv_divided'):
        out['CubicSpline::' + k] = spl1(k)
    for k in ('evaluate', 'evaluate_simple', 'evaluate_gradient', 'evaluate_gradient_simple'):
        out['MultivariatePolynomial::' + k] = pol(k)
    for k in ('evaluate', 'evaluate_gradient'):
        out['MultilayerPerceptron::' + k] = mlp(k)
    def sph_new(ip, b, a, n):
        r = ip.tmp()
        ip.st.cells[r.root + '.lmax'] = ip.val(a[0], 'int')
        return r
    S = 'sphericart::SphericalHarmonics<double>'
    out[S + '::compute_with_gradients'] = sph(True)
    out[S + '::compute'] = sph(False)
    out[S + '::SphericalHarmonics<double>'] = sph_new
    out[S + '::SphericalHarmonics'] = sph_new
    return out


def put_int(ip, root, vals):
    ip.st.cells[root + '.#n'] = poly(len(vals))
    for i, v in enumerate(vals):
        ip.store(Loc(root, (poly(i),)), poly(v))


FK = 'file.k:'
BUFFERS = ('node_energies', 'node_forces', 'R0', 'R0_deriv', 'R1', 'R1_deriv', 'Y', 'Y_grad', 'xyz_shuffled', 'A0', 'A0_adj', 'M0', 'M0_grad', 'M0_adj', 'H1', 'H1_adj', 'Phi1r', 'dPhi1r',
           'Phi1', 'dPhi1', 'A1', 'A1_adj', 'M1', 'M1_grad', 'M1_adj', 'H2', 'H2_adj')


def entry(ip, cfg):
    """contents of the model file"""
    c = ip.st.cells
    for k, v in (('num_elements', cfg.nel), ('num_channels', cfg.C), ('l_max', cfg.l_max), ('L_max', cfg.L_max),
                 ('A0_scaled', int(cfg.sc0)), ('A1_scaled', int(cfg.sc1)), ('has_zbl', int(cfg.zbl))):
        c[FK + k] = poly(v)
    c[FK + 'zbl_p'] = poly(ZP)
    c[FK + 'zbl_c.#n'] = poly(4)
    c[FK + 'zbl_covalent_radii.#n'] = poly(119)
    C = cfg.C
    put_int(ip, FK + 'atomic_numbers', ZNUM[:cfg.nel])
    put_int(ip, FK + 'Phi1_l', [p[0] for p in cfg.paths])
    put_int(ip, FK + 'Phi1_l1', [p[1] for p in cfg.paths])
    put_int(ip, FK + 'Phi1_l2', [p[2] for p in cfg.paths])
    put_int(ip, FK + 'Phi1_lme', [p[0] for p in cfg.cg])
    put_int(ip, FK + 'Phi1_lelm1lm2', [p[1] for p in cfg.cg])
    npair = cfg.nel * (cfg.nel + 1) // 2
    for k, v in (('atomic_energies', cfg.nel), ('Phi1_clebsch_gordan', len(cfg.cg)), ('H0_weights', cfg.nel * C), ('H1_weights', (cfg.L_max + 1) * C * C),
                 ('H2_weights_for_M1', C * C), ('readout_1_weights', C), ('radial_spline_values_0', npair), ('radial_spline_values_1', npair), ('radial_spline_derivs_0', npair),
                 ('radial_spline_derivs_1', npair), ('A0_spline_values', npair), ('A1_spline_values', npair), ('A0_spline_derivs', npair), ('A1_spline_derivs', npair),
                 ('A0_weights', cfg.nel), ('A1_weights', cfg.l_max + 1), ('H2_weights_for_H1', cfg.nel), ('readout_2_weights_1', 16 * C), ('readout_2_weights_2', 16)):
        c['%s%s.#n' % (FK, k)] = poly(v)


def dirty(ip, cfg, p):
    """buffers left behind by an arbitrary earlier evaluation"""
    for k in BUFFERS:
        ip.st.cells['this.%s.#n' % k] = poly(100000)
        ip.st.logs.pop('this.' + k, None)
        ip.defaults.pop('this.' + k, None)


def args(ip, cfg):
    put_int(ip, 'arg.node_types', cfg.types[:cfg.N])
    put_int(ip, 'arg.num_neigh', [len(e) for e in cfg.edges])
    put_int(ip, 'arg.neigh_indices', [j for _i, j in cfg.pairs])
    put_int(ip, 'arg.neigh_types', cfg.ntypes)
    n = len(cfg.pairs)
    ip.st.cells['arg.xyz.#n'] = poly(3 * n)
    ip.st.cells['arg.r.#n'] = poly(n)
    sp = lambda k, m: Ptr('arg.' + k, (), ZERO, size=poly(m))
    return [poly(cfg.N), sp('node_types', cfg.N), sp('num_neigh', cfg.N), sp('neigh_indices', n), sp('neigh_types', n), sp('xyz', 3 * n), sp('r', n)]


# ---------------------------------------------------------------- reference energy at a point
class Generic:
    """sub-objects as uninterpreted functions"""
    @staticmethod
    def spl(pt, q, t, j, r):
        return gval('spl', ('spline-set(%sradial_spline_h, %sradial_spline_values_%d[%d], %sradial_spline_derivs_%d[%d])' % (FK, FK, q, t, FK, q, t), j), [r])

    @staticmethod
    def spl1(pt, q, t, r):
        return gval('spl1d', ('spline(%sA%d_spline_h, %sA%d_spline_values[%d], %sA%d_spline_derivs[%d])' % (FK, q, FK, q, t, FK, q, t),), [r])

    @staticmethod
    def P0(pt, cfg, t, lm, k, xs):
        return gval('P', ('polynomial(%d, %sM0_weights.k:%d.k:%d.k:%d, %sM0_monomials.k:%d)' % (cfg.num_lm, FK, t, lm, k, FK, lm),), xs)

    @staticmethod
    def P1(pt, cfg, t, k, xs):
        return gval('P', ('polynomial(%d, %sM1_weights.k:%d.k:%d, %sM1_monomials)' % (cfg.num_lm, FK, t, k, FK),), xs)

    @staticmethod
    def R2(pt, cfg, xs):
        return gval('R2', ("mlp(%s, %s, %s)" % ([str(cfg.C), '16', '1'], [FK + 'readout_2_weights_1', FK + 'readout_2_weights_2'], FK + 'readout_2_scale_factor'),), xs)

    @staticmethod
    def r(pt, cfg, q):
        return pt.sym('read', 'arg.r', (q,))


def ref_energy(pt, cfg, G=Generic):
    rd = lambda root, *p: pt.sym('read', root, tuple(p))
    C, L = cfg.C, cfg.l_max
    xyz = [[rd('arg.xyz', 3 * p + a) for a in range(3)] for p in range(len(cfg.pairs))]
    r = [G.r(pt, cfg, p) for p in range(len(cfg.pairs))]
    off = []
    q = 0
    for e in cfg.edges:
        off.append(q)
        q += len(e)

    def Y(p, lm):
        x, y, z = xyz[p]
        return 2 * math.sqrt(math.pi) * gval('S', (lm,), [z, x, y])
    ell = lambda lm: int(math.isqrt(lm))
    A0, H1, E = [], [], []
    for i, nb in enumerate(cfg.edges):
        phi = [[0.0] * C for _ in range(cfg.num_lm)]
        scale = 1.0
        for a, j in enumerate(nb):
            p = off[i] + a
            t = cfg.tij(cfg.types[i], cfg.types[j])
            for lm in range(cfg.num_lm):
                for k in range(C):
                    phi[lm][k] += G.spl(pt, 0, t, ell(lm) * C + k, r[p]) * Y(p, lm) * rd(FK + 'H0_weights', cfg.types[j] * C + k)
            scale += G.spl1(pt, 0, t, r[p])
        a0 = [[sum(phi[lm][q] * rd(FK + 'A0_weights', cfg.types[i], ell(lm), q * C + k) for q in range(C)) for k in range(C)] for lm in range(cfg.num_lm)]
        if cfg.sc0:
            a0 = [[x / scale for x in row] for row in a0]
        m0 = [[G.P0(pt, cfg, cfg.types[i], lm, k, [a0[q][k] for q in range(cfg.num_lm)]) for k in range(C)] for lm in range(cfg.num_LM)]
        H1.append([[sum(m0[lm][q] * rd(FK + 'H1_weights', (ell(lm) * C + q) * C + k) for q in range(C)) for k in range(C)] for lm in range(cfg.num_LM)])
    for i, nb in enumerate(cfg.edges):
        ti = cfg.types[i]
        phir = [[0.0] * C for _ in range(cfg.num_lelm)]
        scale = 1.0
        for a, j in enumerate(nb):
            p = off[i] + a
            t = cfg.tij(ti, cfg.types[j])
            q = 0
            for e, (_l, l1, l2) in enumerate(cfg.paths):
                for lm1 in range(l1 * l1, (l1 + 1) ** 2):
                    for lm2 in range(l2 * l2, (l2 + 1) ** 2):
                        for k in range(C):
                            phir[q][k] += G.spl(pt, 1, t, e * C + k, r[p]) * Y(p, lm1) * H1[j][lm2][k]
                        q += 1
            scale += G.spl1(pt, 1, t, r[p])
        phi = [[0.0] * C for _ in range(cfg.num_lme)]
        for q, (lme, le) in enumerate(cfg.cg):
            for k in range(C):
                phi[lme][k] += rd(FK + 'Phi1_clebsch_gordan', q) * phir[le][k]
        a1 = []
        o = 0
        for l in range(L + 1):
            ne = cfg.num_e[l]
            for m in range(2 * l + 1):
                a1.append([sum(phi[o + m * ne + e][q] * rd(FK + 'A1_weights', l, (e * C + q) * C + k) for e in range(ne) for q in range(C)) for k in range(C)])
            o += (2 * l + 1) * ne
        if cfg.sc1:
            a1 = [[x / scale for x in row] for row in a1]
        m1 = [G.P1(pt, cfg, ti, k, [a1[q][k] for q in range(cfg.num_lm)]) for k in range(C)]
        h2 = [sum(H1[i][0][q] * rd(FK + 'H2_weights_for_H1', ti, q * C + k) + m1[q] * rd(FK + 'H2_weights_for_M1', q * C + k) for q in range(C)) for k in range(C)]
        e = rd(FK + 'atomic_energies', ti) + sum(rd(FK + 'readout_1_weights', k) * H1[i][0][k] for k in range(C)) + G.R2(pt, cfg, h2)
        if cfg.zbl:
            for a, j in enumerate(nb):
                e += ref_zbl(pt, cfg, ti, cfg.types[j], r[off[i] + a])
        E.append(e)
    return E


def ref_zbl(pt, cfg, a, b, r):
    rd = lambda root, *p: pt.sym('read', FK + 'zbl_' + root, tuple(p))
    zu, zv = ZNUM[a], ZNUM[b]
    ae = pt.sym('var', FK + 'zbl_a_exp', ())
    sc = pt.sym('var', FK + 'zbl_a_prefactor', ()) * 0.529 / (zu ** ae + zv ** ae)
    phi = sum(rd('c', q) * math.exp(-e * r / sc) for q, e in enumerate((3.2, 0.9423, 0.4028, 0.2016)))
    rmax = rd('covalent_radii', zu) + rd('covalent_radii', zv)
    if r >= rmax:
        return 0.0
    x, p = r / rmax, ZP
    env = 1 - (p + 1) * (p + 2) / 2 * x ** p + p * (p + 2) * x ** (p + 1) - p * (p + 1) / 2 * x ** (p + 2)
    return 0.5 * 14.3996 * zu * zv / r * phi * env


ZP = 6
ZNUM = [1, 8, 14, 29, 6, 7, 17, 26, 47, 79, 92, 3, 11, 118]


def mkpt(s, cfg):
    def reals(kind, name, path):
        if name in ('arg.r', 'before.r'):
            return math.sqrt(sum(pt.sym('read', name[:-1] + 'xyz', (3 * path[0] + a,)) ** 2 for a in range(3)))
        if name.startswith(FK + 'zbl_covalent'):
            return (0.25 + 0.01 * (s % 2)) * (1 + (path[0] * 7 % 5) * 0.3)
        if name.startswith(FK + 'zbl_a'):
            return 0.3 if name.endswith('exp') else 0.6
        if kind == 'read' and name.startswith(('this.', FK)):
            return 0.9 * h01('w', s, name, path) - 0.3
        return None
    pt = Point(s, None, {}, reals, fns=FNS)
    return pt


def summarise(cfg, stale, bounds=False):
    p = program(*SRC)
    ip = Interp(p, models=models(cfg, Objects()), unroll=max(200, 4 * cfg.N, 4 * len(cfg.pairs)), cut=True, inline_depth=20, bounds=bounds)
    entry(ip, cfg)
    f = fn_of(p, 'MACE::MACE', 1)
    ip.run(f[0], f[1], [Str('model.json')])
    f = fn_of(p, 'MACE::compute_node_energies_forces', 7)
    if stale in ('moved', 'retyped'):
        # an evaluation of the same arrays, which then change
        c = copy.copy(cfg)
        if stale == 'retyped':
            c.types = [cfg.nel - 1 - t for t in cfg.types]
            c.ntypes = [c.types[j] for _i, j in c.pairs]
        a = args(ip, c)
        for k in ('xyz', 'r'):
            for i in range(len(cfg.pairs) * (3 if k == 'xyz' else 1)):
                ip.store(Loc('arg.' + k, (poly(i),)), poly(Atom('read', ('arg.' if stale == 'retyped' else 'before.') + k, (poly(i),))))
        ip.run(f[0], f[1], a)
        for k in ('xyz', 'r'):
            for i in range(len(cfg.pairs) * (3 if k == 'xyz' else 1)):
                ip.store(Loc('arg.' + k, (poly(i),)), poly(Atom('read', 'arg.' + k, (poly(i),))))
    elif stale:
        dirty(ip, cfg, p)
    a = args(ip, cfg)
    ip.run(f[0], f[1], a)
    return p, ip, f


def whole(ck, cfg, stale, what):
    oid = 'MACE::compute_node_energies_forces/%s/%s/' % (cfg.label, {0: 'fresh buffers', 1: 'used buffers', 'moved': 'second call, atoms moved', 'retyped': 'second call, types changed'}[stale])

    def one():
        p, ip, f = summarise(cfg, stale)
        ck.analysed('MACE::compute_node_energies_forces')
        for q, _w in ip.calls:
            ck.analysed(q)
        wh = where(f[1])
        if ip.unsupported:
            ck.und(oid, ip.unsupported[0][1], 'not modelled: ' + ip.unsupported[0][0])
            return
        E = [ip.load(Loc('this.node_energies', (poly(i),)), 'double') for i in range(cfg.N)]
        n = len(cfg.pairs)
        Fo = [ip.load(Loc('this.node_forces', (poly(i),)), 'double') for i in range(3 * n)]
        ne = ip.load(Loc('this.node_energies.#n'), 'int')
        nf = ip.load(Loc('this.node_forces.#n'), 'int')
        P = [mkpt(s, cfg) for s in range(3)]
        try:
            if what == 'energy':
                ck.decide(oid + 'node-energies-size', wh, ne == poly(cfg.N), 'node_energies has %s entries, not one per node' % ne)
                refs = [ref_energy(pt, cfg) for pt in P]
                for i in range(cfg.N):
                    cmpv(ck, oid + 'energy-%d' % i, wh, E[i], [r[i] for r in refs], P, 'node energy is not the model energy of node %d' % i)
            if what == 'force':
                ck.decide(oid + 'node-forces-size', wh, nf == poly(3 * n), 'node_forces has %s entries, not three per pair' % nf)
                tot = ZERO
                for e in E:
                    tot = tot + e
                g = [gradient(pt, tot, DFNS) for pt in P]
                for q in range(n):
                    for a in range(3):
                        want = []
                        for pt, gr in zip(P, g):
                            x = pt.sym('read', 'arg.xyz', (3 * q + a,))
                            want.append(-(gr.get(('arg.xyz', (3 * q + a,)), 0.0) + gr.get(('arg.r', (q,)), 0.0) * x / pt.sym('read', 'arg.r', (q,))))
                        cmpv(ck, oid + 'force-%d-%s' % (q, 'xyz'[a]), wh, Fo[3 * q + a], want, P, 'pair vector %d is not minus the derivative of the total energy' % q)
            guards(ck, oid, wh, cfg, E, Fo, what)
        except (CannotEval, Domain) as e:
            ck.und(oid, wh, 'term cannot be compared: %s' % e)
    ck.attempt(oid, one, limit=400)


def fit(pt, key, v):
    """moves a distance, a coordinate or a model parameter"""
    if key[0] != 'read':
        return False
    name, path = key[1], key[2]
    if name == 'arg.r':
        if not 0.02 < v < 60:
            return False
        q = path[0]
        f = v / pt.sym('read', 'arg.r', (q,))
        for a in range(3):
            pt.over['read', 'arg.xyz', (3 * q + a,)] = pt.sym('read', 'arg.xyz', (3 * q + a,)) * f
        return True
    if name == 'arg.xyz':
        pt.over[key] = float(v)
        return True
    if name.startswith(FK) and not isinstance(v, int) and abs(v) < 1e4 and (v > 0 or 'zbl' not in name):
        pt.over[key] = v
        return True
    return False


def guards(ck, oid, wh, cfg, E, Fo, what):
    """the same comparison where a guard on values has its other truth value"""
    import steer
    terms = E if what == 'energy' else list(E) + list(Fo)
    tot = ZERO
    for e in E:
        tot = tot + e

    def mk(s):
        def f():
            pt = mkpt(s, cfg)
            pt.fit = fit
            return pt
        return f

    def compare(pt):
        try:
            if what == 'energy':
                pairs = list(zip(E, ref_energy(pt, cfg)))
            else:
                gr = gradient(pt, tot, DFNS)
                pairs = []
                for q in range(len(cfg.pairs)):
                    r = pt.sym('read', 'arg.r', (q,))
                    for a in range(3):
                        x = pt.sym('read', 'arg.xyz', (3 * q + a,))
                        pairs.append((Fo[3 * q + a], -(gr.get(('arg.xyz', (3 * q + a,)), 0.0) + gr.get(('arg.r', (q,)), 0.0) * x / r)))
            vals = [(float(pt.poly(t, {})), w) for t, w in pairs]
        except (CannotEval, Domain, OverflowError, ZeroDivisionError):
            return None
        sc = max([abs(x) for p in vals for x in p] + [1e-2])
        for q, (v, w) in enumerate(vals):
            if abs(v - w) > 1e-7 * max(abs(v), abs(w), 1e-2, 1e-4 * sc):
                return '%s %d: the two sides are %.10g and %.10g' % ('node' if what == 'energy' else 'pair component', q, v, w)
        return ''
    bad, n, turned = steer.explore(tuple(terms), ZERO, [mk(s) for s in range(2)], compare, 12)
    if bad:
        ck.bad(oid + 'behind-guards', wh, '%s not what it should be behind a guard: %s' % (what, bad))
    elif n:
        ck.ok(oid + 'behind-guards', wh, 'equal at %d points across %d guards' % (n, turned))


def cmpv(ck, oid, wh, t, want, P, what):
    if not isinstance(t, Poly):
        ck.und(oid, wh, 'no scalar summary')
        return
    tt = taints(t)
    if tt:
        ck.und(oid, wh, 'not resolved: %s' % tt[:2])
        return
    for pt, w in zip(P, want):
        v = float(pt.poly(t, {}))
        if abs(v - w) > 1e-7 * max(abs(v), abs(w), 1e-2):
            ck.bad(oid, wh, '%s: the two sides are %.10g and %.10g at a generic point' % (what, v, w))
            return
    ck.ok(oid, wh, 'equal by identity test (%d points)' % len(P))


def common_notes(ck):
    ck.assume('sphericart returns the spherical harmonics of the coordinates it is given and their derivatives (an uninterpreted smooth function per lm)')
    ck.assume('r is the length of the pair vector; neighbour types are the types of the neighbour nodes')
    ck.assume('spline, polynomial, perceptron and ZBL objects return the value and the derivative of the function they were constructed for (properties P01, P03-P06, P08)')


def all_cfgs(ck, run):
    for cfg in CFGS + (DEEP if ck.tier == 'thorough' else []) + larger(6 if ck.tier == 'quick' else 20):
        run(cfg)
    for k in [k for k in ck.thresholds(140) if k > 6][-3:]:
        ck.notes.append('a size is compared with %d: larger systems analysed as well' % k)
        for cfg in larger(k):
            run(cfg)


def again(ck, what):
    """a second evaluation given the same arrays, with other contents"""
    for cfg in AGAIN:
        for how in ('moved', 'retyped'):
            whole(ck, cfg, how, what)


def p_energy(ck):
    ck.rule('energy', 'term of every node energy after MACE::MACE(file); compute_node_energies_forces(...), at each constant configuration, equals the reference MACE energy in the model-file entries; once with fresh and once with arbitrarily filled and sized work buffers')
    common_notes(ck)
    all_cfgs(ck, lambda cfg: [whole(ck, cfg, stale, 'energy') for stale in (0, 1)])
    again(ck, 'energy')


def p_force(ck):
    ck.rule('force', 'term of every pair-vector component equals minus the formal derivative of the sum of the node-energy terms, at each constant configuration, with arbitrarily filled and sized work buffers')
    common_notes(ck)
    all_cfgs(ck, lambda cfg: whole(ck, cfg, 1, 'force'))
    again(ck, 'force')
