"""MACEKokkos: energies, forces and memory behaviour of the whole evaluation, call after call."""
import math
from fractions import Fraction as Fr
from cpp import *
from values import Unsupported, Str
from peval import gradient, h01, CannotEval, Domain
import mace as M
from mace import Cfg, CG, FK, ZNUM, gval, F, FNS, DFNS, put_int
import kokkos as K

SRC = ('mace_kokkos.cpp',) + K.COMP
NODES = 4
RATIO = {0: Fr(3, 4), 1: Fr(2, 3)}      # steps of the scaling tables relative to the radial one


class System:
    """neighbour structure of one call"""
    def __init__(self, types, edges):
        self.types, self.edges = types, edges


class KCfg(Cfg):
    def __init__(self, label, systems, nel, C, l_max, L_max, paths, cg, scaled=False, zbl=False):
        Cfg.__init__(self, label, systems[0][0], systems[0][1], nel, C, l_max, L_max, paths, cg, scaled, zbl)
        self.systems = systems

    def system(self, q):
        c = KCfg.__new__(KCfg)
        c.__dict__.update(self.__dict__)
        types, edges = self.systems[q]
        c.types, c.edges, c.N = types, edges, len(edges)
        c.pairs = [(i, j) for i, js in enumerate(edges) for j in js]
        c.ntypes = [types[j] for _i, j in c.pairs]
        c.call = q
        return c

    # monomials of at most three factors, the same for every element and channel
    def mon0(self, LM):
        n = self.num_lm
        out = [[LM % n], [0, LM % n]]
        if n > 1:
            out += [[1, n - 1], [0, 1, n - 1], [n - 1, n - 1, LM % n]]
        if LM % 2:
            out = out[1:]
        return [sorted(m) for m in uniq(out)]

    def mon1(self):
        n = self.num_lm
        out = [[0], [0, 0], [0, 0, 0]]
        if n > 1:
            out += [[1, 1], [2, n - 1, 0], [n - 1, n - 1, 1], [2]]
        return [sorted(m) for m in uniq(out)]


def uniq(ms):
    out = []
    for m in ms:
        m = sorted(m)
        if m not in out:
            out.append(m)
    return out


P1 = [(0, 0, 0), (0, 1, 1), (1, 1, 0), (1, 0, 1)]
CFGS = [
    KCfg('2 elements, 2 channels, l_max 1, L_max 1, scaled, ZBL; systems of 2, 3 and 1 nodes',
         [([1, 0], [[1], [0, 0]]), ([0, 1, 1], [[1, 2], [], [0]]), ([1], [[0]])], 2, 2, 1, 1, P1, CG, scaled=True, zbl=True),
    KCfg('3 elements, 1 channel, l_max 2, L_max 1; systems of 3 and 2 nodes',
         [([2, 0, 1], [[1, 2], [], [0]]), ([1, 2], [[1], [0, 1]])], 3, 1, 2, 1, [(0, 0, 0), (0, 1, 1), (1, 1, 0), (1, 2, 1), (2, 2, 0)], CG, scaled=(True, False)),
    KCfg('1 element, 3 channels, l_max 1, L_max 0, second layer scaled; systems of 1, 2 and 2 nodes',
         [([0], [[]]), ([0, 0], [[1], []]), ([0, 0], [[], [0, 1]])], 1, 3, 1, 0, [(0, 0, 0), (1, 1, 0)], CG, scaled=(False, True)),
]
AGAIN = [
    KCfg('2 elements, 1 channel, l_max 1, L_max 0, scaled; the same arrays three times, with other contents',
         [([1, 0], [[1], [0, 0]]), ([1, 0], [[1], [0, 0]]), ([0, 1], [[1], [0, 0]])], 2, 1, 1, 0, [(0, 0, 0), (1, 1, 0)], CG, scaled=True),
]
DEEP = [
    KCfg('2 elements, 2 channels, l_max 3, L_max 2, scaled, ZBL; systems of 2 and 4 nodes',
         [([1, 0], [[1], [0, 0]]), ([0, 1, 1, 0], [[1, 2], [3], [0, 3, 1], []])], 2, 2, 3, 2, [(0, 0, 0), (0, 2, 2), (1, 1, 0), (1, 2, 1), (2, 1, 1), (3, 3, 0), (3, 1, 2)], CG, scaled=True, zbl=True),
]


def interval(q):
    return (0, 1, 1, 0)[q % 4]


def uroot(cfg):
    return 'arg.u%d' % cfg.call


for _c in range(4):
    for _q in range(40):
        T.NARROW[Atom('read', 'arg.u%d' % _c, (poly(_q),))] = (Fr(34, 100) if interval(_q) else Fr(1, 10), Fr(45, 100))


def dims(ip, root, *d):
    """sizes of a nested array of the model file"""
    ip.st.cells[root + '.#n'] = poly(d[0])
    for q in range(1, len(d)):
        for i in K.SPACE(d[:q]):
            ip.store(Loc(root, tuple(poly(x) for x in i) + ('#n',)), poly(d[q]))


def entry(ip, cfg):
    M.entry(ip, cfg)
    c = ip.st.cells
    C = cfg.C
    npair = cfg.nel * (cfg.nel + 1) // 2
    for w in ('values', 'derivs'):
        dims(ip, FK + 'radial_spline_%s_0' % w, npair, (cfg.l_max + 1) * C, NODES)
        dims(ip, FK + 'radial_spline_%s_1' % w, npair, len(cfg.paths) * C, NODES)
        for q in (0, 1):
            dims(ip, FK + 'A%d_spline_%s' % (q, w), npair, NODES)
    for q in (0, 1):
        c[FK + 'A%d_spline_h' % q] = var(FK + 'radial_spline_h') * RATIO[q]
    dims(ip, FK + 'A0_weights', cfg.nel, cfg.l_max + 1, C * C)
    for l in range(cfg.l_max + 1):
        ip.store(Loc(FK + 'A1_weights', (poly(l), '#n')), poly(cfg.num_e[l] * C * C))
    dims(ip, FK + 'H2_weights_for_H1', cfg.nel, C * C)

    def mons(root, ms):
        c[root + '.#n'] = poly(len(ms))
        for i, m in enumerate(ms):
            ip.store(Loc(root, (poly(i), '#n')), poly(len(m)))
            for j, x in enumerate(m):
                ip.store(Loc(root, (poly(i), poly(j))), poly(x))
    for LM in range(cfg.num_LM):
        mons(FK + 'M0_monomials.k:%d' % LM, cfg.mon0(LM))
        for a in range(cfg.nel):
            for k in range(C):
                c[FK + 'M0_weights.k:%d.k:%d.k:%d.#n' % (a, LM, k)] = poly(len(cfg.mon0(LM)))
    mons(FK + 'M1_monomials', cfg.mon1())
    for a in range(cfg.nel):
        for k in range(C):
            c[FK + 'M1_weights.k:%d.k:%d.#n' % (a, k)] = poly(len(cfg.mon1()))


def models():
    def sph_new(ip, b, a, n):
        r = ip.tmp()
        ip.st.cells[r.root + '.lmax'] = ip.val(a[0], 'int')
        return r

    def sph(ip, b, args, n):
        nl = (int(ip.load(Loc(b.root + '.lmax'), 'int').const()) + 1) ** 2
        src, dst, grd = [ip.val(args[q], 'double *') for q in (0, 2, 4)]
        num = int(ip.val(args[1], 'int').const()) // 3
        for i in range(num):
            c = [ip.load(src.plus(poly(3 * i + a)).at(), 'double') for a in range(3)]
            for lm in range(nl):
                ip.store(dst.plus(poly(i * nl + lm)).at(), F('S', lm, *c), node=n)
                for a in range(3):
                    ip.store(grd.plus(poly(3 * i * nl + a * nl + lm)).at(), F('S.d', a, lm, *c), node=n)
        return None
    S = 'sphericart::SphericalHarmonics<double>'
    return {S + '::compute_array_with_gradients': sph, S + '::SphericalHarmonics<double>': sph_new, S + '::SphericalHarmonics': sph_new}


class Real:
    """the sub-objects as what the file defines"""
    @staticmethod
    def herm(pt, root, path, h, i, x):
        f0, f1 = [pt.sym('read', root % 'values', path + (i + q,)) for q in (0, 1)]
        d0, d1 = [pt.sym('read', root % 'derivs', path + (i + q,)) for q in (0, 1)]
        t = x / h
        return (1 + 2 * t) * (1 - t) ** 2 * f0 + t * (1 - t) ** 2 * h * d0 + t * t * (3 - 2 * t) * f1 + t * t * (t - 1) * h * d1

    @staticmethod
    def spl(pt, q, t, j, r):
        h = pt.sym('var', FK + 'radial_spline_h', ())
        i = int(r / h)
        return Real.herm(pt, FK + 'radial_spline_%%s_%d' % q, (t, j), h, i, r - i * h)

    @staticmethod
    def spl1(pt, q, t, r):
        h = pt.sym('var', FK + 'radial_spline_h', ()) * float(RATIO[q])
        i = int(r / h)
        return Real.herm(pt, FK + 'A%d_spline_%%s' % q, (t,), h, i, r - i * h)

    @staticmethod
    def pol(pt, root, ms, xs):
        return sum(pt.sym('read', root, (w,)) * math.prod(xs[v] for v in m) for w, m in enumerate(ms))

    @staticmethod
    def P0(pt, cfg, t, lm, k, xs):
        return Real.pol(pt, FK + 'M0_weights.k:%d.k:%d.k:%d' % (t, lm, k), cfg.mon0(lm), xs)

    @staticmethod
    def P1(pt, cfg, t, k, xs):
        return Real.pol(pt, FK + 'M1_weights.k:%d.k:%d' % (t, k), cfg.mon1(), xs)

    @staticmethod
    def R2(pt, cfg, xs):
        s = pt.sym('var', FK + 'readout_2_scale_factor', ())
        w1 = lambda i, j: pt.sym('read', FK + 'readout_2_weights_1', (j * cfg.C + i,))
        out = 0.0
        for j in range(16):
            y = sum(w1(i, j) * x for i, x in enumerate(xs))
            out += pt.sym('read', FK + 'readout_2_weights_2', (j,)) * s * y / (1 + math.exp(-y))
        return out

    @staticmethod
    def r(pt, cfg, q):
        return pt.sym('var', FK + 'radial_spline_h', ()) * (interval(q) + pt.sym('read', uroot(cfg), (q,)))


def mkpt(s, cfg):
    def reals(kind, name, path):
        if name.startswith('arg.u'):
            return (0.345 if interval(path[0]) else 0.12) + 0.1 * h01('u', s, name, path)
        if name == FK + 'radial_spline_h':
            return 0.7 + 0.1 * s
        if name.startswith('arg.xyz'):
            q, a = divmod(path[0], 3)
            d = [2 * h01('x', s, name, q, b) - 1 for b in range(3)]
            return d[a] / math.sqrt(sum(x * x for x in d)) * Real.r(pt, cfg.system(int(name[7:])), q)
        if name.startswith(FK + 'zbl_covalent'):
            return (0.25 + 0.01 * (s % 2)) * (1 + (path[0] * 7 % 5) * 0.3)
        if name.startswith(FK + 'zbl_a'):
            return 0.3 if name.endswith('exp') else 0.6
        if kind == 'read' and name.startswith(FK):
            return 0.9 * h01('w', s, name, path) - 0.3
        return None
    pt = Point(s, None, {}, reals, fns=FNS)
    return pt


def call(ip, p, cfg):
    n = len(cfg.pairs)
    q = cfg.call
    keep = ip.__dict__.setdefault('handed', {})         # views handed to the previous call

    def view(name, size, t):
        v = keep.get(name)
        if v is None or v.size() != size:
            v = ip.knew((size,), t, name)
        keep[name] = v
        return v

    def iv(name, vals):
        v = view(name, len(vals), 'int')
        ip.kmem[v.base.root][:] = [poly(x) for x in vals]
        return v
    h = var(FK + 'radial_spline_h')
    xyz = view('xyz', 3 * n, 'double')
    ip.kmem[xyz.base.root][:] = [poly(Atom('read', 'arg.xyz%d' % q, (poly(i),))) for i in range(3 * n)]
    r = view('r', n, 'double')
    ip.kmem[r.base.root][:] = [h * (poly(Atom('read', uroot(cfg), (poly(i),))) + interval(i)) for i in range(n)]
    f = fn_of(p, 'MACEKokkos<double>::compute_node_energies_forces', 7)
    ip.run(f[0], f[1], [poly(cfg.N), iv('node_types', cfg.types[:cfg.N]), iv('num_neigh', [len(e) for e in cfg.edges]), iv('neigh_indices', [j for _i, j in cfg.pairs]),
                        iv('neigh_types', cfg.ntypes), xyz, r])
    return f


def summarise(cfg):
    p = program(*SRC)
    ip = Interp(p, models=models(), unroll=400, cut=True, inline_depth=20)
    entry(ip, cfg)
    f = fn_of(p, 'MACEKokkos<double>::MACEKokkos', 1) if p.find('MACEKokkos<double>::MACEKokkos') else fn_of(p, 'MACEKokkos<double>::MACEKokkos<double>', 1)
    ip.run(f[0], f[1], [Str('model.json')])
    return p, ip


class RefPt:
    """reads of the plain reference by the names of one call"""
    def __init__(self, pt, q):
        self.pt, self.q = pt, q

    def sym(self, kind, name, path):
        if name == 'arg.xyz':
            name = 'arg.xyz%d' % self.q
        return self.pt.sym(kind, name, path)


def whole(ck, cfg, modes):
    base = 'MACEKokkos::compute_node_energies_forces/%s/' % cfg.label

    def one():
        p, ip = summarise(cfg)
        for q in range(len(cfg.systems)):
            c = cfg.system(q)
            oid = base + 'call %d/' % (q + 1)
            f = call(ip, p, c)
            wh = where(f[1])
            ck.analysed('MACEKokkos<double>::compute_node_energies_forces')
            for x, _w in ip.calls:
                ck.analysed(x)
            if ip.unsupported:
                return ck.und(oid, ip.unsupported[0][1], 'not modelled: ' + ip.unsupported[0][0])
            if 'mem' in modes:
                K.memory(ck, oid, wh, ip)
                continue
            en, fo = [ip.kval(Loc('this.' + k)) for k in ('node_energies', 'node_forces')]
            n = len(c.pairs)
            ck.decide(oid + 'room', wh, en is not None and fo is not None and (en.size() >= c.N and fo.size() >= 3 * n), 'node_energies or node_forces is too small')
            E = [K.get(ip, en, i) for i in range(c.N)]
            Fo = [K.get(ip, fo, i) for i in range(3 * n)] if n else []
            P = [mkpt(s, cfg) for s in range(2)]
            for mode in modes:
                try:
                    if mode == 'energy':
                        refs = [M.ref_energy(RefPt(pt, q), c, Real) for pt in P]
                        for i in range(c.N, en.size()):
                            M.cmpv(ck, oid + 'energy-tail-%d' % i, wh, K.get(ip, en, i), [0.0 for _ in P], P, 'entry %d of node_energies, which belongs to no node, is not zero, so their sum is not the energy' % i)
                        for i in range(c.N):
                            M.cmpv(ck, oid + 'energy-%d' % i, wh, E[i], [r[i] for r in refs], P, 'node energy is not the model energy of node %d' % i)
                    else:
                        tot = ZERO
                        for e in E:
                            tot = tot + e
                        want = [forces(pt, c, gradient(pt, tot, DFNS)) for pt in P]
                        for j in range(3 * n):
                            M.cmpv(ck, oid + 'force-%d-%s' % (j // 3, 'xyz'[j % 3]), wh, Fo[j], [w[j] for w in want], P, 'pair vector %d is not minus the derivative of the total energy' % (j // 3))
                    guards(ck, oid, wh, cfg, c, E, Fo, mode)
                except (CannotEval, Domain) as e:
                    ck.und(oid, wh, 'term cannot be compared: %s' % e)
    ck.attempt(base, one, limit=280)


def fit(pt, key, v):
    if key[0] == 'var' and key[1] == FK + 'radial_spline_h':
        if not 0.02 < v < 60:
            return False
        pt.over[key] = float(v)
        return True
    if key[0] != 'read':
        return False
    if key[1].startswith('arg.xyz') or key[1].startswith(FK) and not isinstance(v, int) and abs(v) < 1e4 and (v > 0 or 'zbl' not in key[1]):
        pt.over[key] = float(v)
        return True
    return False


def guards(ck, oid, wh, cfg, c, E, Fo, mode):
    """the same comparison where a guard on values has its other truth value"""
    import steer
    tot = ZERO
    for e in E:
        tot = tot + e

    def mk(s):
        def f():
            pt = mkpt(s, cfg)
            pt.fit = fit
            return pt
        return f

    def compare(pt):
        try:
            if mode == 'energy':
                pairs = list(zip(E, M.ref_energy(RefPt(pt, c.call), c, Real)))
            else:
                pairs = list(zip(Fo, forces(pt, c, gradient(pt, tot, DFNS))))
            vals = [(float(pt.poly(t, {})), w) for t, w in pairs]
        except (CannotEval, Domain, OverflowError, ZeroDivisionError):
            return None
        sc = max([abs(x) for p in vals for x in p] + [1e-2])
        for q, (v, w) in enumerate(vals):
            if abs(v - w) > 1e-7 * max(abs(v), abs(w), 1e-2, 1e-4 * sc):
                return '%s %d: the two sides are %.10g and %.10g' % ('node' if mode == 'energy' else 'pair component', q, v, w)
        return ''
    bad, n, turned = steer.explore(tuple(E if mode == 'energy' else list(E) + list(Fo)), ZERO, [mk(s) for s in range(2)], compare, 8)
    if bad:
        ck.bad(oid + 'behind-guards', wh, '%s not what it should be behind a guard: %s' % (mode, bad))
    elif n:
        ck.ok(oid + 'behind-guards', wh, 'equal at %d points across %d guards' % (n, turned))


def forces(pt, c, gr):
    q, out = c.call, []
    h = pt.sym('var', FK + 'radial_spline_h', ())
    for pr in range(len(c.pairs)):
        for a in range(3):
            x = pt.sym('read', 'arg.xyz%d' % q, (3 * pr + a,))
            out.append(-(gr.get(('arg.xyz%d' % q, (3 * pr + a,)), 0.0) + gr.get((uroot(c), (pr,)), 0.0) / h * x / Real.r(pt, c, pr)))
    return out


def larger(k):
    n = k + 2
    e = [[] for _ in range(n)]
    e[0], e[-1], e[n // 2] = [n - 1], [0, n - 2], [n - 1]
    out = [KCfg('%d nodes' % n, [([i % 2 for i in range(n)], e)], 2, 1, 1, 0, [(0, 0, 0), (1, 1, 0)], CG[:4], scaled=True),
           KCfg('%d neighbours' % n, [([1, 0], [[1 - q % 2 for q in range(n)], [0]])], 2, 1, 0, 0, [(0, 0, 0)], CG[:4], scaled=True)]
    if k <= 20:
        out.append(KCfg('%d channels' % n, [([0, 0], [[1], [0]])], 1, n, 0, 0, [(0, 0, 0)], CG[:2], scaled=True))
    return out


def all_cfgs(ck, modes):
    for cfg in CFGS + AGAIN + (DEEP if ck.tier == 'thorough' else []) + larger(4 if ck.tier == 'quick' else 10)[1:]:
        whole(ck, cfg, modes)
    for k in [k for k in ck.thresholds(60) if k > 4][-2:]:
        ck.notes.append('a size is compared with %d: larger systems analysed as well' % k)
        for cfg in larger(k):
            whole(ck, cfg, modes)


def p_mace(ck):
    ck.rule('energy', 'term of every node energy after MACEKokkos(file) and each call of a sequence of evaluations equals the reference MACE energy in the model-file entries')
    ck.rule('force', 'term of every pair-vector component equals minus the formal derivative of the sum of the node-energy terms')
    K.assumptions(ck)
    ck.assume('sphericart returns the spherical harmonics of the coordinates it is given and their derivatives (an uninterpreted smooth function per lm)')
    ck.assume('r is the length of the pair vector; neighbour types are the types of the neighbour nodes; monomials have at most three factors')
    all_cfgs(ck, ('energy', 'force'))
