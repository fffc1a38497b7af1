"""ZBL repulsion."""
from cpp import *
from fractions import Fraction as Fr

CLS = 'ZBL'
SRC = ('zbl.cpp',)
PTS = [(8, 1, 0.7), (1, 8, 0.9), (14, 6, 1.3), (6, 6, 2.9), (3, 17, 3.4), (29, 8, 0.45)]


def fit_to(fr):
    """moves the radius, an element, a covalent radius or the exponent; r stays the fraction fr of the cutoff"""
    def radii(pt):
        return [('read', 'arg.covalent_radii', (pt.sym('var', z),)) for z in ('Zu', 'Zv')]

    def settle(pt):
        pt.env['rmax'] = sum(pt.sym(*k) for k in radii(pt))
        pt.env['r'] = fr * pt.env['rmax']
        return True

    def fit(pt, key, v):
        if key == ('var', 'r'):
            if not 1e-6 < v < 1e6:
                return False
            f = v / pt.env['r']
            for k in set(radii(pt)):
                pt.over[k] = pt.sym(*k) * f
            return settle(pt)
        if key == ('var', 'rmax'):
            return fit(pt, ('var', 'r'), v * fr)
        if key in (('var', 'Zu'), ('var', 'Zv')):
            if not 1 <= v <= 118:
                return False
            pt.over[key] = v
            return settle(pt)
        if key in (('var', 'p'), ('var', 'p0')):
            if not 1 <= v <= 60:
                return False
            pt.over[key] = v
            return True
        if key[:2] == ('read', 'arg.covalent_radii'):
            if not 1e-6 < v < 1e6:
                return False
            pt.over[key] = float(v)
            return settle(pt)
        if key[0] == 'bv':
            return False
        return None
    return fit


def mkpts(rfrac, n=6):
    """points with r = rfrac * (sum of covalent radii)"""
    out = []
    for s in range(n):
        def mk(s=s):
            zu, zv, _ = PTS[s]
            P = [3, 5, 6, 4, 7, 2][s]

            def ints(kind, name, path):
                if name == 'Zu':
                    return zu
                if name == 'Zv':
                    return zv
                if name in ('p', 'p0'):
                    return P
                return None

            def reals(kind, name, path):
                if name == 'arg.covalent_radii':
                    return 0.6 + 0.02 * path[0]
                return None
            rmax = (0.6 + 0.02 * zu) + (0.6 + 0.02 * zv)
            fr = rfrac[s % len(rfrac)]
            pt = Point(s, ints, {'r': rmax * fr, 'rmax': rmax}, reals)
            pt.fit = fit_to(fr)
            return pt
        out.append(mk)
    return out


INSIDE = [0.31, 0.62, 0.87, 0.11, 0.5, 0.97]
BEYOND = [1.02, 1.5, 3.0, 1.0001, 2.0, 1.2]


def made(p, **kw):
    """the object as the constructor leaves it, for symbolic arguments"""
    ip = Interp(p, **kw)
    f = fn_of(p, CLS + '::' + CLS, 5)
    ip.st.cells['arg.c.#n'] = poly(4)
    ip.run(f[0], f[1], [var('a_exp'), var('a_prefactor'), Loc('arg.c'), Loc('arg.covalent_radii'), var('p0')])
    return ip


def get(p, name, args):
    ip = made(p)
    f = fn_of(p, CLS + '::' + name, len(args))
    v = ip.run(f[0], f[1], args)
    v = ip.val(v, 'double')
    if ip.unsupported:
        raise AnalysisBroken(str(ip.unsupported[0]))
    return f, v


def rdv(name, *path):
    return poly(Atom('read', 'arg.' + name, tuple(poly(x) for x in path)))


def ref_env(x, P):
    one = ONE
    return one - (P + 1) * (P + 2) * Fr(1, 2) * pow_(x, P) + P * (P + 2) * pow_(x, P + 1) - P * (P + 1) * Fr(1, 2) * pow_(x, P + 2)


def ref_zbl(p, zu, zv, r):
    ae, ap = var('a_exp'), var('a_prefactor')
    a = ap * Fr('0.529') * inv(pow_(zu, ae) + pow_(zv, ae))
    x = r * inv(a)
    phi = ZERO
    for k, e in enumerate(('3.2', '0.9423', '0.4028', '0.2016')):
        phi = phi + rdv('c', k) * exp_(-x * Fr(e))
    rmax = rdv('covalent_radii', zu) + rdv('covalent_radii', zv)
    P = var('p0')
    return Fr(1, 2) * poly(Fr('14.3996')) * zu * zv * inv(r) * phi * ref_env(r * inv(rmax), P)


def p_zbl(ck):
    ck.rule('gradient', 'the gradient entry point equals the formal r-derivative of the energy entry point, on both sides of the cutoff')
    ck.rule('symmetry', 'exchanging the two elements leaves the summary unchanged')
    ck.rule('cutoff', 'energy and gradient vanish at and beyond the sum of covalent radii and approach 0 there; the envelope tends to 1 at r=0')
    ck.rule('formula', 'below the cutoff the energy is the ZBL screened Coulomb term times the polynomial envelope')
    ck.rule('scatter', 'node energy i gains the energies of its own neighbours and pair force ij gains -dE/dr * r_vec/r; nothing else is written and nothing is overwritten')
    ck.assume('r > 0, p >= 1')
    p = program(*SRC)
    r, zu, zv = var('r'), var('Zu'), var('Zv')
    rx = Atom('var', 'r')

    def pair():
        f, v = get(p, 'compute', [zu, zv, r])
        g, d = get(p, 'compute_gradient', [zu, zv, r])
        for n in ('compute', 'compute_gradient', 'compute_envelope', 'compute_envelope_gradient'):
            ck.analysed('ZBL::' + n)
        dv = diff(v, rx)
        check_same(ck, 'ZBL/gradient-below-cutoff', where(g[1]), d, dv, mkpts(INSIDE), 'compute_gradient is not d/dr of compute', 1e-6)
        check_same(ck, 'ZBL/gradient-beyond-cutoff', where(g[1]), d, dv, mkpts(BEYOND), 'compute_gradient is not d/dr of compute', 1e-6)
        sw = {Atom('var', 'Zu'): zv, Atom('var', 'Zv'): zu}
        check_same(ck, 'ZBL/symmetry-energy', where(f[1]), v, subst(v, sw), mkpts(INSIDE + BEYOND), 'compute(Zu,Zv) differs from compute(Zv,Zu)')
        check_same(ck, 'ZBL/symmetry-gradient', where(g[1]), d, subst(d, sw), mkpts(INSIDE + BEYOND), 'compute_gradient(Zu,Zv) differs from compute_gradient(Zv,Zu)')
        check_same(ck, 'ZBL/zero-beyond-cutoff', where(f[1]), v, ZERO, mkpts(BEYOND), 'energy beyond the cutoff')
        check_same(ck, 'ZBL/zero-at-cutoff', where(f[1]), v, ZERO, mkpts([1.0]), 'energy at the cutoff', styles=False)
        check_same(ck, 'ZBL/zero-gradient-beyond-cutoff', where(g[1]), d, ZERO, mkpts(BEYOND), 'gradient beyond the cutoff')
        check_same(ck, 'ZBL/continuous-at-cutoff', where(f[1]), v, ZERO, mkpts([1 - 1e-6]), 'energy does not go to zero at the cutoff', 1e-6, False)
        check_same(ck, 'ZBL/gradient-continuous-at-cutoff', where(g[1]), d, ZERO, mkpts([1 - 1e-6]), 'force does not go to zero at the cutoff', 1e-2, False)
        check_same(ck, 'ZBL/formula', where(f[1]), v, ref_zbl(p, zu, zv, r), mkpts(INSIDE), 'not the ZBL energy with polynomial envelope')
    ck.attempt('ZBL/pair', pair)

    def env():
        f, e = get(p, 'compute_envelope', [r, var('rmax'), var('p')])
        g, d = get(p, 'compute_envelope_gradient', [r, var('rmax'), var('p')])
        check_same(ck, 'ZBL/envelope', where(f[1]), e, ref_env(r * inv(var('rmax')), var('p')), mkpts(INSIDE), 'not the polynomial envelope')
        check_same(ck, 'ZBL/envelope-gradient', where(g[1]), d, diff(e, rx), mkpts(INSIDE + BEYOND), 'not the derivative of the envelope')
        check_same(ck, 'ZBL/envelope-beyond', where(f[1]), e, ZERO, mkpts(BEYOND), 'envelope beyond the cutoff')
        check_same(ck, 'ZBL/envelope-at-zero', where(f[1]), e, ONE, mkpts([1e-9]), 'envelope at r=0', styles=False)
    ck.attempt('ZBL/envelope', env)

    CF = [('3 nodes with 2,1,3 neighbours', [2, 1, 3]), ('3 nodes with 0,2,0 neighbours', [0, 2, 0]), ('1 node with 1 neighbour', [1]), ('2 nodes without neighbours', [0, 0])]

    def scatter(cfg=None):
        def run():
            ip = made(p, unroll=max(60, 2 * len(cfg), 2 * max(cfg))) if cfg else made(p)
            f = fn_of(p, 'ZBL::compute_ZBL', 9)
            names = ['node_types', 'num_neigh', 'neigh_types', 'atomic_numbers', 'r', 'xyz', 'E', 'F']
            n = poly(len(cfg)) if cfg else var('num_nodes')
            sp = [ip.define_arg(a, 'span') for a in names]
            if cfg:
                for q, k in enumerate(cfg):
                    ip.store(Loc('arg.num_neigh', (poly(q),)), poly(k))
            ip.run(f[0], f[1], [n] + sp)
            ck.analysed('ZBL::compute_ZBL')
            for q, _w in ip.calls:
                ck.analysed(q)
            if ip.unsupported:
                ck.und('ZBL::compute_ZBL', ip.unsupported[0][1], 'not modelled: ' + ip.unsupported[0][0])
                return
            v = get(p, 'compute', [zu, zv, r])[1]
            d = get(p, 'compute_gradient', [zu, zv, r])[1]

            def rd(a, k):
                return poly(Atom('read', 'arg.' + a, (poly(k),)))

            def pair_term(t, i, ij):
                return subst(t, {Atom('var', 'Zu'): rd('atomic_numbers', rd('node_types', i)), Atom('var', 'Zv'): rd('atomic_numbers', rd('neigh_types', ij)), Atom('var', 'r'): rd('r', ij)})

            def mk(s, env, scale):
                def ints(kind, name, path):
                    if name == 'num_nodes':
                        return 3
                    if name == 'arg.num_neigh':
                        return [2, 1, 3][path[0] % 3]
                    if name in ('arg.node_types', 'arg.neigh_types'):
                        return (path[0] * 7 + s + (3 if 'neigh' in name else 1)) % 4
                    if name == 'arg.atomic_numbers':
                        return path[0] * 3 + 5
                    if name == 'p0':
                        return [3, 5, 6, 4, 7, 2][s % 6]
                    return None

                def reals(kind, name, path):
                    if name == 'arg.covalent_radii':
                        return 0.6 + 0.02 * path[0]
                    if name == 'arg.r':
                        return scale * (0.3 + ((path[0] * 5 + 3 * s) % 11) * 0.13)
                    return None
                pt = Point(s, ints, env, reals)
                pt.fit = None if cfg else fit2
                return pt

            def fit2(pt, key, v):
                if key == ('var', 'num_nodes'):
                    if not 1 <= v <= 300:
                        return False
                    pt.over[key] = v
                    pt.env[i] = v - 1
                    return True
                if key == ('bv', i):
                    pt.env[i] = v
                    pt.over['var', 'num_nodes'] = max(3, v + 1)
                    return True
                if key == ('bv', j):
                    k = ('read', 'arg.num_neigh', (pt.env[i],))
                    pt.env[j] = v
                    pt.over[k] = max(v + 1, pt.sym(*k))
                    return True
                if key[:2] == ('read', 'arg.num_neigh'):
                    if v < 0 or key[2][0] == pt.env[i] and v < 1:
                        return False
                    pt.over[key] = v
                    if key[2][0] == pt.env[i]:
                        pt.env[j] = v - 1
                    return True
                return False if isinstance(v, int) else None
            wh = where(f[1])
            if not cfg:
                i = rng(n)
                nn = lambda k: rd('num_neigh', k)
                j, b = rng(nn(bvar(i))), rng(bvar(i))
                ij = sum1(b, bvar(i), nn(bvar(b))) + bvar(j)
                P = [lambda s=s: mk(s, {i: s % 3, j: 0}, [1, 1, 1, 4][s % 4]) for s in range(6)]
                items = [(bvar(i), sum1(j, nn(bvar(i)), pair_term(v, bvar(i), ij)), [(ij, pair_term(d, bvar(i), ij))])]
            else:
                P = [lambda s=s: mk(s, {}, [1, 1, 1, 4][s % 4]) for s in range(4)]
                items = []
                q = 0
                for i, k in enumerate(cfg):
                    e = ZERO
                    fs = []
                    for _ in range(k):
                        e = e + pair_term(v, i, q)
                        fs.append((poly(q), pair_term(d, i, q)))
                        q += 1
                    items.append((poly(i), e, fs))
            for i, e, fs in items:
                E = ip.load(Loc('arg.E', (i,)), 'double')
                check_same(ck, 'ZBL::compute_ZBL/energy', wh, E, rd('E', i) + e, P, 'node energy is not incremented by the pair energies of that node')
                for ij, g in fs:
                    for k in range(3):
                        F = ip.load(Loc('arg.F', (3 * ij + k,)), 'double')
                        want = rd('F', 3 * ij + k) - rd('xyz', 3 * ij + k) * inv(rd('r', ij)) * g
                        check_same(ck, 'ZBL::compute_ZBL/force-%s' % 'xyz'[k], wh, F, want, P, 'pair force is not incremented by -dE/dr times the unit vector')
        return run
    more = lambda k: [('1 node with %d neighbours' % (k + 2), scatter([k + 2])), ('%d nodes with at most 1 neighbour' % (k + 2), scatter([0, 1] + [0] * (k - 2) + [1, 1]))]
    ck.staged('ZBL::compute_ZBL', scatter(), [(l, scatter(c)) for l, c in CF], more)
