"""The Kokkos back end: the same functions, kernel by kernel, and no two iterations touching the same element."""
from fractions import Fraction as Fr
from cpp import *
from values import Unsupported, Str
from kvals import Vw, KObj, right
import splines as SP
import mlp as ML
import zbl as ZB

COMP = ('cubic_spline_kokkos.cpp', 'cubic_spline_set_kokkos.cpp', 'radial_function_set_kokkos.cpp', 'multilayer_perceptron_kokkos.cpp',
        'multivariate_polynomial_kokkos.cpp', 'zbl_kokkos.cpp', 'tools_kokkos.cpp', 'multivariate_polynomial.cpp', 'tools.cpp')


def machine(p, n=400, **k):
    return Interp(p, unroll=n, cut=True, inline_depth=20, **k)


def rd(a, *i):
    return poly(Atom('read', 'arg.' + a, tuple(poly(x) for x in i)))


def inview(ip, name, ext, et='double', vals=None):
    """a view handed in by the caller"""
    v = ip.knew(tuple(ext), et, name)
    m = ip.kmem[v.base.root]
    for q, i in enumerate(SPACE(ext)):
        m[q] = poly(vals[q]) if vals is not None else rd(name, *i)
    return v


def SPACE(ext):
    out = [()]
    for e in ext:
        out = [i + (k,) for i in out for k in range(e)]
    return out


def outview(ip, name, ext, et='double'):
    v = ip.knew(tuple(ext), et, name)
    m = ip.kmem[v.base.root]
    for q, i in enumerate(SPACE(ext)):
        m[q] = poly(Atom('read', 'old.' + name, tuple(poly(x) for x in i)))
    return v


def get(ip, v, *i):
    return ip.kmem[v.base.root][int(v.base.off.const()) + sum(a * s for a, s in zip(i, v.strd))]


def inspan(ip, name, n):
    ip.st.cells['arg.%s.#n' % name] = poly(n)
    return Ptr('arg.' + name, (), ZERO, size=poly(n))


def vec(ip, name, *dims):
    """nested std::vector argument of constant sizes"""
    r = 'arg.' + name
    ip.st.cells[r + '.#n'] = poly(dims[0])
    for q in range(1, len(dims)):
        for i in SPACE(dims[:q]):
            ip.store(Loc(r, tuple(poly(x) for x in i) + ('#n',)), poly(dims[q]))
    return Loc(r)


def ctor(p, cls, n, pick=None):
    return fn_of(p, '%s::%s' % (cls, cls.split('<')[0]) if not p.find('%s::%s' % (cls, cls)) else '%s::%s' % (cls, cls), n, pick)


def build(ck, p, cls, args, pick=None, **k):
    ip = k.pop('ip', None) or machine(p, **k)
    f = ctor(p, cls, len(args(ip)) if callable(args) else len(args), pick)
    ip.run(f[0], f[1], args(ip) if callable(args) else args)
    return ip


def sig(*parts):
    """chooses an overload by the types of its parameters"""
    def ok(f):
        t = [strip(q.get('type', {}).get('qualType', '')) for q in params(f)]
        return len(t) == len(parts) and all(a in b for a, b in zip(parts, t))
    return ok


def strip(t):
    return t


def report(ck, oid, wh, ip, what='mem'):
    """what the analysis saw of the memory behaviour of the kernels"""
    if ip.unsupported:
        ck.und(oid, ip.unsupported[0][1], 'not modelled: ' + ip.unsupported[0][0])
        return False
    return True


def memory(ck, oid, wh, ip):
    if not report(ck, oid + 'memory', wh, ip):
        return
    n = sum(k.n for k in ip.kernels)
    ck.decide(oid + 'inside-views', wh, not ip.koob, 'access outside a view: %s at %s' % (ip.koob[0] if ip.koob else ('', '')))
    ck.decide(oid + 'library-contract', wh, not ip.kfail, 'operation the library rejects: %s at %s' % (ip.kfail[0] if ip.kfail else ('', '')))
    if ip.krace:
        k, (key, txt, w1, w2) = ip.krace[0]
        name = ip.kname.get(key[0], '') if isinstance(key, tuple) else key
        ck.bad(oid + 'no-race', w1, 'in the kernel at %s: element %s of %s is %s (%s, %s)' % (k.where, key[1] if isinstance(key, tuple) else '', name or 'a variable', txt, w1, w2))
    else:
        ck.ok(oid + 'no-race', wh, '%d accesses in %d kernels' % (n, len(ip.kernels)))


T.NARROW[Atom('var', 'u')] = (Fr(1, 100), Fr(99, 100))


def env0(s):
    return {'h': 0.25 + 0.1 * s, 'u': [0.37, 0.61, 0.25, 0.93, 0.02, 0.7][s % 6]}


def P(n=6):
    return pts(n, None, env0)


def herm(k, f, d):
    h, x = var('h'), var('h') * var('u')
    v = SP.hermite(h, f(k), d(k), f(k + 1), d(k + 1), x)
    return v, diff(v, Atom('var', 'u')) * inv(h)


# ---------------------------------------------------------------- one spline
def spline(ck, p, mode):
    cls = 'CubicSplineKokkos'
    for how in ('vectors', 'views'):
        for n in (2, 3, 5):
            for name, outs in (('evaluate', 1), ('evaluate_deriv', 2), ('evaluate_deriv_divided', 2)):
                for k in list(range(-2, n + 2)):
                    oid = '%s::%s/from %s/%d nodes, interval %d/' % (cls, name, how, n, k)

                    def one():
                        ip = machine(p)
                        f = ctor(p, cls, 3, sig('double', 'View<' if how == 'views' else 'vector<', ''))
                        a = [inview(ip, 'f', (n,)), inview(ip, 'd', (n,))] if how == 'views' else [vec(ip, 'f', n), vec(ip, 'd', n)]
                        ip.run(f[0], f[1], [var('h')] + a)
                        g = fn_of(p, '%s::%s' % (cls, name), 1)
                        ip.throws.clear()
                        r = var('h') * (var('u') + k)
                        res = ip.run(g[0], g[1], [r])
                        wh = where(g[1])
                        ck.analysed('%s::%s' % (cls, name))
                        if mode == 'mem':
                            return memory(ck, oid, wh, ip)
                        if not report(ck, oid, wh, ip):
                            return
                        thrown = any(t[0] == ONE for t in ip.throws)
                        if not 0 <= k < n - 1:
                            if k != -1:
                                ck.decide(oid + 'rejected', wh, thrown, 'a radius outside the table is not rejected')
                            return
                        if thrown:
                            ck.bad(oid + 'accepted', wh, 'a radius inside the table is rejected')
                            return
                        v, d = herm(k, lambda i: rd('f', i), lambda i: rd('d', i))
                        xs = res.v if isinstance(res, Tup) else [res]
                        want = {'evaluate': [v], 'evaluate_deriv': [v, d], 'evaluate_deriv_divided': [v, d * inv(r)]}[name]
                        for q, w in enumerate(want):
                            check_same(ck, oid + ('value', 'derivative')[q], wh, ip.val(xs[q], 'double'), w, P(), 'not the interpolating cubic or its derivative')
                    ck.attempt(oid, one)


# ---------------------------------------------------------------- spline sets
def spline_set(ck, p, mode):
    cls = 'CubicSplineSetKokkos'
    for how in ('vectors', 'views'):
        for m, n in ((1, 2), (2, 3), (3, 4), (5, 2)):
            def made():
                ip = machine(p)
                f = ctor(p, cls, 3, sig('double', 'View<' if how == 'views' else 'vector<', ''))
                a = [inview(ip, 'f', (m, n)), inview(ip, 'd', (m, n))] if how == 'views' else [vec(ip, 'f', m, n), vec(ip, 'd', m, n)]
                ip.run(f[0], f[1], [var('h')] + a)
                return ip
            for name, outs, kind in (('evaluate', 1, 'View<'), ('evaluate_derivs', 2, 'View<'), ('evaluate', 1, 'span<'), ('evaluate_derivs', 2, 'span<'), ('evaluate_derivs', 2, 'batch')):
                oid = '%s::%s(%s)/from %s/%d splines, %d nodes/' % (cls, name, kind.strip('<'), how, m, n)

                def one():
                    ks = range(n - 1)
                    if kind == 'batch':
                        ip = machine_of(made)
                        g = fn_of(p, '%s::%s' % (cls, name), 3, sig('View<', 'View<', 'View<'))
                        b = n + 1
                        kk = [q % (n - 1) for q in range(b)]
                        rs = ip.knew((b,), 'double', 'r')
                        ip.kmem[rs.base.root][:] = [var('h') * (var('u') + q) for q in kk]
                        vo, do = outview(ip, 'values', (b, m)), outview(ip, 'derivs', (b, m))
                        ip.run(g[0], g[1], [rs, vo, do])
                        runs = [(kk[q], lambda j, q=q: get(ip, vo, q, j), lambda j, q=q: get(ip, do, q, j)) for q in range(b)]
                        todo = [(ip, g, runs)]
                    else:
                        todo = []
                        for k in ks:
                            ip = made()
                            g = fn_of(p, '%s::%s' % (cls, name), 1 + outs, sig('double', *([kind] * outs)))
                            r = var('h') * (var('u') + k)
                            if kind == 'span<':
                                o = [inspan(ip, 'out%d' % q, m) for q in range(outs)]
                                get1 = lambda q, j, o=o, ip=ip: ip.load(o[q].at(poly(j)), 'double')
                            else:
                                o = [outview(ip, 'out%d' % q, (m,)) for q in range(outs)]
                                get1 = lambda q, j, o=o, ip=ip: get(ip, o[q], j)
                            ip.run(g[0], g[1], [r] + o)
                            todo.append((ip, g, [(k, lambda j, g1=get1: g1(0, j), (lambda j, g1=get1: g1(1, j)) if outs > 1 else None)]))
                    ck.analysed('%s::%s' % (cls, name))
                    for ip, g, runs in todo:
                        wh = where(g[1])
                        if mode == 'mem':
                            memory(ck, oid, wh, ip)
                            continue
                        if not report(ck, oid, wh, ip):
                            return
                        for k, fv, fd in runs:
                            for j in range(m):
                                v, d = herm(k, lambda i: rd('f', j, i), lambda i: rd('d', j, i))
                                check_same(ck, oid + 'value', wh, fv(j), v, P(), 'spline %d on interval %d is not the interpolating cubic' % (j, k))
                                if fd:
                                    check_same(ck, oid + 'derivative', wh, fd(j), d, P(), 'spline %d on interval %d: not the derivative' % (j, k))
                ck.attempt(oid, one)


def machine_of(made):
    return made()


# ---------------------------------------------------------------- radial functions
def radial(ck, p, mode):
    cls = 'RadialFunctionSetKokkos<double>'
    for nel, m, n, types, edges in ((1, 1, 2, [0], [[0]]), (2, 2, 3, [1, 0], [[1, 0], [0, 1]]), (3, 2, 3, [2, 0, 1], [[0, 1, 2], [], [0, 2]]), (4, 1, 2, [3, 1], [[0, 1, 2, 3], [3]]), (2, 3, 4, [0, 1], [[], []])):
        oid = '%s::evaluate/%d elements, %d functions, %d nodes, neighbours %s/' % (cls, nel, m, n, [len(e) for e in edges])

        def one():
            ip = machine(p)
            npair = nel * (nel + 1) // 2
            f = ctor(p, cls, 3)
            ip.run(f[0], f[1], [var('h'), vec(ip, 'f', npair, m, n), vec(ip, 'd', npair, m, n)])
            g = fn_of(p, cls + '::evaluate', 7)
            pr = [(i, t) for i, e in enumerate(edges) for t in e]
            ks = [(3 * q + 1) % (n - 1) for q in range(len(pr))]
            rs = ip.knew((len(pr),), 'double', 'r')
            ip.kmem[rs.base.root][:] = [var('h') * (var('u') + k) for k in ks]
            R, D = outview(ip, 'R', (len(pr), m)), outview(ip, 'R_deriv', (len(pr), m))
            ip.run(g[0], g[1], [poly(len(types)), inview(ip, 'node_types', (len(types),), 'int', types), inview(ip, 'num_neigh', (len(types),), 'int', [len(e) for e in edges]),
                                inview(ip, 'neigh_types', (len(pr),), 'int', [t for _i, t in pr]), rs, R, D])
            wh = where(g[1])
            ck.analysed(cls + '::evaluate')
            if mode == 'mem':
                return memory(ck, oid, wh, ip)
            if not report(ck, oid, wh, ip):
                return
            if not pr:
                return ck.ok(oid + 'nothing-to-do', wh, '')
            for q, (i, t) in enumerate(pr):
                a, b = sorted((types[i], t))
                ty = sum(nel - x for x in range(a)) + b - a
                for j in range(m):
                    v, d = herm(ks[q], lambda x: rd('f', ty, j, x), lambda x: rd('d', ty, j, x))
                    check_same(ck, oid + 'value', wh, get(ip, R, q, j), v, P(), 'pair %d, function %d: not the interpolating cubic of the pair of elements' % (q, j))
                    check_same(ck, oid + 'derivative', wh, get(ip, D, q, j), d, P(), 'pair %d, function %d: not the derivative' % (q, j))
        ck.attempt(oid, one)


# ---------------------------------------------------------------- perceptron
def perceptron(ck, p, mode):
    cls = 'MultilayerPerceptronKokkos'
    for W in ([2, 1], [1, 3, 1], [2, 3, 1], [3, 2, 2, 1], [2, 1, 3, 2, 1]):
        for calls in ([('evaluate', 2)], [('evaluate_gradient', 2)], [('evaluate_gradient', 3), ('evaluate', 1), ('evaluate_gradient', 1), ('evaluate', 1)], [('evaluate', 1), ('evaluate_gradient', 2), ('evaluate_gradient', 2)], [('evaluate', 0), ('evaluate_gradient', 0)]):
            if len(calls) > 1 and len(W) not in (3, 4):
                continue
            oid = '%s/widths %s/%s/' % (cls, W, ', '.join('%s(%d)' % c for c in calls))

            def one():
                ip = machine(p)
                f = ctor(p, cls, 3)
                nl = len(W)
                ip.st.cells['arg.shape.#n'] = poly(nl)
                ip.st.cells['arg.weights.#n'] = poly(nl - 1)
                for l in range(nl):
                    ip.store(Loc('arg.shape', (poly(l),)), poly(W[l]))
                for l in range(nl - 1):
                    ip.store(Loc('arg.weights', (poly(l), '#n')), poly(W[l] * W[l + 1]))
                ip.run(f[0], f[1], [Loc('arg.shape'), Loc('arg.weights'), var('scale')])
                ML.S = var('scale')
                ML.CFG.update({'W': W})
                try:
                    for q, (name, B) in enumerate(calls):
                        g = fn_of(p, '%s::%s' % (cls, name), 2 if name == 'evaluate' else 3)
                        ck.analysed('%s::%s' % (cls, name))
                        x = inview(ip, 'x%d' % q, (B, W[0]))
                        fo, go = outview(ip, 'f', (B,)), outview(ip, 'g', (B, W[0]))
                        ip.run(g[0], g[1], [x, fo] + ([go] if name != 'evaluate' else []))
                        wh = where(g[1])
                        if mode == 'mem':
                            continue
                        if not report(ck, oid, wh, ip):
                            return
                        ws = lambda t: ML.subst_root(t, 'this.weights', 'arg.weights')
                        for b in range(B):
                            xin = lambda i: rd('x%d' % q, b, int(i.const()))
                            check_same(ck, oid + 'value', wh, get(ip, fo, b), ws(ML.ref_layers(nl, xin, ZERO)[0]), pts(4, None, lambda s: {}), 'entry %d of call %d is not the network function' % (b, q))
                            if name != 'evaluate':
                                for c in range(W[0]):
                                    check_same(ck, oid + 'gradient', wh, get(ip, go, b, c), ws(ML.ref_grad(nl, xin, ZERO, poly(c))), pts(4, None, lambda s: {}), 'entry %d of call %d is not the derivative with respect to input %d' % (b, q, c))
                    if mode == 'mem':
                        return memory(ck, oid, wh, ip)
                    if not any(B for _n, B in calls):
                        ck.ok(oid + 'empty', wh, 'no entries')
                finally:
                    ML.CFG.clear()
            ck.attempt(oid, one)


# ---------------------------------------------------------------- polynomial
POLYS = [(2, [[0], [1, 1], [0, 1, 1]]), (3, [[0, 1, 2], [2, 2, 2], [0, 0], [1], [0, 1]]), (1, [[0, 0, 0, 0]]), (4, [[3], [1, 2, 3], [0, 0, 1, 1], [0, 3]]), (3, [[2], [0, 1]])]


def polynomial(ck, p, mode):
    cls = 'MultivariatePolynomialKokkos'
    for nv, mons in POLYS:
        for name in ('evaluate', 'evaluate_simple', 'evaluate_gradient', 'evaluate_gradient_simple', 'sequence'):
            oid = '%s::%s/%d variables, monomials %s/' % (cls, name, nv, mons)

            def one():
                ip = machine(p)
                f = ctor(p, cls, 3)
                ip.st.cells['arg.coefficients.#n'] = poly(len(mons))
                ip.st.cells['arg.monomials.#n'] = poly(len(mons))
                for q, m in enumerate(mons):
                    ip.store(Loc('arg.monomials', (poly(q), '#n')), poly(len(m)))
                    for j, x in enumerate(m):
                        ip.store(Loc('arg.monomials', (poly(q), poly(j))), poly(x))
                ip.run(f[0], f[1], [poly(nv), Loc('arg.coefficients'), Loc('arg.monomials')])
                calls = [name] if name != 'sequence' else ['evaluate_gradient', 'evaluate', 'evaluate_gradient', 'evaluate_gradient_simple']
                for q, nm in enumerate(calls):
                    grad = 'gradient' in nm
                    g = fn_of(p, '%s::%s' % (cls, nm), 2 if grad else 1)
                    ck.analysed('%s::%s' % (cls, nm))
                    x, go = inview(ip, 'x%d' % q, (nv,)), outview(ip, 'g', (nv,))
                    loc = Loc(ip.newroot('g'))
                    ip.st.cells[loc.root] = go
                    res = ip.run(g[0], g[1], [x] + ([loc] if grad else []))
                    go = ip.kval(loc)
                    wh = where(g[1])
                    if mode == 'mem':
                        continue
                    if not report(ck, oid, wh, ip):
                        return
                    ref = ZERO
                    for i, m in enumerate(mons):
                        t = rd('coefficients', i)
                        for v in m:
                            t = t * rd('x%d' % q, v)
                        ref = ref + t
                    check_same(ck, oid + 'value', wh, ip.val(res, 'double'), ref, pts(4, None, lambda s: {}), 'not the sum of coefficient times monomial')
                    if grad:
                        for v in range(nv):
                            check_same(ck, oid + 'gradient', wh, get(ip, go, v), diff(ref, Atom('read', 'arg.x%d' % q, (poly(v),))), pts(4, None, lambda s: {}), 'component %d is not the derivative' % v)
                if mode == 'mem':
                    memory(ck, oid, wh, ip)
            ck.attempt(oid, one)


# ---------------------------------------------------------------- ZBL
def zbl(ck, p, mode):
    cls = 'ZBLKokkos'
    zu, zv, r = var('Zu'), var('Zv'), var('r')

    def made():
        ip = machine(p)
        f = ctor(p, cls, 5)
        ip.st.cells['arg.c.#n'] = poly(4)
        ip.st.cells['arg.covalent_radii.#n'] = poly(120)
        ip.run(f[0], f[1], [var('a_exp'), var('a_prefactor'), Loc('arg.c'), Loc('arg.covalent_radii'), var('p0')])
        return ip

    def pair(a, b):
        def one():
            got = {}
            for nm in ('compute', 'compute_gradient'):
                ip = made()
                f = fn_of(p, '%s::%s' % (cls, nm), 3)
                ck.analysed('%s::%s' % (cls, nm))
                got[nm] = f, ip.val(ip.run(f[0], f[1], [poly(a), poly(b), r]), 'double')
                if mode == 'mem':
                    memory(ck, '%s::%s/elements %d,%d/' % (cls, nm, a, b), where(f[1]), ip)
                elif not report(ck, cls, where(f[1]), ip):
                    return
            if mode == 'mem':
                return
            f, v = got['compute']
            g, d = got['compute_gradient']
            o = cls + '/elements %d,%d/' % (a, b)
            fix = lambda t: subst(t, {Atom('var', 'Zu'): poly(a), Atom('var', 'Zv'): poly(b)})
            ref = ZB.ref_zbl(p, poly(a), poly(b), r)
            inside, beyond = [], []
            for s in range(6):
                inside.append(lambda s=s: zpt(s, a, b, ZB.INSIDE[s]))
                beyond.append(lambda s=s: zpt(s, a, b, ZB.BEYOND[s]))
            check_same(ck, o + 'formula', where(f[1]), v, ref, inside, 'not the ZBL energy with polynomial envelope')
            check_same(ck, o + 'gradient', where(g[1]), d, diff(ref, Atom('var', 'r')), inside, 'not d/dr of the energy', 1e-6)
            check_same(ck, o + 'beyond-cutoff', where(f[1]), v, ZERO, beyond, 'energy beyond the cutoff')
            check_same(ck, o + 'gradient-beyond-cutoff', where(g[1]), d, ZERO, beyond, 'gradient beyond the cutoff')
        return one
    for a, b in ((1, 1), (8, 1), (1, 8), (29, 14), (118, 6)):
        ck.attempt(cls + '/elements %d,%d' % (a, b), pair(a, b))
    Z = [1, 8, 14]
    for cfg in ([2, 1, 3], [0, 2, 0], [1], [0, 0]):
        oid = '%s::compute_ZBL/neighbours %s/' % (cls, cfg)

        def scatter():
            ip = made()
            g = fn_of(p, cls + '::compute_ZBL', 9)
            n, m = len(cfg), sum(cfg)
            ti = [(2 * i + 1) % 3 for i in range(n)]
            tj = [(q * q + 1) % 3 for q in range(m)]
            E, F = outview(ip, 'E', (n,)), outview(ip, 'F', (3 * m,))
            ip.run(g[0], g[1], [poly(n), inview(ip, 'node_types', (n,), 'int', ti), inview(ip, 'num_neigh', (n,), 'int', cfg), inview(ip, 'neigh_types', (m,), 'int', tj),
                                inview(ip, 'atomic_numbers', (3,), 'int', Z), inview(ip, 'r', (m,)), inview(ip, 'xyz', (3 * m,)), E, F])
            wh = where(g[1])
            ck.analysed(cls + '::compute_ZBL')
            if mode == 'mem':
                return memory(ck, oid, wh, ip)
            if not report(ck, oid, wh, ip):
                return
            q = 0
            old = lambda a, k: poly(Atom('read', 'old.' + a, (poly(k),)))
            for i, k in enumerate(cfg):
                e = old('E', i)
                for _ in range(k):
                    zi, zj = Z[ti[i]], Z[tj[q]]
                    t = ZB.ref_zbl(p, poly(zi), poly(zj), r)
                    cut = lt0(r - rd('covalent_radii', zi) - rd('covalent_radii', zj), False)
                    v = subst(ite(cut, t, ZERO), {Atom('var', 'r'): rd('r', q)})
                    d = subst(ite(cut, diff(t, Atom('var', 'r')), ZERO), {Atom('var', 'r'): rd('r', q)})
                    e = e + v
                    for a in range(3):
                        check_same(ck, oid + 'force-' + 'xyz'[a], wh, get(ip, F, 3 * q + a), old('F', 3 * q + a) - rd('xyz', 3 * q + a) * inv(rd('r', q)) * d, ZPTS, 'pair %d: not incremented by -dE/dr times the unit vector' % q)
                    q += 1
                check_same(ck, oid + 'energy', wh, get(ip, E, i), e, ZPTS, 'node %d: not incremented by its pair energies' % i)
        ck.attempt(oid, scatter)


def zreals(s):
    def reals(kind, name, path):
        if name == 'arg.covalent_radii':
            return 0.6 + 0.02 * path[0]
        if name == 'arg.r':
            return [0.5, 1.1, 1.3, 2.0, 0.9, 4.0][(path[0] + s) % 6]
        return None
    return reals


def zints(s):
    def f(kind, name, path):
        return [3, 5, 6, 4, 7, 2][s] if name == 'p0' else None
    return f


def zpt(s, a, b, fr):
    rmax = 1.2 + 0.02 * (a + b)
    return Point(s, zints(s), {'r': fr * rmax}, zreals(s))


ZPTS = [lambda s=s: Point(s, zints(s), {}, zreals(s)) for s in range(6)]


# ---------------------------------------------------------------- properties
PARTS = (('spline', spline), ('spline set', spline_set), ('radial functions', radial), ('perceptron', perceptron), ('polynomial', polynomial), ('repulsion', zbl))


def p_value(ck):
    ck.rule('same-function', 'the value graph of each Kokkos entry point, kernels interpreted iteration by iteration, equals the function (or derivative) its class represents')
    assumptions(ck)
    p = program(*COMP)
    for name, f in PARTS:
        f(ck, p, 'val')


def p_memory(ck):
    ck.rule('inside-views', 'every element a kernel or host function reads or writes exists in its view')
    ck.rule('library-contract', 'views of one deep_copy have equal extents, scratch and level arguments agree, reductions are joined')
    ck.rule('no-race', 'no two iterations (or team threads) of one kernel touch the same element unless both read it or both use an atomic operation')
    assumptions(ck)
    p = program(*COMP)
    for name, f in PARTS:
        f(ck, p, 'mem')
    import mkokkos
    mkokkos.all_cfgs(ck, ('mem',))


def assumptions(ck):
    ck.assume('host execution space: mirror views alias their views and a kernel has finished when parallel_for returns')
    ck.assume('stubs/kokkos declares the Kokkos interface; its meaning is the one modelled in engine/kvals.py')
    ck.assume('floating point treated as exact real arithmetic; templates instantiated for double')
