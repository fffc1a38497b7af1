"""Piecewise-cubic tables: C1 interpolation, derivative consistency, domain."""
from cpp import *

N = 5          # table length used at evaluation points of the identity test


def hermite(h, f0, d0, f1, d1, x):
    c2 = (f1 - f0) * 3 * inv(h) * inv(h) - (2 * d0 + d1) * inv(h)
    c3 = (f0 - f1) * 2 * inv(h) * inv(h) * inv(h) + (d0 + d1) * inv(h) * inv(h)
    return f0 + d0 * x + c2 * x * x + c3 * x * x * x


CFG = {}
CONFIGS = [('m=%d n=%d' % (m, n), {'m': m, 'n': n}) for m, n in ((1, 3), (2, 2), (3, 4), (4, 3), (5, 2), (8, 3))]


def size(k):
    return poly(CFG[k]) if k in CFG else var(k)


def jv(j):
    return poly(CFG['j']) if 'j' in CFG else bvar(j)


def with_cfg(c, f):
    def g():
        CFG.update(c)
        try:
            f()
        finally:
            CFG.clear()
    return g


def build(cls, nested, src):
    p = program(src)
    ip = Interp(p, unroll=max(100, 2 * CFG.get('m', 0), 2 * CFG.get('n', 0))) if CFG else Interp(p)
    n = size('n')
    if nested:
        m = size('m')
        ip.st.cells['arg.f.#n'] = m
        ip.st.cells['arg.d.#n'] = m
        j = rng(m)
        for a in ('arg.f', 'arg.d'):
            ip.push(a, Rec('set', ((j, m, 'asc', 'x'),), ONE, (bvar(j), '#n'), n))
    else:
        ip.st.cells['arg.f.#n'] = n
        ip.st.cells['arg.d.#n'] = n
    ctor = fn_of(p, cls + '::' + cls, 3)
    ip.run(ctor[0], ctor[1], [var('h'), Loc('arg.f'), Loc('arg.d')])
    return p, ip


def ints(kind, name, path):
    if name == 'n':
        return N
    if name == 'm':
        return 3
    return None


NS = [5, 6, 4, 9, 5, 17]
MS = [3, 1, 4, 8, 5, 16]


@per
def ints_per(s):
    def f(kind, name, path):
        return {'n': NS[s % 6], 'm': MS[s % 6]}.get(name)
    return f


def val(pt, name):
    return pt.over.get(('var', name), pt.env.get(name)) if name in pt.env else pt.sym('var', name)


def fit_to(j, inside=True):
    """moves step, radius, table length, set size or spline index, keeping the others consistent"""
    def fit(pt, key, v):
        if key == ('var', 'h'):
            if isinstance(v, int) or not 1e-6 < v < 1e5:
                return False
            pt.env['r'] *= v / pt.env['h']
            pt.env['h'] = v
            return True
        if key == ('var', 'r'):
            if inside and v < 0 or v == 0 or abs(v / pt.env['h']) > 1e5:
                return False
            pt.env['r'] = float(v)
            if inside and int(v / pt.env['h']) > CFG.get('n', pt.sym('var', 'n')) - 2:
                if 'n' in CFG:
                    return False
                pt.over['var', 'n'] = int(v / pt.env['h']) + 2
            return True
        if key == ('var', 'n'):
            if v < 2:
                return False
            pt.over[key] = v
            if inside and pt.env['r'] >= pt.env['h'] * (v - 1):
                pt.env['r'] = pt.env['h'] * (v - 2 + 0.37)
            return True
        if key == ('var', 'm'):
            if v < 1:
                return False
            pt.over[key] = v
            pt.env[j] = v - 1
            return True
        if key == ('bv', j):
            if v < 0 or 'm' in CFG and v >= CFG['m']:
                return False
            pt.env[j] = v
            if 'm' not in CFG:
                pt.over['var', 'm'] = max(pt.sym('var', 'm'), v + 1)
            return True
        return None
    return fit


def env_in(s):
    h = 0.25 + 0.1 * s
    return {'h': h, 'r': h * [0.37, 1.61, 2.25, 3.93, 0.02, 3.0001][s % 6]}


def env_at(s):
    h = 0.25 + 0.1 * s
    return {'h': h, 'r': h * [0.37, 4.61, 2.25, 7.93, 0.02, 15.7][s % 6]}


def env_out(s):
    h = 0.25 + 0.1 * s
    return {'h': h, 'r': h * [4.01, 5.5, -1.25, 9.0, -7.0, 4.5][s % 6]}


def entry_points(cls, nested):
    if not nested:
        return [('evaluate', ['v']), ('evaluate_deriv', ['v', 'd']), ('evaluate_deriv_divided', ['v', 'dd'])]
    return [('evaluate', ['v']), ('evaluate_derivs', ['v', 'd'])]


def results(p, ip, cls, nested, name, nout, r, j):
    f = fn_of(p, '%s::%s' % (cls, name), 1 if not nested else 1 + nout)
    nthrow = len(ip.throws)
    if not nested:
        v = ip.run(f[0], f[1], [r])
        vals = [ip.val(x, 'double') for x in (v.v if isinstance(v, Tup) else [v])]
    else:
        outs = []
        for k in range(nout):
            a = 'arg.out%d' % k
            ip.st.cells[a + '.#n'] = size('m')
            outs.append(Loc(a))
        ip.run(f[0], f[1], [r] + outs)
        vals = [ip.load(o.sub(jv(j)), 'double') for o in outs]
    return f, vals, ip.throws[nthrow:]


def interpolation(ck, cls, src, nested):
    for name, outs in entry_points(cls, nested):
        one = lambda: interp1(ck, cls, src, nested, name, outs)
        cf = [c for c in CONFIGS if nested or c[1]['m'] == 1] if nested else [('n=%d' % n, {'n': n}) for n in (2, 3, 5)]
        more = lambda k: [('%s=%d' % (a, k + 2), with_cfg(dict({'m': 2, 'n': 2} if nested else {}, **dict({'j': k + 1} if a == 'm' else {'j': 1}, **{a: k + 2})), one)) for a in (('m', 'n') if nested else ('n',))]
        ck.staged('%s::%s' % (cls, name), one, [(l, with_cfg(c, one)) for l, c in cf], more)


def interp1(ck, cls, src, nested, name, outs):
    h, r, n = var('h'), var('r'), size('n')
    i = trunc_(r * inv(h))
    RANGE[Atom('trunc', r * inv(h))] = n - 1
    POSITIVE.add(n - 1)
    j = rng(size('m'))

    def el(a, k):
        return poly(Atom('read', a, ((jv(j), k) if nested else (k,))))
    ref = hermite(h, el('arg.f', i), el('arg.d', i), el('arg.f', i + 1), el('arg.d', i + 1), r - h * i)
    hx = Atom('var', 'r')
    refd = diff(subst(ref, {Atom('trunc', r * inv(h)): var('@i')}), hx)
    refd = subst(refd, {Atom('var', '@i'): i})
    expect = {'v': ref, 'd': refd, 'dd': refd * inv(r)}
    M = (lambda s: CFG['m']) if 'm' in CFG else (lambda s: MS[s % 6])
    Nn = (lambda s: CFG['n']) if 'n' in CFG else (lambda s: NS[s % 6])

    def env(s):
        hh = 0.25 + 0.1 * s
        k = (0, Nn(s) - 2, Nn(s) // 2, 1)[s % 4]
        return {'h': hh, 'r': hh * (min(k, Nn(s) - 2) + [0.37, 0.61, 0.25, 0.93, 0.02, 0.7][s % 6]), j: s % M(s) if s < 12 else M(s) - 1}
    p, ip = build(cls, nested, src)
    f, vals, throws = results(p, ip, cls, nested, name, len(outs), r, j)
    ck.analysed('%s::%s' % (cls, name))
    ck.analysed('%s::%s' % (cls, cls))
    what = {'v': 'value', 'd': 'derivative', 'dd': 'derivative divided by r'}
    for k, o in enumerate(outs):
        oid = '%s::%s/%s' % (cls, name, what[o].replace(' ', '-'))
        if k >= len(vals):
            ck.bad(oid, where(f[1]), 'the entry point does not return it')
            continue
        check_same(ck, oid, where(f[1]), vals[k], expect[o], pts(18, ints_per, env, fit=fit_to(j)),
                   'not the %s of the C1 cubic through the nodal values and nodal derivatives' % what[o])


def domain(ck, cls, src, nested):
    j = rng(var('m'))
    for name, outs in entry_points(cls, nested):
        def one():
            RANGE.pop(Atom('trunc', var('r') * inv(var('h'))), None)
            p, ip = build(cls, nested, src)
            ip.throws.clear()
            f, vals, throws = results(p, ip, cls, nested, name, len(outs), var('r'), j)
            ck.analysed('%s::%s' % (cls, name))
            oid = '%s::%s/' % (cls, name)
            wh = where(f[1])
            if any(taints(t[0]) for t in throws):
                ck.und(oid + 'domain', wh, 'rejection condition not resolved')
                return
            any_ = ONE
            for t in throws:
                any_ = any_ * (ONE - t[0])
            any_ = ONE - any_
            bad_in, bad_out = [], []
            for s in range(6):
                x = Point(s, ints, env_in(s)).poly(any_, {})
                if x != 0:
                    bad_in.append(env_in(s))
                y = Point(s, ints, env_out(s)).poly(any_, {})
                if y == 0:
                    bad_out.append(env_out(s))
            # exactly at the two table ends
            for k, want in ((0, 0), (N - 1, 1), (N - 2, 0)):
                e = {'h': 0.25, 'r': 0.25 * k}
                y = Point(0, ints, e).poly(any_, {})
                if want and not y:
                    bad_out.append(e)
                if y and not want:
                    bad_in.append(e)
            def compare(pt):
                r0 = pt.env['r']
                for k in (None, 0.4, pt.sym('var', 'n') - 1.4, pt.sym('var', 'n') - 0.6, -1.3):
                    if k is not None:
                        pt.env['r'] = pt.env['h'] * k
                        pt.memo.clear()
                    compare1(pt)
                pt.env['r'] = r0
                return ''

            def compare1(pt):
                k = pt.env['r'] / pt.env['h']
                n = pt.sym('var', 'n')
                y = pt.poly(any_, {})
                if 0 <= k < n - 1 - 1e-9 and y:
                    bad_in.append(dict(pt.env, n=n))
                elif (k <= -1 or k >= n - 1) and not y:
                    bad_out.append(dict(pt.env, n=n))
                return ''
            import steer
            steer.explore(any_, ONE, pts(6, ints, lambda s: dict(env_in(s), **{j: 0}), fit=fit_to(j, False)) + pts(6, ints, lambda s: dict(env_out(s), **{j: 0}), fit=fit_to(j, False)), compare)
            ck.decide(oid + 'accepts-in-range', wh, not bad_in, 'rejects radii inside the table (n=%d nodes unless given), e.g. %s' % (N, bad_in[:1]))
            ck.decide(oid + 'rejects-out-of-range', wh, not bad_out, 'no exception is raised for a radius outside the table (n=%d nodes unless given), e.g. %s' % (N, bad_out[:1]))
        ck.attempt('%s::%s/domain' % (cls, name), one)


def p_interp(ck):
    ck.rule('hermite', 'summary(constructor ; entry point) as a term in r, h, nodal values and derivatives equals the cubic Hermite interpolant on interval trunc(r/h), resp. its formal derivative')
    ck.assume('floating-point operations are treated as exact real operations')
    ck.assume('all nodal rows have the same length n >= 2')
    interpolation(ck, 'CubicSpline', 'cubic_spline.cpp', False)
    interpolation(ck, 'CubicSplineSet', 'cubic_spline_set.cpp', True)


def p_domain(ck):
    ck.rule('guard', 'the disjunction of the path conditions of the throw statements, as a function of r, h and the table length, is false on the table and true outside it')
    domain(ck, 'CubicSpline', 'cubic_spline.cpp', False)
    domain(ck, 'CubicSplineSet', 'cubic_spline_set.cpp', True)
