"""Multivariate polynomial: value, gradient and batch entry points agree."""
from cpp import *
from values import COV

CLS = 'MultivariatePolynomial'
SRC = ('multivariate_polynomial.cpp', 'tools.cpp')
NV = 3


def rd(root, *path):
    return poly(Atom('read', root, tuple(poly(x) for x in path)))


CFG = {}


def with_cfg(c, f):
    def g():
        CFG.update(c)
        try:
            f()
        finally:
            CFG.clear()
    return g


def edge(i, q):
    if 'case' in CFG:
        return poly(CASES[CFG['case']][1][i][q])
    return rd('this.edges', i, q)


def nvar():
    if 'case' in CFG:
        return poly(CASES[CFG['case']][0])
    return var('nv')


def BB():
    return poly(CFG['B']) if 'B' in CFG else var('B')


def ref_value(idx, i, x):
    """value of graph node idx when the first i products have been formed"""
    v = x(idx)
    for k in range(i):
        v = ite(eq0(idx - nvar() - k), ref_value(edge(k, 0), k, x) * ref_value(edge(k, 1), k, x), v)
    return v


def ref_dvalue(idx, i, x, c):
    v = eq0(idx - c)
    for k in range(i):
        a, b = edge(k, 0), edge(k, 1)
        v = ite(eq0(idx - nvar() - k),
                ref_dvalue(a, k, x, c) * ref_value(b, k, x) + ref_value(a, k, x) * ref_dvalue(b, k, x, c), v)
    return v


def coef(k):
    return poly(Atom('read', 'this.node_coefficients', (k,)))


def ref(E, x, c=None):
    b = rng(nvar())
    if c is None:
        t = sum1(b, nvar(), coef(bvar(b)) * x(bvar(b)))
        for k in range(E):
            t = t + coef(nvar() + k) * ref_value(edge(k, 0), k, x) * ref_value(edge(k, 1), k, x)
        return t
    t = coef(c)
    for k in range(E):
        a, e = edge(k, 0), edge(k, 1)
        t = t + coef(nvar() + k) * (ref_dvalue(a, k, x, c) * ref_value(e, k, x) + ref_value(a, k, x) * ref_dvalue(e, k, x, c))
    return t


CASES = [(3, [(0, 1), (2, 3), (4, 4), (3, 5)]), (3, [(0, 0), (3, 3), (4, 1), (2, 5)]), (1, [(0, 0), (1, 0), (1, 1), (2, 3)]),
         (3, [(1, 2), (3, 0), (0, 3), (5, 4)]), (4, [(3, 1), (4, 2), (0, 5), (6, 6)]), (3, [(2, 2), (2, 3), (4, 0), (6, 3)])]
PB = [2, 1, 4, 3, 2]
NPT = 12


def setup(p, E):
    ip = Interp(p, unroll=100) if CFG else Interp(p)
    ip.st.cells['this.num_variables'] = nvar()
    POSITIVE.add(Atom('var', 'nv'))
    n = nvar() + E
    ip.st.cells['this.edges.#n'] = poly(E)
    ip.st.cells['this.nodes.#n'] = n
    ip.st.cells['this.node_coefficients.#n'] = n
    for k in range(E):
        for q in (0, 1):
            if CFG:
                ip.store(Loc('this.edges', (poly(k), poly(q))), edge(k, q))
                continue
            RANGE[Atom('read', 'this.edges', (poly(k), poly(q)))] = nvar() + k
    return ip


def mkints(s):
    def ints(kind, name, path):
        if name == 'nv':
            return CASES[CFG.get('case', s % 6)][0]
        if name == 'B':
            return CFG.get('B') or PB[s % 5]
        if name == 'this.edges':
            return CASES[CFG.get('case', s % 6)][1][path[0]][path[1]]
        return None
    return ints


def mkpts(env):
    return [lambda s=s: Point(s, mkints(s), env(s)) for s in range(NPT)]


FIELDS = {'edges', 'nodes', 'node_coefficients', 'num_variables'}


def go(ck, E, what):
    p = program(*SRC)
    cls = p.classes.get(CLS)
    have = {c.get('name') for c in cls[1].get('inner', []) if c.get('kind') == 'FieldDecl'} if cls else set()
    if not FIELDS <= have:
        ck.und('%s/%d-products' % (CLS, E), '', 'private graph fields %s not found (the constructed-list obligations stand alone)' % sorted(FIELDS - have))
        return
    POSITIVE.add(Atom('var', 'B'))
    for name, batch, hasgrad in (('evaluate', False, False), ('evaluate_gradient', False, True), ('evaluate_batch', True, True)):
        if what == 'grad' and not hasgrad:
            continue

        def one(name=name, batch=batch, hasgrad=hasgrad):
            B = BB()
            ip = setup(p, E)
            f = fn_of(p, '%s::%s' % (CLS, name), 2 if batch else 1)
            ip.st.cells['arg.x.#n'] = nvar() * (B if batch else ONE)
            r = ip.run(f[0], f[1], [Loc('arg.x')] + ([B] if batch else []))
            ck.analysed('%s::%s' % (CLS, name))
            for q, _w in ip.calls:
                ck.analysed(q)
            e, c = rng(B), rng(nvar())
            x = (lambda i: poly(Atom('read', 'arg.x', (bvar(e) * nvar() + i,)))) if batch else (lambda i: poly(Atom('read', 'arg.x', (i,))))
            env = lambda s: {e: (s // 2) % (CFG.get('B') or PB[s % 5]), c: (s + s // 6) % CASES[CFG.get('case', s % 6)][0]}
            wh = where(f[1])
            oid = '%s::%s/%d-products/' % (CLS, name, E)
            if what == 'val':
                v = r.v[0] if isinstance(r, Tup) else r
                if batch:
                    v = ip.load(v.sub(bvar(e)), 'double')
                v = ip.val(v, 'double')
                check_same(ck, oid + 'value', wh, v, ref(E, x), mkpts(env), 'not the sum of coefficients times node products')
            else:
                g = r.v[1]
                v = ip.load(g.sub(bvar(e) * nvar() + bvar(c) if batch else bvar(c)), 'double')
                check_same(ck, oid + 'gradient', wh, v, ref(E, x, bvar(c)), mkpts(env), 'not the partial derivative of the polynomial')
                n = ip.load(g.sub('#n'), 'int')
                check_same(ck, oid + 'gradient-size', wh, n, nvar() * (B if batch else ONE), mkpts(env), 'wrong number of gradient entries')
        cf = [('graph %d%s' % (k, ' batch %d' % PB[k % 5] if batch else ''), {'case': k, 'B': PB[k % 5]}) for k in range(6)]
        ck.staged('%s::%s/%d-products' % (CLS, name, E), one, [(l, with_cfg(c, one)) for l, c in cf])


# ---- the direct ("simple") variants, symbolic in the monomial list
def simple(ck, what):
    p = program(*SRC)
    cls = p.classes.get(CLS)
    have = {c.get('name') for c in cls[1].get('inner', []) if c.get('kind') == 'FieldDecl'} if cls else set()
    if not {'monomials', 'coefficients', 'num_variables'} <= have:
        ck.und(CLS + '/simple', '', 'private fields not found (the constructed-list obligations stand alone)')
        return

    def mono_len(i):
        return poly(Atom('read', 'this.monomials', (i, '#n')))

    def mono(i, j):
        return poly(Atom('read', 'this.monomials', (i, j)))

    def ints(kind, name, path):
        if name == 'nv':
            return NV
        if name == 'K':
            return 3
        if name == 'this.monomials':
            if path[-1] == '#n':
                return [2, 1, 3][path[0]]
            return [[0, 2], [1], [0, 0, 1]][path[0]][path[1]]
        return None

    def refs(x, c=None):
        i = rng(var('K'))
        ib = bvar(i)
        cf = poly(Atom('read', 'this.coefficients', (ib,)))
        if c is None:
            j = rng(mono_len(ib))
            return sum1(i, var('K'), cf * mprod(((j, mono_len(ib)),), x(mono(ib, bvar(j)))))
        # d/dx_c prod_j x[m_j] = sum_j [m_j=c] prod_{k!=j} x[m_k]
        j, k = rng(mono_len(ib)), rng(mono_len(ib))
        same_ = eq0(bvar(k) - bvar(j))
        body = eq0(mono(ib, bvar(j)) - c) * mprod(((k, mono_len(ib)),), ite(same_, ONE, x(mono(ib, bvar(k)))))
        return sum1(i, var('K'), cf * sum1(j, mono_len(ib), body))
    for name, hasgrad in (('evaluate_simple', False), ('evaluate_gradient_simple', True)):
        if what == 'grad' and not hasgrad:
            continue

        def one():
            ip = Interp(p)
            ip.st.cells['this.num_variables'] = nvar()
            ip.st.cells['this.coefficients.#n'] = var('K')
            ip.st.cells['this.monomials.#n'] = var('K')
            POSITIVE.add(Atom('var', 'K'))
            f = fn_of(p, '%s::%s' % (CLS, name), 1)
            r = ip.run(f[0], f[1], [Loc('arg.x')])
            ck.analysed('%s::%s' % (CLS, name))
            x = lambda i: poly(Atom('read', 'arg.x', (i,)))
            c = rng(nvar())
            P = pts(6, ints, lambda s: {c: s % NV})
            oid = '%s::%s/' % (CLS, name)
            if what == 'val':
                v = r.v[0] if isinstance(r, Tup) else r
                check_same(ck, oid + 'value', where(f[1]), ip.val(v, 'double'), refs(x), P, 'not the sum of coefficients times monomials')
            else:
                v = ip.load(r.v[1].sub(bvar(c)), 'double')
                check_same(ck, oid + 'gradient', where(f[1]), v, refs(x, bvar(c)), P, 'not the partial derivative of the polynomial')
        ck.attempt('%s::%s' % (CLS, name), one)


# ---- the constructor, symbolic coefficients and point, constant monomial lists
def lists(ck):
    out = [(3, [[0, 1, 1], [2], [0, 0, 2, 2, 1]]),
           (1, [[0]]), (1, [[0], [0, 0], [0, 0, 0], [0, 0, 0, 0, 0]]),
           (2, [[1, 1, 1, 1], [0], [0, 1]]),
           (3, [[2, 1, 0]]), (3, [[0, 1], [0, 1], [2, 2]]),
           (4, [[3, 3, 3], [0, 1, 2, 3], [1, 2], [2]]),
           (3, [[0, 1, 2], [2, 1], [0, 2], [1, 1], [2], [0]]),
           (5, [[4, 0]]), (2, [[0, 0, 0, 0, 0, 0]]),
           (3, [[1, 0, 1], [0, 1, 1], [2, 0]])]
    g = 12345
    for q in range(14 if ck.tier == 'quick' else 120):
        def r(m):
            nonlocal g
            g = (g * 1103515245 + 12345) & 0x7fffffff
            return (g >> 12) % m
        nv = 1 + r(5)
        out.append((nv, [sorted(r(nv) for _ in range(1 + r(4 + q % 3))) for _ in range(1 + r(7))]))
    return out


def larger(k):
    """(label, variables, monomials, batch) with one size beyond k"""
    out = []
    out.append(('variables', k + 2, [[k + 1], [0, k + 1], [k]], 2))
    if k <= 8:
        out.append(('degree', 2, [[0] * (k // 2 + 1) + [1] * (k + 1 - k // 2 - 1 + 1)], 1))
        out.append(('power', 1, [[0] * (k + 1)], 1))
    M = []
    n = 2
    while (n * (n + 1)) // 2 + n < k + 2 and n < 16:
        n += 1
    for a in range(n):
        M.append([a])
        for b in range(a, n):
            M.append([a, b])
    out.append(('monomials', n, M[::-1], 1))
    out.append(('batch', 2, [[0, 1, 1], [1], [0, 0]], k + 2))
    return out


def constructed(ck, what):
    todo = [(str(num), nv, M, 2) for num, (nv, M) in enumerate(lists(ck))]
    before = set(COV)
    construct(ck, what, todo)
    for k in ck.thresholds(200, before)[-3:]:
        ck.notes.append('a size is compared with %d: larger monomial lists and batches analysed as well' % k)
        construct(ck, what, [('beyond-%d-%s' % (k, l), nv, M, B) for l, nv, M, B in larger(k)])


def construct(ck, what, todo):
    p = program(*SRC)
    for num, nv, M, B in todo:
        def one():

            def fresh():
                ip = Interp(p, unroll=max(200, 2 * nv, 2 * B))
                f = fn_of(p, '%s::%s' % (CLS, CLS), 3)
                mo = Loc(ip.newroot('monomials'))
                ip.mat_into(mo, tuple(tuple(m) for m in M))
                ip.st.cells['arg.c.#n'] = poly(len(M))
                ip.run(f[0], f[1], [poly(nv), Loc('arg.c'), mo])
                ck.analysed('%s::%s' % (CLS, CLS))
                for q, _w in ip.calls:
                    ck.analysed(q)
                return ip

            def mref(e, c=None):
                t = ZERO
                for i, m in enumerate(M):
                    x = [rd('arg.x', e * nv + v) for v in m]
                    for j in ([None] if c is None else [j for j in range(len(m)) if m[j] == c]):
                        u = rd('arg.c', i)
                        for k, y in enumerate(x):
                            if k != j:
                                u = u * y
                        t = t + u
                return t
            names = [('evaluate', 0, 0), ('evaluate_simple', 0, 0), ('evaluate_gradient', 0, 1), ('evaluate_gradient_simple', 0, 1), ('evaluate_batch', 1, 1)]
            for name, batch, hasgrad in names:
                if what == 'grad' and not hasgrad:
                    continue
                ip = fresh()
                nb = B if batch else 1
                ip.st.cells['arg.x.#n'] = poly(nv * nb)
                f = fn_of(p, '%s::%s' % (CLS, name), 2 if batch else 1)
                r = ip.run(f[0], f[1], [Loc('arg.x')] + ([poly(B)] if batch else []))
                P = [lambda s=s: Point(s, lambda *a: None, {}) for s in range(4)]
                oid = '%s::%s/list-%s/' % (CLS, name, num)
                wh = where(fn_of(p, '%s::%s' % (CLS, CLS), 3)[1])
                txt = 'for %d variables and monomials %s: ' % (nv, str(M)[:200])
                big = num.startswith('beyond')
                for e in range(nb) if not big else sorted({0, nb // 2, nb - 2, nb - 1} & set(range(nb))):
                    if what == 'val':
                        v = r.v[0] if isinstance(r, Tup) else r
                        v = ip.val(ip.load(v.sub(poly(e)), 'double') if batch else v, 'double')
                        check_same(ck, oid + 'value' + ('-%d' % e if batch else ''), wh, v, mref(e), P, txt + 'not the sum of coefficients times monomials')
                        continue
                    n = ip.load(r.v[1].sub('#n'), 'int')
                    check_same(ck, oid + 'gradient-size-%d' % e, wh, n, poly(nv * nb), P, txt + 'wrong number of gradient entries')
                    for c in range(nv) if not big else sorted({0, 1, nv // 2, nv - 2, nv - 1} & set(range(nv))):
                        v = ip.load(r.v[1].sub(poly(e * nv + c)), 'double')
                        check_same(ck, oid + 'gradient-%d-%d' % (e, c), wh, v, mref(e, c), P, txt + 'not the partial derivative')
        ck.attempt('%s::%s/list-%s' % (CLS, CLS, num), one, limit=60 if not num.startswith('beyond') else 150)


def internal(ck, f, *a):
    """obligations stated over the private graph representation: they add depth, but
    they only count against the code when the public behaviour fails as well"""
    had = any(o[0] == 'violated' for o in ck.obl)
    saved, ck.obl = ck.obl, []
    f(ck, *a)
    got, ck.obl = ck.obl, saved
    for o in got:
        if o[0] == 'violated' and not had:
            o = ('undecided', o[1], o[2], 'the private graph fields are not used as expected (%s)' % o[3][:80])
        ck.obl.append(o)


def p_value(ck):
    ck.rule('constructed', 'for each enumerated monomial list (symbolic coefficients and point), the value computed from the graph the constructor builds is the sum of coefficients times monomials')
    constructed(ck, 'val')
    ck.rule('graph', 'with E products of symbolic earlier nodes (E=1..3) and symbolic variable count, the returned value equals sum_k coef_k*node_k')
    for E in ((1, 2, 3) if ck.tier == 'quick' else (1, 2, 3, 4)):
        internal(ck, go, E, 'val')
    internal(ck, simple, 'val')


def p_grad(ck):
    ck.rule('constructed', 'for each enumerated monomial list the gradient from the constructed graph is the formal derivative')
    constructed(ck, 'grad')
    ck.rule('graph', 'every returned gradient entry equals the formal partial derivative of that value')
    for E in ((1, 2, 3) if ck.tier == 'quick' else (1, 2, 3, 4)):
        internal(ck, go, E, 'grad')
    internal(ck, simple, 'grad')
