"""Sequences of calls on one object: history independence and accesses inside the buffers.

The kinds and sizes of the calls are enumerated; what the calls are given (inputs, weights,
coefficients, tables) is symbolic."""
from cpp import *
from values import Str
import mace

NOINT = lambda *a: None


def mlp_object(shape, batches=(None, 0, 1, 2, 3)):
    nl = len(shape)

    def make(bounds):
        p = program('multilayer_perceptron.cpp')
        ip = Interp(p, unroll=300, bounds=bounds)
        ip.st.cells['arg.shape.#n'] = poly(nl)
        ip.st.cells['arg.weights.#n'] = poly(nl - 1)
        for l, w in enumerate(shape):
            ip.store(Loc('arg.shape', (poly(l),)), poly(w))
        for l in range(nl - 1):
            ip.store(Loc('arg.weights', (poly(l), '#n')), poly(shape[l] * shape[l + 1]))
        f = fn_of(p, 'MultilayerPerceptron::MultilayerPerceptron', 3)
        ip.run(f[0], f[1], [Loc('arg.shape'), Loc('arg.weights'), var('scale')])
        return p, ip
    I, O = shape[0], shape[-1]
    ops = {}
    for b in batches:
        n = 1 if b is None else b
        ops['evaluate' if b is None else 'evaluate_batch of %d' % b] = ('MultilayerPerceptron::evaluate' + ('' if b is None else '_batch'), I * n, b, [O * n])
        ops['evaluate_gradient' if b is None else 'evaluate_gradient_batch of %d' % b] = ('MultilayerPerceptron::evaluate_gradient' + ('' if b is None else '_batch'), I * n, b, [O * n, O * I * n])
    return make, ops


def poly_object(nv, M, batches=(0, 1, 2, 3)):
    def make(bounds):
        p = program('multivariate_polynomial.cpp', 'tools.cpp')
        ip = Interp(p, unroll=300, bounds=bounds)
        mo = Loc(ip.newroot('monomials'))
        ip.muted(ip.mat_into, mo, tuple(tuple(m) for m in M))
        ip.st.cells['arg.c.#n'] = poly(len(M))
        f = fn_of(p, 'MultivariatePolynomial::MultivariatePolynomial', 3)
        ip.run(f[0], f[1], [poly(nv), Loc('arg.c'), mo])
        return p, ip
    ops = {}
    C = 'MultivariatePolynomial::'
    for s in ('', '_simple'):
        ops['evaluate' + s] = (C + 'evaluate' + s, nv, None, [None])
        ops['evaluate_gradient' + s] = (C + 'evaluate_gradient' + s, nv, None, [None, nv])
    for b in batches:
        ops['evaluate_batch of %d' % b] = (C + 'evaluate_batch', nv * b, b, [b, nv * b])
    return make, ops


def call(p, ip, op, k, shared=False):
    """one call with input array number k; returns the output terms. shared: all calls are given
    the same array, which holds the input of the call"""
    q, nin, batch, outs = op
    f = fn_of(p, q, 1 if batch is None else 2)
    a = 'arg.in%d' % k
    if shared:
        for i in range(nin):
            ip.store(Loc('arg.shared', (poly(i),)), poly(Atom('read', a, (poly(i),))))
        a = 'arg.shared'
    ip.st.cells[a + '.#n'] = poly(nin)
    r = ip.run(f[0], f[1], [Loc(a)] + ([poly(batch)] if batch is not None else []))
    vs = r.v if isinstance(r, Tup) else [r]
    res = []
    for v, n in zip(vs, outs):
        if n is None:
            res.append((None, [ip.val(v, 'double')]))
            continue
        sz = ip.container_size(v)
        ip.mute += 1
        res.append((sz, [ip.load(v.sub(poly(i)), 'double') for i in range(n)]))
        ip.mute -= 1
    return f, res


def back(t):
    for k in (2, 1):
        t = RootRename('arg.in%d' % k, 'arg.in0')._t(t)
    return t


OBJECTS = [('MultilayerPerceptron [2, 3, 2]', lambda: mlp_object([2, 3, 2])),
           ('MultilayerPerceptron [3, 1, 2]', lambda: mlp_object([3, 1, 2])),
           ('MultilayerPerceptron [1, 2, 3, 1]', lambda: mlp_object([1, 2, 3, 1])),
           ('MultivariatePolynomial of 3 variables', lambda: poly_object(3, [[0, 1, 1], [2], [0, 0, 2, 2, 1], [0, 1]])),
           ('MultivariatePolynomial of 2 variables', lambda: poly_object(2, [[1, 1, 1, 1], [0], [0, 1]]))]


def larger(k):
    n = k + 2
    return [('MultilayerPerceptron [1, 2, 1], batches to %d' % n, lambda: mlp_object([1, 2, 1], (None, 1, n))),
            ('MultilayerPerceptron [2, %d, 2]' % n, lambda: mlp_object([2, n, 2], (None, 2))),
            ('MultivariatePolynomial of 2 variables, batches to %d' % n, lambda: poly_object(2, [[0, 1], [0]], (1, n))),
            ('MultivariatePolynomial of %d variables' % n, lambda: poly_object(n, [[n - 1, 0], [1]], (1,)))]


def sizes(names):
    """a large batch, something small, a batch in between"""
    return [[a, x, b] for a in names if 'of 3' in a for x in names if ' of ' not in x or 'of 1' in x for b in names if 'of 2' in b]


def history(ck, label, mk):
    make, ops = mk()
    fresh_res = {}

    def base(name):
        if name not in fresh_res:
            p, ip = make(False)
            f, r = call(p, ip, ops[name], 0)
            fresh_res[name] = (f, r, list(ip.unsupported))
        return fresh_res[name]
    P = [lambda s=s: Point(s, NOINT, {}) for s in range(3)]

    def seq(names, shared=False):
        oid = '%s/%s%s' % (label, ' ; '.join(names), ' on one array' if shared else '')

        def one():
            f, want, uns = base(names[-1])
            p, ip = make(False)
            for k, n in enumerate(names):
                _f, got = call(p, ip, ops[n], len(names) - 1 - k, shared)
                if k < len(names) - 1:
                    continue
                ck.analysed(ops[n][0])
                if ip.unsupported or uns:
                    ck.und(oid, where(f[1]), 'not modelled: %s' % (ip.unsupported or uns)[0][0])
                    return
            # the last call used input 0, as the fresh one did
            for (gs, g), (ws, w) in zip(got, want):
                if gs is not None:
                    if not (isinstance(gs, Poly) and isinstance(ws, Poly)) or gs.const() is None or ws.const() is None:
                        ck.und(oid, where(f[1]), 'result size not resolved')
                        return
                    if gs != ws:
                        ck.bad(oid, where(f[1]), 'the result has %s entries after the earlier calls and %s on a fresh object' % (gs, ws))
                        return
                for i, (x, y) in enumerate(zip(g, w)):
                    r, d = same(x, y, P, 1e-9)
                    if r == 'different':
                        ck.bad(oid, where(f[1]), 'entry %d of the result depends on the earlier calls: %s' % (i, d))
                        return
                    if r not in ('equal', 'agree'):
                        ck.und(oid, where(f[1]), d)
                        return
            ck.ok(oid, where(f[1]), 'result terms equal those of a fresh object')
        ck.attempt(oid, one, limit=40)
    names = list(ops)
    for a in names:
        for b in names:
            seq([a, b])
            if ops[a][1] == ops[b][1] and ops[a][1]:
                seq([a, b], True)
    for q in sizes(names):
        seq(q)
    bn = [n for n in names if 'of 3' in n or 'of 0' in n][:3] if len(names) > 7 else []
    for a in bn:
        for b in names[:4]:
            seq([a, b, names[-2]])


def p_history(ck):
    ck.rule('history', 'for every ordered pair (and some triples) of entry points and batch sizes, the terms and sizes returned by the last call, with symbolic inputs to all calls, equal those it returns on a freshly constructed object; in particular they mention no earlier input')
    ck.assume('call kinds and batch sizes 0 to 3 are enumerated; contents of all inputs are symbolic')
    for label, mk in OBJECTS:
        history(ck, label, mk)
    for k in ck.thresholds(100)[-2:]:
        ck.notes.append('a size is compared with %d: larger objects and batches analysed as well' % k)
        for label, mk in larger(k):
            history(ck, label, mk)


# ---------------------------------------------------------------- accesses inside the buffers
def report(ck, oid, f, ip, n0=0):
    wh = where(f[1])
    if ip.unsupported:
        ck.und(oid, ip.unsupported[0][1], 'not modelled: ' + ip.unsupported[0][0])
        return
    if ip.oob:
        what, root, path, n, w = ip.oob[0]
        ck.bad(oid, w or wh, '%s element %s of %s, which has %s elements (%d such accesses)' % (what, path[-1], root.replace('this.', '').split(':')[-1] + ''.join('[%s]' % x for x in path[:-1]), n, len(ip.oob)))
        return
    if not ip.nacc:
        ck.und(oid, wh, 'no access resolved')
        return
    ck.ok(oid, wh, '%d accesses of known index and container size, all inside' % ip.nacc)


def bounds_calls(ck, label, mk):
    make, ops = mk()
    names = list(ops)
    seqs = [[n] for n in names] + [[a, n] for a in ('evaluate_batch of 3', names[0], 'evaluate_batch of 0') if a in ops for n in names] + sizes(names)
    for q in seqs:
        oid = '%s/%s' % (label, ' ; '.join(q))

        def one():
            p, ip = make(True)
            for k, n in enumerate(q):
                f, _r = call(p, ip, ops[n], k)
                ck.analysed(ops[n][0])
            for c, _w in ip.calls:
                ck.analysed(c)
            report(ck, oid, f, ip)
        ck.attempt(oid, one, limit=40)


def bounds_mace(ck, cfg, systems):
    oid = 'MACE::compute_node_energies_forces/' + cfg.label

    def one():
        p, ip, f = mace.summarise(cfg, 0, True)
        for s in systems:
            a = mace.args(ip, s)
            ip.run(f[0], f[1], a)
        for q, _w in ip.calls:
            ck.analysed(q)
        report(ck, oid, f, ip)
    ck.attempt(oid, one, limit=300)


def bounds_spline(ck, cls, src, nested):
    from fractions import Fraction as Fr
    for n in (2, 3, 5):
        for m in ((1, 3) if nested else (1,)):
            for name, nout in ((('evaluate', 1), ('evaluate_derivs', 2)) if nested else (('evaluate', 0), ('evaluate_deriv', 0), ('evaluate_deriv_divided', 0))):
                for x in [Fr(k, 2) for k in (-8, -2, *range(0, 2 * n + 4), 200)]:
                    if x == 0 and 'divided' in name:
                        continue        # 0/0
                    oid = '%s::%s/%d nodes%s, r = %s h' % (cls, name, n, ', %d splines' % m if nested else '', x)

                    def one():
                        p = program(src)
                        ip = Interp(p, unroll=100, bounds=True)
                        for a in ('arg.f', 'arg.d'):
                            ip.st.cells[a + '.#n'] = poly(m if nested else n)
                            for j in range(m if nested else 0):
                                ip.store(Loc(a, (poly(j), '#n')), poly(n))
                        f = fn_of(p, cls + '::' + cls, 3)
                        h = poly(Fr(1, 4))
                        ip.run(f[0], f[1], [h, Loc('arg.f'), Loc('arg.d')])
                        f = fn_of(p, '%s::%s' % (cls, name), 1 + nout)
                        outs = []
                        for k in range(nout):
                            ip.st.cells['arg.out%d.#n' % k] = poly(m)
                            outs.append(Ptr('arg.out%d' % k, (), ZERO, size=poly(m)))
                        ip.run(f[0], f[1], [poly(x) * h] + outs)
                        ck.analysed('%s::%s' % (cls, name))
                        report(ck, oid, f, ip)
                    ck.attempt(oid, one, limit=30)


def bounds_zbl(ck, lists):
    for nn in lists:
        oid = 'ZBL::compute_ZBL/neighbours %s' % nn

        def one():
            import zbl
            p = program('zbl.cpp')
            ip = zbl.made(p, unroll=300, bounds=True)
            ip.st.cells['this.covalent_radii.#n'] = poly(119)
            tot = sum(nn)
            spec = [('node_types', [(3 * i + 1) % 2 for i in range(len(nn))]), ('num_neigh', nn), ('neigh_types', [(i * i) % 2 for i in range(tot)]), ('atomic_numbers', [8, 118]),
                    ('r', tot), ('xyz', 3 * tot), ('E', len(nn)), ('F', 3 * tot)]
            a = [poly(len(nn))]
            for k, v in spec:
                if isinstance(v, list):
                    mace.put_int(ip, 'arg.' + k, v)
                    v = len(v)
                ip.st.cells['arg.%s.#n' % k] = poly(v)
                a.append(Ptr('arg.' + k, (), ZERO, size=poly(v)))
            f = fn_of(p, 'ZBL::compute_ZBL', 9)
            ip.oob.clear()
            ip.run(f[0], f[1], a)
            ck.analysed('ZBL::compute_ZBL')
            report(ck, oid, f, ip)
        ck.attempt(oid, one, limit=30)


def p_bounds(ck):
    ck.rule('inside', 'at each constant configuration of sizes, every element access (including those of the CBLAS and std:: calls) whose container has a propagated size has an index inside it')
    ck.assume('inputs have the sizes the interface asks for; accesses whose index is not a propagated constant are not judged here (spline intervals are, at constant radius/step ratios)')
    bounds_spline(ck, 'CubicSpline', 'cubic_spline.cpp', False)
    bounds_spline(ck, 'CubicSplineSet', 'cubic_spline_set.cpp', True)
    for label, mk in OBJECTS:
        bounds_calls(ck, label, mk)
    bounds_zbl(ck, ([2, 1, 3], [0, 2, 0], [1], [0, 0]))
    import copy

    def sysm(cfg, edges, types):
        c = copy.copy(cfg)
        c.edges, c.types, c.N = edges, types, len(edges)
        c.pairs = [(i, j) for i, js in enumerate(edges) for j in js]
        c.ntypes = [types[j] for _i, j in c.pairs]
        return c
    for k, cfg in enumerate(mace.CFGS + (mace.DEEP if ck.tier == 'thorough' else [])):
        t = cfg.nel
        more = [sysm(cfg, [[1, 0], [0, 1, 2], [2], [0]], [0, t - 1, 0, (t - 1) // 2]), sysm(cfg, [[0]], [t - 1])] if k != 0 else []
        bounds_mace(ck, cfg, more)
    for cfg in mace.larger(6):
        bounds_mace(ck, cfg, [])
    for k in ck.thresholds(100)[-2:]:
        ck.notes.append('a size is compared with %d: larger objects and systems analysed as well' % k)
        for label, mk in larger(k):
            bounds_calls(ck, label, mk)
        bounds_zbl(ck, ([k + 2], [0, 1] + [0] * k))
        for cfg in mace.larger(k):
            bounds_mace(ck, cfg, [])
