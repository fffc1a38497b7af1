"""Multilayer perceptron: one function behind four entry points, exact Jacobian."""
from cpp import *

CLS = 'MultilayerPerceptron'
SRC = 'multilayer_perceptron.cpp'


CFG = {}


def W(l):
    if 'W' in CFG:
        return poly(CFG['W'][l])
    return poly(Atom('read', 'this.shape', (poly(l),)))


def BB():
    return poly(CFG['B']) if 'B' in CFG else var('B')


def with_cfg(c, f):
    def g():
        CFG.update(c)
        try:
            f()
        finally:
            CFG.clear()
    return g


def act(x, s):
    return s * x * inv(ONE + exp_(-x))


def dact(x, s):
    g = inv(ONE + exp_(-x))
    return s * g + s * x * g * (ONE - g)


def w(l, i, j):
    return poly(Atom('read', 'this.weights', (poly(l), i * W(l) + j)))


def total(n, f):
    c = n.const()
    if c is not None:
        t = ZERO
        for b in range(int(c)):
            t = t + f(poly(b))
        return t
    b = rng(n)
    return sum1(b, n, f(bvar(b)))


def memo(f):
    d = {}

    def g(l, i):
        if i.const() is None:
            return f(l, i)
        k = (l, int(i.const()))
        if k not in d:
            d[k] = f(l, i)
        return d[k]
    return g


def ref_layers(nl, xin, o):
    """pre-activation of layer nl-1, output o, given input accessor"""
    s = S

    @memo
    def pre(l, i):
        return total(W(l - 1), lambda b: w(l - 1, i, b) * val(l - 1, b))

    @memo
    def val(l, i):
        if l == 0:
            return xin(i)
        return act(pre(l, i), s)
    return pre(nl - 1, o), pre


def ref_grad(nl, xin, o, c):
    """d out[o] / d in[c] (chain rule over layers)"""
    _, pre = ref_layers(nl, xin, o)

    @memo
    def d(l, i):
        # d pre(l,i)/d in[c]
        if l == 1:
            return w(0, i, c)
        return total(W(l - 1), lambda b: w(l - 1, i, b) * dact(pre(l - 1, b), S) * d(l - 1, b))
    return d(nl - 1, o)


S = None
NPT = 6


def setup(p, nl):
    """the object as the constructor leaves it, for nl layers of symbolic width"""
    global S
    ip = Interp(p, unroll=max(100, 2 * CFG['B'], 2 * max(CFG['W']))) if CFG else Interp(p)
    for l in range(nl if not CFG else 0):
        POSITIVE.add(Atom('read', 'this.shape', (poly(l),)))
    ctor = fn_of(p, CLS + '::' + CLS, 3)
    ip.st.cells['arg.shape.#n'] = poly(nl)
    ip.st.cells['arg.weights.#n'] = poly(nl - 1)
    for l in range(nl):
        ip.store(Loc('arg.shape', (poly(l),)), W(l))
    for l in range(nl - 1):
        ip.store(Loc('arg.weights', (poly(l), '#n')), W(l) * W(l + 1))
    ip.run(ctor[0], ctor[1], [Loc('arg.shape'), Loc('arg.weights'), var('scale')])
    S = var('scale')
    return ip


def rename_weights(t):
    return t


def run(p, nl, name, batch):
    ip = setup(p, nl)
    f = fn_of(p, '%s::%s' % (CLS, name), 2 if batch else 1)
    B = BB()
    POSITIVE.add(Atom('var', 'B'))
    ip.st.cells['arg.in.#n'] = W(0) * B if batch else W(0)
    args = [Loc('arg.in')] + ([B] if batch else [])
    r = ip.run(f[0], f[1], args)
    outs = r.v if isinstance(r, Tup) else [r]
    return f, ip, outs


WIDS = [[2, 3, 2, 3, 2], [1, 4, 1, 2, 3], [3, 1, 2, 1, 1], [4, 2, 3, 2, 4], [1, 1, 1, 1, 1], [2, 5, 4, 2, 2]]
BS = [3, 1, 4, 2, 5, 1]


def wid(s):
    return CFG.get('W') or WIDS[s % 6]


def bs(s):
    return CFG.get('B') or BS[s % 6]


@per
def ints(s):
    def f(kind, name, path):
        if name == 'this.shape':
            return wid(s)[path[0]]
        if name == 'B':
            return bs(s)
        return None
    return f


def fit_to(nl, o, c, e):
    """moves a width, the batch size or an index, keeping the others consistent"""
    def fit(pt, key, v):
        if CFG and (key[0] == 'bv' or key[1] in ('B', 'this.shape')):
            return False
        if key[0] == 'read' and key[1] == 'this.shape':
            if v < 1:
                return False
            pt.over[key] = v
            if key[2] == (nl - 1,):
                pt.env[o] = v - 1
            if key[2] == (0,):
                pt.env[c] = v - 1
            return True
        if key == ('var', 'B'):
            if v < 1:
                return False
            pt.over[key] = v
            pt.env[e] = v - 1
            return True
        if key[0] == 'bv' and key[1] in (o, c, e):
            if v < 0:
                return False
            pt.env[key[1]] = v
            k = ('var', 'B') if key[1] == e else ('read', 'this.shape', (nl - 1 if key[1] == o else 0,))
            now = pt.sym(*k) if k[0] == 'read' else pt.sym('var', 'B')
            pt.over[k] = max(now, v + 1)
            return True
        return None
    return fit


def idx(i, name):
    """an index of the result: symbolic, or the last one of a large configuration"""
    return poly(CFG['at'][name]) if 'at' in CFG else bvar(i)


ENTRY = [('evaluate', False, False), ('evaluate_batch', True, False),
         ('evaluate_gradient', False, True), ('evaluate_gradient_batch', True, True)]


def deeper(ck, what):
    """a comparison that every number of layers so far fell on one side of"""
    for k in ck.thresholds(20)[-2:]:
        ck.notes.append('a size is compared with %d: %d layers analysed as well' % (k, k + 3))
        go(ck, k + 3, what, True)


def go(ck, nl, what, fixed=False):
    p = program(SRC)
    fixw = lambda t: subst_root(t, 'arg.weights', 'this.weights')
    for name, batch, grad in ENTRY:
        if what == 'grad' and not grad:
            continue

        def one():
            o, c, e = rng(W(nl - 1)), rng(W(0)), rng(BB())
            xin = (lambda i: poly(Atom('read', 'arg.in', (idx(e, 'e') * W(0) + i,)))) if batch else (lambda i: poly(Atom('read', 'arg.in', (i,))))
            f, ip, outs = run(p, nl, name, batch)
            ck.analysed('%s::%s' % (CLS, name))
            ck.analysed('%s::%s' % (CLS, CLS))
            env = lambda s: {o: s % wid(s)[nl - 1], c: (s + 1) % wid(s)[0], e: s % bs(s)}
            oid = '%s::%s/%d-layers/' % (CLS, name, nl)
            wh = where(f[1])
            fit = fit_to(nl, o, c, e)
            O, C, E = idx(o, 'o'), idx(c, 'c'), idx(e, 'e')
            if what == 'val':
                off = E * W(nl - 1) + O if batch else O
                v = fixw(ip.load(outs[0].sub(off), 'double'))
                check_same(ck, oid + 'value', wh, v, ref_layers(nl, xin, O)[0], pts(NPT, ints, env, fit=fit),
                           'not the network function (affine layers with scaled x*sigmoid(x) between them, none after the last)')
                n = ip.load(outs[0].sub('#n'), 'int')
                check_same(ck, oid + 'output-size', wh, n, W(nl - 1) * (BB() if batch else ONE), pts(6, ints, env, fit=fit), 'wrong number of outputs')
            else:
                if len(outs) < 2:
                    ck.bad(oid + 'gradient', wh, 'no gradient returned')
                    return
                off = O * W(0) + C
                if batch:
                    off = off + E * W(nl - 1) * W(0)
                v = fixw(ip.load(outs[1].sub(off), 'double'))
                check_same(ck, oid + 'gradient', wh, v, ref_grad(nl, xin, O, C), pts(NPT, ints, env, fit=fit),
                           'not the derivative of output o with respect to input c')
                n = ip.load(outs[1].sub('#n'), 'int')
                check_same(ck, oid + 'gradient-size', wh, n, W(nl - 1) * W(0) * (BB() if batch else ONE), pts(6, ints, env, fit=fit), 'wrong number of gradient entries')
        shapes = {2: [[2, 3], [1, 1], [3, 1]], 3: [[2, 3, 2], [1, 2, 3], [3, 1, 2], [2, 2, 1]], 4: [[2, 3, 1, 2], [1, 2, 2, 2], [3, 2, 3, 1]], 5: [[2, 1, 3, 2, 2]]}.get(nl) or [[1] * nl]
        cf = [('widths %s%s' % (w_, ' batch %d' % b_ if batch else ''), {'W': w_, 'B': b_}) for k_, w_ in enumerate(shapes) for b_ in ((1, 3) if batch and k_ == 0 else ((2, 1, 3)[k_ % 3],) if batch else (1,))]
        if fixed:
            for w_ in ([1] * nl, [2] + [1] * (nl - 2) + [2]):
                ck.attempt('%s::%s/%d-layers' % (CLS, name, nl), with_cfg({'W': w_, 'B': 2 if batch else 1}, one))
            continue

        def more(k):
            out = []
            for q in range(nl + (1 if batch else 0)):
                W_, B_ = [2] * nl, 2
                if q == nl:
                    W_, B_ = [1] * nl, k + 2
                else:
                    W_[q] = k + 2
                c_ = {'W': W_, 'B': B_, 'at': {'o': W_[-1] - 1, 'c': W_[0] - 1, 'e': B_ - 1}}
                out.append(('widths %s%s' % (W_, ' batch %d' % B_ if batch else ''), with_cfg(c_, one)))
            return out
        ck.staged('%s::%s/%d-layers' % (CLS, name, nl), one, [(l_, with_cfg(c_, one)) for l_, c_ in cf], more)


def subst_root(t, a, b):
    m = {}
    for x in all_atoms(t):
        if x.kind == 'read' and x.args[0] == a:
            m[x] = None
    if not m:
        return t
    return RootRename(a, b)._t(t)


def p_value(ck):
    ck.rule('network', 'read of every output element, as a term in inputs, weights and widths, equals the reference network term for 2..4 layers of symbolic width and symbolic batch size')
    ck.assume('the input has length width[0] (times batch size), weights[l] has width[l]*width[l+1] entries')
    for nl in ((2, 3, 4) if ck.tier == 'quick' else (2, 3, 4, 5)):
        go(ck, nl, 'val')
    deeper(ck, 'val')


def p_grad(ck):
    ck.rule('jacobian', 'every element of the returned Jacobian equals the chain-rule derivative of the network term, for 2..4 layers of symbolic width and symbolic batch size')
    for nl in (2, 3, 4):
        go(ck, nl, 'grad')
    deeper(ck, 'grad')
