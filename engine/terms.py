"""Algebraic normal form for the value graph.

A scalar value is a Poly: a multivariate Laurent polynomial with rational
coefficients over hash-consed Atoms.  Conditions are 0/1-valued polynomials, so
that a gated merge (phi) of two values is  c*a + (1-c)*b  and merges are again
ordinary polynomials.  Nothing in here evaluates anything: two values are equal
when their normal forms are.
"""
from fractions import Fraction
from itertools import permutations
import sys

sys.setrecursionlimit(20000)

BOOL_KINDS = frozenset(['ilt', 'rlt', 'rle', 'eq', 'bvar'])


def _q(x):
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    return x


class Atom:
    __slots__ = ('kind', 'args', 'key', 'fv', 'tags', '_h')
    table = {}

    def __new__(cls, kind, *args):
        t = (kind,) + args
        a = cls.table.get(t)
        if a is None:
            a = object.__new__(cls)
            a.kind = kind
            a.args = args
            a._h = hash(t)
            a.fv, a.tags = _collect(kind, args)
            a.key = _mkkey(kind, args)
            cls.table[t] = a
        return a

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.key


def _flat(args):
    for a in args:
        if isinstance(a, tuple):
            yield from _flat(a)
        else:
            yield a


def _collect(kind, args):
    fv = set()
    tags = set()
    for a in _flat(args):
        if isinstance(a, (Atom, Poly)):
            fv |= a.fv
            tags |= a.tags
    if kind == 'bv':
        fv.add(args[0])
    elif kind in ('sum', 'prod', 'lam'):
        # args: (binders=((id,N),...), body): ids are bound
        for b, _n in args[0]:
            fv.discard(b)
    elif kind == 'unk':
        tags.add('unk')
    elif kind == 'cur':
        tags.add('cur')
    return frozenset(fv), frozenset(tags)


def _s(a):
    if isinstance(a, tuple):
        return '(' + ','.join(_s(x) for x in a) + ')'
    if isinstance(a, Atom):
        return a.key
    if isinstance(a, Poly):
        return a.key
    return str(a)


def _mkkey(kind, args):
    if kind in ('var', 'bvar'):
        return str(args[0])
    if kind == 'bv':
        return '$%s' % (args[0],)
    if kind == 'inv':
        return 'inv[%s]' % _s(args[0])
    if kind == 'read':
        root, path = args
        return str(root) + ''.join('.%s' % p if isinstance(p, str) else '[%s]' % _s(p) for p in path)
    if kind in ('ilt', 'rlt'):
        return '{%s<0}' % _s(args[0])
    if kind == 'rle':
        return '{%s<=0}' % _s(args[0])
    if kind == 'eq':
        return '{%s==0}' % _s(args[0])
    if kind in ('sum', 'prod'):
        return '%s{%s: %s}' % (kind, ','.join('$%s<%s' % (b, _s(n)) for b, n in args[0]), _s(args[1]))
    return kind + '(' + ','.join(_s(a) for a in args) + ')'


class TimeLimit(BaseException):
    """the time allotted to one group of obligations is used up"""


class Clock:
    deadline = None
    n = 0

    @staticmethod
    def set(seconds):
        import time
        Clock.deadline = None if seconds is None else time.time() + seconds

    @staticmethod
    def tick():
        import time
        if Clock.deadline is not None and time.time() > Clock.deadline:
            Clock.deadline = None
            raise TimeLimit('time limit')


class Poly:
    __slots__ = ('t', '_key', '_h', '_fv', '_tags')

    def __init__(self, t):
        Clock.n += 1
        if not Clock.n & 4095:
            Clock.tick()
        self.t = t
        self._key = None
        self._h = None
        self._fv = None
        self._tags = None

    @property
    def key(self):
        if self._key is None:
            if not self.t:
                self._key = '0'
            else:
                out = []
                for m, c in sorted(self.t.items(), key=lambda mc: _mkey(mc[0])):
                    s = _mkey(m)
                    if not s:
                        out.append(str(c))
                    elif c == 1:
                        out.append(s)
                    else:
                        out.append('%s*%s' % (c, s))
                self._key = ' + '.join(out)
        return self._key

    def _meta(self):
        fv = set()
        tags = set()
        for m in self.t:
            for a, _e in m:
                fv |= a.fv
                tags |= a.tags
        self._fv = frozenset(fv)
        self._tags = frozenset(tags)

    @property
    def fv(self):
        if self._fv is None:
            self._meta()
        return self._fv

    @property
    def tags(self):
        if self._tags is None:
            self._meta()
        return self._tags

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        return self.key

    # --- arithmetic
    def __add__(self, o):
        o = poly(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = _q(v)
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-poly(o))

    def __rsub__(self, o):
        return poly(o) + (-self)

    def __mul__(self, o):
        o = poly(o)
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(b) == 1:
            (m, c), = b.items()
            if not m:
                if c == 1:
                    return self
                return Poly({k: _q(v * c) for k, v in a.items()})
        if len(a) == 1:
            (m, c), = a.items()
            if not m:
                if c == 1:
                    return o
                return Poly({k: _q(v * c) for k, v in b.items()})
        r = {}
        extra = None
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mmul(m1, m2)
                if m is None:
                    continue
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = _q(v)
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(poly(o))

    def __rtruediv__(self, o):
        return poly(o) * inv(self)

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b
            n >>= 1
        return r

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_zero(self):
        return not self.t

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _e in m:
                s.add(a)
        return s


def _mkey(m):
    return '*'.join(a.key if e == 1 else '%s^%s' % (a.key, e) for a, e in m)


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    hasb = False
    for a, e in m1:
        d[a] = e
        if a.kind in BOOL_KINDS:
            hasb = True
    for a, e in m2:
        v = _q(d.get(a, 0) + e)
        if a.kind in BOOL_KINDS:
            hasb = True
            v = 1
        if v:
            d[a] = v
        else:
            del d[a]
    if hasb:
        if not _bool_simplify(d):
            return None
    return tuple(sorted(d.items(), key=lambda ae: ae[0].key))


def _split_const(p):
    c = p.t.get((), 0)
    if c:
        t = dict(p.t)
        del t[()]
        return Poly(t), c
    return p, 0


def _bool_simplify(d):
    """conjunction of bool atoms; drop implied ones, return False if contradictory"""
    groups = {}
    eqs = {}
    for a in d:
        if a.kind in ('ilt', 'rlt', 'rle'):
            b, c = _split_const(a.args[0])
            groups.setdefault(b, []).append((c, a))
        elif a.kind == 'eq':
            b, c = _split_const(a.args[0])
            eqs.setdefault(b, []).append((c, a))
    for b, lst in groups.items():
        if len(lst) > 1:
            # p + c < 0 : strongest has the largest c
            best = max(lst, key=lambda ca: (ca[0], ca[1].kind != 'rle'))
            for c, a in lst:
                if a is not best[1]:
                    del d[a]
            lst[:] = [best]
    for b, lst in eqs.items():
        if len(lst) > 1 and len(set(c for c, _ in lst)) > 1:
            return False
        if b in groups:
            ce = lst[0][0]      # b = -ce
            for c, a in groups[b]:
                v = -ce + c
                if (v < 0) or (v == 0 and a.kind == 'rle'):
                    d.pop(a, None)
                else:
                    return False
    return True


ZERO = Poly({})
ONE = Poly({(): 1})


def poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): 1})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if x == 0:
        return ZERO
    return Poly({(): _q(Fraction(x)) if not isinstance(x, int) else x})


def var(name):
    return poly(Atom('var', name))


def bvar(i):
    return poly(Atom('bv', i))


# ---------------------------------------------------------------- inverse
def inv(p):
    if not p.t:
        return poly(Atom('unk', 'div0'))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = poly(Fraction(1) / c)
        neg = []
        for a, e in m:
            if a.kind == 'inv' and e > 0:
                r = r * (a.args[0] ** e)
            elif a.kind in BOOL_KINDS:
                return poly(Atom('unk', 'divbool'))
            else:
                neg.append((a, -e))
        return r * Poly({tuple(neg): 1}) if neg else r
    # primitive part: divide by leading coefficient and the monomial content
    cont, prim = content(p)
    return inv(cont) * poly(Atom('inv', prim))


def content(p):
    """p = cont * prim, cont a monomial; canonical"""
    monos = list(p.t)
    common = None
    for m in monos:
        d = dict(m)
        if common is None:
            common = d
        else:
            for a in list(common):
                e = d.get(a)
                if e is None:
                    # atom absent: exponent 0; if common exponent negative keep it
                    if common[a] > 0:
                        del common[a]
                else:
                    common[a] = min(common[a], e)
            for a, e in d.items():
                if a not in common and e < 0:
                    common[a] = e
    common = {a: e for a, e in (common or {}).items() if a.kind not in BOOL_KINDS and e}
    lead = min(monos, key=_mkey)
    c = p.t[lead]
    cm = tuple(sorted(common.items(), key=lambda ae: ae[0].key))
    cont = Poly({cm: c})
    icm = tuple((a, -e) for a, e in cm)
    prim = p * Poly({icm: Fraction(1) / c})
    return cont, prim


def exact_div(a, b):
    """a / b as a polynomial if it divides (simple cases), else None"""
    if not b.t:
        return None
    if not a.t:
        return ZERO
    if len(b.t) == 1:
        r = a * inv(b)
        for m in r.t:
            for at, e in m:
                if e < 0:
                    return None
        return r
    # multivariate division by leading-term w.r.t. a chosen atom
    q = ZERO
    rem = a
    lead = max(b.t, key=lambda m: (sum(e for _, e in m), _mkey(m)))
    lc = b.t[lead]
    for _ in range(64):
        if not rem.t:
            return q
        # pick the term divisible by lead with the largest degree
        cand = None
        for m in rem.t:
            d = dict(m)
            if all(d.get(at, 0) >= e for at, e in lead):
                k = (sum(e for _, e in m), _mkey(m))
                if cand is None or k > cand[0]:
                    cand = (k, m)
        if cand is None:
            return None
        m = cand[1]
        qm = Poly({m: Fraction(rem.t[m]) / lc}) * Poly({tuple((at, -e) for at, e in lead): 1})
        q = q + qm
        rem = rem - qm * b
    return None


# ---------------------------------------------------------------- functions
def exp_(p):
    r = ONE
    for m, c in p.t.items():
        # exp(c*m) = exp(m)^c (exponents may be rational)
        r = r * Poly({((Atom('exp', Poly({m: 1})), c),): 1})
    return r


def pow_(b, e):
    c = e.const()
    if b == ONE:
        return ONE
    if c is not None:
        if isinstance(c, int) and abs(c) <= 64:
            return b ** c
        if len(b.t) == 1 and not isinstance(c, int):
            (m, cc), = b.t.items()
            if all(a.kind not in BOOL_KINDS and a.kind != 'inv' for a, _ in m):
                r = Poly({tuple((a, _q(Fraction(ex) * c)) for a, ex in m): 1})
                if cc != 1:
                    r = r * poly(Atom('pow', poly(cc), e))
                return r
    # split exponent: integer constant part + symbolic part
    sym, k = _split_const(e)
    ip = 0
    if isinstance(k, int):
        ip = k
        k = 0
    else:
        ip = k.numerator // k.denominator
        k = k - ip
    e2 = sym + poly(k)
    r = b ** ip if abs(ip) <= 64 else poly(Atom('pow', b, poly(ip)))
    if e2.is_zero():
        return r
    # base: split monomials into factors (real positive bases)
    if len(b.t) == 1:
        (m, cc), = b.t.items()
        if cc != 1:
            r = r * _pw(poly(cc), e2)
        for a, ex in m:
            if a.kind in BOOL_KINDS:
                r = r * poly(a)
            elif a.kind == 'pow' :
                r = r * pow_(a.args[0], a.args[1] * e2 * ex)
            else:
                r = r * _pw(poly(a), e2 * ex)
        return r
    return r * _pw(b, e2)


def _pw(b, e):
    # canonical sign of exponent: extract integer multiple of symbolic part
    if not e.t:
        return ONE
    lead = min(e.t, key=_mkey)
    c = e.t[lead]
    if c < 0:
        a = Atom('pow', b, -e)
        return Poly({((a, -1),): 1})
    return poly(Atom('pow', b, e))


def sqrt_(p):
    c = p.const()
    if isinstance(c, int) and 0 <= c < 10 ** 12:
        import math
        if math.isqrt(c) ** 2 == c:
            return poly(math.isqrt(c))
    return pow_(p, poly(Fraction(1, 2)))


def fn(name, *args):
    return poly(Atom('fn', name, *args))


NARROW = {}     # atom -> (lo, hi): a value known to lie strictly between


def trunc_(p):
    c = p.const()
    if c is not None:
        return poly(int(c))
    lo = hi = Fraction(0)
    for m, c in p.t.items():
        if not m:
            lo, hi = lo + c, hi + c
            continue
        if len(m) != 1 or m[0][1] != 1:
            break
        a = m[0][0]
        if a in NARROW:
            b = [c * x for x in NARROW[a]]
        elif a.kind == 'pow' and all(isinstance(x, Poly) and x.const() is not None for x in a.args) and a.args[0].const() > 0:
            v = Fraction(float(a.args[0].const()) ** float(a.args[1].const()))
            b = [c * v - Fraction(1, 10 ** 9), c * v + Fraction(1, 10 ** 9)]
        else:
            break
        lo, hi = lo + min(b), hi + max(b)
    else:
        import math
        k = math.floor(lo)
        if k >= 0 and hi < k + 1 or lo > -1 and hi < 1:
            return poly(max(k, 0))
        if hi < 0 and math.ceil(hi) == math.floor(lo) + 1 and lo > math.floor(lo):
            return poly(math.ceil(hi))
    return poly(Atom('trunc', p))


def idiv(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        q = abs(ca) // abs(cb)
        return poly(q if (ca >= 0) == (cb > 0) else -q)
    q = exact_div(a, b)
    if q is not None and all(isinstance(c, int) for c in q.t.values()):
        return q
    return poly(Atom('idiv', a, b))


def imod(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        return poly(int(ca) - int(cb) * int(Fraction(int(ca), int(cb)).__trunc__()))
    return a - b * idiv(a, b)


# ---------------------------------------------------------------- conditions
def _scale_pos(p):
    """divide by the positive content of the non-constant coefficients;
    return (p', negated?) with the leading coefficient positive"""
    nc = [(m, c) for m, c in p.t.items() if m]
    lead = min((m for m, _ in nc), key=_mkey)
    g = None
    from math import gcd
    for _m, c in nc:
        c = Fraction(c)
        if g is None:
            g = abs(c)
        else:
            g = Fraction(gcd(g.numerator * c.denominator, abs(c.numerator) * g.denominator),
                         g.denominator * c.denominator)
    s = p.t[lead] < 0
    return p * poly(Fraction(1) / g), s


def lt0(p, is_int):
    """[p < 0]"""
    c = p.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    p, negd = _scale_pos(p)
    if is_int:
        # p may have fractional constant: floor/ceil
        b, k = _split_const(p)
        if negd:
            # -b' + k < 0  <=> b' > k <=> not (b' <= k) <=> not(b' - floor(k) -1 < 0)
            kk = k if isinstance(k, int) else k.__floor__()
            return ONE - poly(Atom('ilt', (-b) - kk - 1))
        kk = k if isinstance(k, int) else k.__floor__()      # b + k < 0 <=> b + floor(k) < 0
        return poly(Atom('ilt', b + kk))
    if negd:
        return ONE - poly(Atom('rle', -p))
    return poly(Atom('rlt', p))


def le0(p, is_int):
    c = p.const()
    if c is not None:
        return ONE if c <= 0 else ZERO
    if is_int:
        return lt0(p - 1, True)
    p, negd = _scale_pos(p)
    if negd:
        return ONE - poly(Atom('rlt', -p))
    return poly(Atom('rle', p))


def eq0(p):
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    p, negd = _scale_pos(p)
    if negd:
        p = -p
    return poly(Atom('eq', p))


def not_(c):
    return ONE - c


def ite(c, a, b):
    if a == b:
        return a
    return c * a + (ONE - c) * b


def boolify(p):
    """value used as a condition"""
    c = p.const()
    if c is not None:
        return ONE if c else ZERO
    if is_boolean(p):
        return p
    return ONE - eq0(p)


def is_boolean(p):
    """syntactically 0/1 valued"""
    for m in p.t:
        for a, _e in m:
            if a.kind not in BOOL_KINDS:
                return False
    return True


# ---------------------------------------------------------------- substitution
def subst(x, m):
    """m: dict Atom -> Poly"""
    memo = {}
    return _subst(x, m, memo)


def _subst(x, m, memo):
    if isinstance(x, tuple):
        return tuple(_subst(a, m, memo) for a in x)
    if isinstance(x, Poly):
        r = memo.get(x)
        if r is None:
            r = _subst_poly(x, m, memo)
            memo[x] = r
        return r
    if isinstance(x, Atom):
        r = memo.get(x)
        if r is None:
            r = _subst_atom(x, m, memo)
            memo[x] = r
        return r
    return x


def _subst_poly(p, m, memo):
    r = ZERO
    acc = {}
    changed = False
    for mono, c in p.t.items():
        subs = [(a, e, _subst(a, m, memo)) for a, e in mono]
        if all(isinstance(s, Poly) and len(s.t) == 1 and s.t.get(((a, 1),)) == 1 for a, e, s in subs):
            acc[mono] = c
            continue
        changed = True
        t = poly(c)
        for a, e, s in subs:
            t = t * (s ** e if isinstance(e, int) else pow_(s, poly(e)))
        r = r + t
    if not changed:
        return p
    return r + Poly(acc)


def _subst_atom(a, m, memo):
    if a in m:
        return m[a]
    k = a.kind
    if k in ('var', 'bv', 'bvar'):
        return poly(a)
    if k in ('sum', 'prod'):
        bs, body = a.args
        m2 = m
        ids = {b for b, _ in bs}
        clash = [x for x in m if x.kind == 'bv' and x.args[0] in ids]
        if clash:
            m2 = {x: v for x, v in m.items() if x not in clash}
        # capture avoidance: rename binders if they occur free in images
        free = set()
        for v in m2.values():
            free |= v.fv
        memo2 = memo if m2 is m and not (ids & free) else {}
        if ids & free:
            ren = {}
            nbs = []
            for b, n in bs:
                nb = fresh()
                ren[Atom('bv', b)] = bvar(nb)
                nbs.append((nb, n))
            body = subst(body, ren)
            bs = tuple((b, subst(n, ren)) for b, n in nbs)
        nbs = tuple((b, _subst(n, m2, memo2)) for b, n in bs)
        nb = _subst(body, m2, memo2)
        if k == 'sum':
            return msum(nbs, nb)
        return mprod(nbs, nb)
    args = _subst(a.args, m, memo)
    if args == a.args:
        return poly(a)
    return rebuild(k, args)


def rebuild(k, args):
    if k == 'inv':
        return inv(args[0])
    if k == 'exp':
        return exp_(args[0])
    if k == 'pow':
        return pow_(args[0], args[1])
    if k == 'trunc':
        return trunc_(args[0])
    if k == 'idiv':
        return idiv(*args)
    if k == 'ilt':
        return lt0(args[0], True)
    if k == 'rlt':
        return lt0(args[0], False)
    if k == 'rle':
        return le0(args[0], False)
    if k == 'eq':
        return eq0(args[0])
    if k in REBUILD:
        return REBUILD[k](*args)
    return poly(Atom(k, *args))


REBUILD = {}

_fresh = [0]


def fresh():
    _fresh[0] += 1
    return 'b%d' % _fresh[0]


# ---------------------------------------------------------------- sums
def msum(binders, body):
    """sum over the binders (id, N), each in [0,N), of body"""
    r = body
    for b, n in reversed(binders):
        r = sum1(b, n, r)
    return r


def sum1(b, n, body):
    if not body.t or (n.const() is not None and n.const() <= 0):
        return ZERO
    bv = Atom('bv', b)
    out = ZERO
    for m, c in body.t.items():
        dep = []
        ind = []
        for a, e in m:
            (dep if b in a.fv else ind).append((a, e))
        coef = Poly({tuple(ind): c})
        if not dep:
            out = out + coef * n
            continue
        out = out + coef * _sum_dep(b, n, dep)
    return out


def _sum_dep(b, n, dep):
    bv = Atom('bv', b)
    # eliminate an equality that determines the binder
    for a, e in dep:
        if a.kind == 'eq':
            s = solve_linear(a.args[0], bv)
            if s is not None and any(not isinstance(k, int) for m, k in s.t.items() if m):
                s = None
            if s is not None and not isinstance(s.t.get((), 0), int):
                if _int_valued(s):
                    return ZERO          # never an integer
                s = None
            if s is not None and _int_valued(s):
                rest = Poly({tuple(x for x in dep if x[0] is not a): 1})
                rest = subst(rest, {bv: s})
                return rest * le0(-s, True) * lt0(s - n, True)
    # eliminate a simple upper bound condition  {b + c < 0}
    for a, e in dep:
        if a.kind == 'ilt':
            p = a.args[0]
            c = coeff_of(p, bv)
            if c is not None and c[0] == ONE and b not in c[1].fv:
                # b < -rest : new bound min(n, -rest)
                ub = -c[1]
                if ub == n:
                    rest = Poly({tuple(x for x in dep if x[0] is not a): 1})
                    return sum1(b, n, rest)
    if len(dep) == 1 and dep[0][1] == 1 and dep[0][0].kind == 'bv':
        return n * (n - 1) * poly(Fraction(1, 2))
    # flatten: a nested sum factor with exponent one
    binders = [(b, n)]
    monos = list(dep)
    flat = True
    while flat:
        flat = False
        for i, (a, e) in enumerate(monos):
            if a.kind == 'sum' and e == 1:
                bs, bd = a.args
                ren = {}
                nbs = []
                for bb, nn in bs:
                    f = fresh()
                    ren[Atom('bv', bb)] = bvar(f)
                    nbs.append((f, nn))
                bd = subst(bd, ren) if ren else bd
                nbs = [(f, subst(nn, ren)) for f, nn in nbs]
                if len(bd.t) != 1:
                    break
                (bm, bc), = bd.t.items()
                if bc != 1:
                    break
                rest = monos[:i] + monos[i + 1:]
                mm = _mmul(tuple(sorted(rest, key=lambda ae: ae[0].key)), bm)
                if mm is None:
                    return ZERO
                monos = list(mm)
                binders += nbs
                flat = True
                break
    body = Poly({tuple(sorted(monos, key=lambda ae: ae[0].key)): 1})
    return poly(canon_binders('sum', binders, body))


REAL_KINDS = frozenset(['exp', 'inv', 'pow', 'fn', 'unk'])


def _int_valued(p):
    """polynomial with only integer-looking atoms (indices, sizes, table entries)"""
    for m in p.t:
        for a, e in m:
            if a.kind in REAL_KINDS or not isinstance(e, int) or e < 0:
                return False
    return True


_canon_memo = {}


def canon_binders(kind, binders, body):
    """alpha-canonical binder names and order"""
    k0 = (kind, tuple(binders), body)
    r = _canon_memo.get(k0)
    if r is not None:
        return r
    ids = [b for b, _ in binders]
    best = None
    ns = dict(binders)
    cand = []
    perms = permutations(ids) if len(ids) <= 5 else [tuple(ids)]
    depth = binder_depth(body, set(ids), [n for _, n in binders])
    for perm in perms:
        pos = {b: i for i, b in enumerate(perm)}
        ok = True
        for b in perm:
            for f in ns[b].fv:
                if f in pos and pos[f] > pos[b]:
                    ok = False
        if not ok:
            continue
        ren = {Atom('bv', b): bvar('%d_%d' % (depth, i)) for i, b in enumerate(perm)}
        nb = subst(body, ren)
        nn = tuple(('%d_%d' % (depth, i), subst(ns[b], ren)) for i, b in enumerate(perm))
        key = (nb.key, _s(nn))
        if best is None or key < best[0]:
            best = (key, nn, nb)
    at = Atom(kind, best[1], best[2])
    _canon_memo[k0] = at
    return at


def binder_depth(body, ids, ns):
    """canonical binder names are depth_index, depth > depths used inside and free"""
    d = 0

    def look(x):
        nonlocal d
        if isinstance(x, tuple):
            for y in x:
                look(y)
        elif isinstance(x, Poly):
            for m in x.t:
                for a, _e in m:
                    look(a)
        elif isinstance(x, Atom):
            if x in seen:
                return
            seen.add(x)
            if x.kind == 'bv':
                s = x.args[0]
                if s not in ids and isinstance(s, str) and '_' in s:
                    h = s.split('_')[0]
                    if h.isdigit():
                        d = max(d, int(h) + 1)
                return
            if x.kind in ('sum', 'prod'):
                for b, n in x.args[0]:
                    if isinstance(b, str) and '_' in b and b.split('_')[0].isdigit():
                        d = max(d, int(b.split('_')[0]) + 1)
            look(x.args)
    seen = set()
    look(body)
    for n in ns:
        look(n)
    return d


def mprod(binders, body):
    c = body.const()
    if c == 1:
        return ONE
    return poly(canon_binders('prod', list(binders), body))


def coeff_of(p, atom):
    """p = c*atom + rest with c, rest free of atom (as a top-level factor); else None"""
    c = {}
    r = {}
    for m, k in p.t.items():
        e = 0
        others = []
        for a, ex in m:
            if a is atom:
                e = ex
            else:
                others.append((a, ex))
                if atom.kind == 'bv' and atom.args[0] in a.fv:
                    return None
        if e == 0:
            r[m] = k
        elif e == 1:
            c[tuple(others)] = k
        else:
            return None
    return Poly(c), Poly(r)


def solve_linear(p, atom):
    """solve p == 0 for atom with unit coefficient"""
    cr = coeff_of(p, atom)
    if cr is None:
        return None
    c, r = cr
    k = c.const()
    if k in (1, -1):
        return r * poly(-k)
    return None


# ---------------------------------------------------------------- zero test
def is_zero(p, budget=12):
    """p == 0 as a rational function (denominators cleared)"""
    for _ in range(budget):
        if not p.t:
            return True
        invs = sorted((a for a in p.atoms() if a.kind == 'inv'), key=lambda a: len(a.key), reverse=True)
        if not invs:
            return False
        a = invs[0]
        q = a.args[0]
        k = max(dict(m).get(a, 0) for m in p.t)
        kmin = min(dict(m).get(a, 0) for m in p.t)
        if kmin < 0:
            p = p * Poly({((a, -kmin),): 1})
            k -= kmin
        out = ZERO
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            mm = tuple(x for x in m if x[0] is not a)
            out = out + Poly({mm: c}) * (q ** (k - e))
        p = out
    return not p.t


def equal(a, b):
    return a == b or is_zero(a - b)


# ---------------------------------------------------------------- derivative
def diff(p, x, rule=None):
    """formal derivative w.r.t. Atom x.  rule(atom) may supply a derivative."""
    out = ZERO
    memo = {}
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            if a.kind in BOOL_KINDS:
                continue
            da = _datom(a, x, rule, memo)
            if not da.t:
                continue
            rest = dict(m)
            if e == 1:
                del rest[a]
            else:
                rest[a] = e - 1
            out = out + Poly({tuple(sorted(rest.items(), key=lambda ae: ae[0].key)): _q(Fraction(c) * e)}) * da
    return out


def _datom(a, x, rule, memo):
    if a is x:
        return ONE
    r = memo.get(a)
    if r is not None:
        return r
    r = _datom1(a, x, rule, memo)
    memo[a] = r
    return r


def _datom1(a, x, rule, memo):
    if rule is not None:
        r = rule(a, x)
        if r is not None:
            return r
    k = a.kind
    if k in ('var', 'bv', 'trunc', 'idiv') or k in BOOL_KINDS:
        return ZERO
    if k == 'inv':
        return -(poly(a) ** 2) * diff(a.args[0], x, rule)
    if k == 'exp':
        return poly(a) * diff(a.args[0], x, rule)
    if k == 'pow':
        b, e = a.args
        de = diff(e, x, rule)
        if de.t:
            return poly(Atom('unk', 'd-pow'))
        db = diff(b, x, rule)
        if not db.t:
            return ZERO
        return e * pow_(b, e - 1) * db
    if k == 'sum':
        bs, body = a.args
        d = diff(body, x, rule)
        if not d.t:
            return ZERO
        ren = {}
        nbs = []
        for b, n in bs:
            f = fresh()
            ren[Atom('bv', b)] = bvar(f)
            nbs.append((f, n))
        return msum(tuple((f, subst(n, ren)) for f, n in nbs), subst(d, ren))
    if k == 'read':
        if x.kind == 'read' and x.args[0] == a.args[0] and len(x.args[1]) == len(a.args[1]):
            c = ONE
            for p, q in zip(a.args[1], x.args[1]):
                if isinstance(p, str) or isinstance(q, str):
                    if p != q:
                        return ZERO
                else:
                    c = c * eq0(p - q)
            return c
        return ZERO
    if mentions(a, x):
        return poly(Atom('unk', 'd-' + k))
    return ZERO


def mentions(t, x):
    seen = set()

    def look(y):
        if y is x:
            return True
        if isinstance(y, tuple):
            return any(look(z) for z in y)
        if isinstance(y, Poly):
            return any(look(a) for m in y.t for a, _e in m)
        if isinstance(y, Atom):
            if y in seen:
                return False
            seen.add(y)
            return look(y.args)
        return False
    return look(t)


# named intermediate values: Atom('let', n) stands for LET[n] (definitions refer to smaller n only)
LET = {}
_letof = {}


def letcut(p):
    """a name for p when p is not already short"""
    if len(p.t) < 2:
        for m, c in p.t.items():
            if sum(abs(e) if isinstance(e, int) else 2 for _a, e in m) <= 1:
                return p
        if not p.t:
            return p
    if p.fv or p.tags:
        return p
    n = _letof.get(p)
    if n is None:
        n = len(LET)
        LET[n] = p
        _letof[p] = n
    return poly(Atom('let', n))


def let_order(*polys):
    """indices of the definitions the polys depend on, ascending"""
    need = set()
    work = list(polys)
    while work:
        for a in all_atoms(work.pop(), follow=False):
            if a.kind == 'let' and a.args[0] not in need:
                need.add(a.args[0])
                work.append(LET[a.args[0]])
    return sorted(need)


def all_atoms(t, follow=True):
    """every atom occurring anywhere in t (transitively)"""
    if follow and LET:
        out = set(all_atoms(t, False))
        if any(a.kind == 'let' for a in out):
            for n in let_order(t):
                out |= all_atoms(LET[n], False)
        return out
    seen = set()

    def look(y):
        if isinstance(y, tuple):
            for z in y:
                look(z)
        elif isinstance(y, Poly):
            for m in y.t:
                for a, _e in m:
                    look(a)
        elif isinstance(y, Atom):
            if y not in seen:
                seen.add(y)
                look(y.args)
    look(t)
    return seen
