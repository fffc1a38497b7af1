"""Algebraic identity test on value summaries.

Two summaries whose normal forms coincide are equal.  When the normal forms
differ, the two terms are compared as functions: every free variable, array
element and uninterpreted function of the *terms* is replaced by independent
pseudo-random numbers and the difference is evaluated (Schwartz-Zippel style).
A non-zero difference refutes equality; agreement at every point means that the
normaliser was merely incomplete.  Only terms are evaluated here, never the
program under analysis.
"""
import hashlib
import math
from decimal import Decimal, DecimalException, InvalidOperation, localcontext
from fractions import Fraction

from terms import Atom, Clock, Poly

NUMBERS = {'global.pi': math.pi, 'global.pi_v': math.pi, 'global.M_PI': math.pi, 'global.sqrt2': math.sqrt(2), 'global.sqrt3': math.sqrt(3), 'global.e': math.e}
TAINT = frozenset(['unk', 'cur', 'defer', 'phi', 'd'])


def taints(t):
    from terms import all_atoms
    return sorted({'%s' % a.key[:90] for a in all_atoms(t) if a.kind in TAINT})


class CannotEval(Exception):
    pass


class Domain(Exception):
    """the point lies outside the domain of some function in the term"""


def h01(*key):
    d = hashlib.sha1(repr(key).encode()).digest()
    return int.from_bytes(d[:7], 'big') / float(1 << 56)


class Point:
    """one pseudo-random assignment; `ints(kind, name, path)` returns an integer
    for integer-valued symbols, None for real ones"""

    def __init__(self, seed, ints=None, env=None, reals=None, unk=False, fns=None):
        self.fns = fns
        self.seed = seed
        self.ints = ints
        self.env = dict(env or {})
        self.reals = reals
        self.unk = unk
        self.memo = {}
        self.mag = 0.0
        self.style = None
        self.over = {}           # moved symbols (steer.py)
        self.fit = None          # makes a moved symbol consistent with the others
        self.last = None

    def sym(self, kind, name, path=()):
        if self.over:
            k = (kind, name) if kind in ('var', 'bvar') else (kind, name, path)
            if k in self.over:
                return self.over[k]
        if self.ints is not None:
            v = self.ints(kind, name, path)
            if v is not None:
                return v
        if self.reals is not None:
            v = self.reals(kind, name, path)
            if v is not None:
                return v
        u = h01(self.seed, kind, name, path)
        if str(name).endswith('#n') or (path and path[-1] == '#n'):
            return int(7 * u)        # a size is a whole number
        if self.style == 'unit':
            return (0, 1, -1)[int(3 * u)]
        if self.style == 'neg':
            return -0.35 - 1.3 * u
        if self.style == 'wide':
            w = h01(self.seed, 'sign', kind, name, path)
            return (2 + 26 * u) * (1 if w < 0.5 else -1)
        return 0.35 + 1.3 * u

    def poly(self, p, b):
        tot = 0
        for mono, c in p.t.items():
            # boolean factors first: skip what a false guard excludes
            v = c
            zero = False
            rest = []
            for a, e in mono:
                if a.kind in ('ilt', 'rlt', 'rle', 'eq', 'bvar'):
                    if not self.atom(a, b):
                        zero = True
                        break
                else:
                    rest.append((a, e))
            if zero:
                continue
            for a, e in rest:
                x = self.atom(a, b)
                if e == 1:
                    v = v * x
                    continue
                if isinstance(x, float) and isinstance(e, int):
                    if e < 0 and x == 0:
                        raise Domain('1/0')
                    v = v * x ** e
                elif isinstance(e, int):
                    if e < 0:
                        if x == 0:
                            raise Domain('1/0')
                        v = v * Fraction(x) ** e
                    else:
                        v = v * x ** e
                else:
                    if x < 0 or (x == 0 and e < 0):
                        raise Domain('power')
                    v = v * float(x) ** float(e)
            if isinstance(v, Fraction) and v.denominator == 1:
                v = int(v)
            if isinstance(v, float) and abs(v) > self.mag:
                self.mag = abs(v)
            tot = tot + v
        if isinstance(tot, Fraction) and tot.denominator == 1:
            tot = int(tot)
        if isinstance(tot, float) and (math.isnan(tot) or math.isinf(tot)):
            raise Domain('overflow')
        return tot

    def atom(self, a, b):
        if a.fv:
            k = (a, tuple(b.get(x) for x in sorted(a.fv)))
        else:
            k = a
        if k in self.memo:
            return self.memo[k]
        v = self.atom1(a, b)
        self.memo[k] = v
        return v

    def path(self, path, b):
        out = []
        for x in path:
            if isinstance(x, Poly):
                v = self.poly(x, b)
                if isinstance(v, float):
                    v = round(v, 9)
                out.append(v)
            elif isinstance(x, Atom):
                v = self.atom(x, b)
                out.append(v)
            elif isinstance(x, tuple):
                out.append(self.path(x, b))
            else:
                out.append(x)
        return tuple(out)

    def atom1(self, a, b):
        Clock.n += 1
        if not Clock.n & 4095:
            Clock.tick()
        k = a.kind
        A = a.args
        if k == 'bv':
            if A[0] in b:
                return b[A[0]]
            if ('bv', A[0]) in self.over:
                return self.over['bv', A[0]]
            if A[0] in self.env:
                return self.env[A[0]]
            raise CannotEval('free binder %s' % A[0])
        if k in ('var', 'bvar'):
            if (k, A[0]) in self.over:
                return self.over[k, A[0]]
            if A[0] in self.env:
                return self.env[A[0]]
            if A[0] in NUMBERS:
                return NUMBERS[A[0]]
            return self.sym(k, A[0])
        if k == 'read':
            pt = self.path(A[1], b)
            if any(isinstance(x, (float, Fraction)) for x in pt):
                raise CannotEval('non-integer array index')
            return self.sym('read', A[0], pt)
        if k == 'fn':
            pt = self.path(A[1:], b)
            f = getattr(math, A[0].split('::')[-1], None)
            if f is not None and A[0].split('::')[-1] in ('log', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'tanh', 'floor', 'ceil', 'fabs', 'erf', 'cosh', 'sinh', 'atan2', 'log1p', 'expm1'):
                try:
                    return f(*[float(x) for x in pt])
                except (ValueError, OverflowError) as e:
                    raise Domain(str(e))
            if self.fns is not None and A[0] in self.fns:
                return self.fns[A[0]](self, pt)
            return self.sym('fn', A[0], pt)
        if k == 'let':
            from terms import LET, let_order
            for n in let_order(LET[A[0]]):
                t = Atom('let', n)
                if t not in self.memo:
                    self.memo[t] = self.poly(LET[n], b)
            return self.poly(LET[A[0]], b)
        if k == 'inv':
            x = self.poly(A[0], b)
            if x == 0:
                raise Domain('1/0')
            return 1.0 / x if isinstance(x, float) else 1 / Fraction(x)
        if k == 'exp':
            try:
                return math.exp(self.poly(A[0], b))
            except OverflowError:
                raise Domain('exp')
        if k == 'pow':
            x, e = self.poly(A[0], b), self.poly(A[1], b)
            if isinstance(e, int) and not isinstance(x, float) and (e >= 0 or x != 0) and abs(e) < 200:
                return x ** e if e >= 0 else Fraction(x) ** e
            if x < 0 or (x == 0 and e < 0):
                if x != 0 and float(e).is_integer():
                    return float(x) ** int(e)
                raise Domain('power')
            try:
                return float(x) ** float(e)
            except OverflowError:
                raise Domain('power')
        if k == 'trunc':
            return int(self.poly(A[0], b))
        if k in ('idiv', 'imod'):
            x, y = self.poly(A[0], b), self.poly(A[1], b)
            if y == 0:
                raise Domain('idiv 0')
            if isinstance(x, float) or isinstance(y, float):
                raise CannotEval('real operand of integer division')
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y > 0) else -q
            return q if k == 'idiv' else x - q * y
        if k in ('ilt', 'rlt'):
            return 1 if self.poly(A[0], b) < 0 else 0
        if k == 'rle':
            return 1 if self.poly(A[0], b) <= 0 else 0
        if k == 'eq':
            x = self.poly(A[0], b)
            return 1 if (x == 0 or (isinstance(x, float) and abs(x) < 1e-12)) else 0
        if k in ('sum', 'prod'):
            bs, body = A
            return self.binders(k, list(bs), body, dict(b))
        if k == 'rec':
            init, nxt, name, cnt = A
            n = self.poly(cnt, b)
            if not isinstance(n, int) or n > 200:
                raise CannotEval('rec count')
            v = self.poly(init, b)
            save = self.env.get('@self')
            sm = self.memo
            for i in range(n):
                self.env['@self'] = v
                self.memo = {}
                bb = dict(b)
                bb[name] = i
                v = self.poly(nxt, bb)
            self.memo = sm
            if save is None:
                self.env.pop('@self', None)
            else:
                self.env['@self'] = save
            return v
        if k == 'unk' and self.unk:
            return self.sym('unk', a.key)
        raise CannotEval(k)

    def binders(self, k, bs, body, b):
        if not bs:
            return self.poly(body, b)
        (x, n) = bs[0]
        cnt = self.poly(n, b)
        if isinstance(cnt, Fraction) or isinstance(cnt, float):
            raise CannotEval('non-integer count')
        if cnt > 1600:
            raise CannotEval('count too large')
        r = 0 if k == 'sum' else 1
        for i in range(max(cnt, 0)):
            b[x] = i
            v = self.binders(k, bs[1:], body, b)
            r = r + v if k == 'sum' else r * v
        b.pop(x, None)
        return r


class Precise(Point):
    """the same point with 60-digit reals: settles whether a difference is rounding of large intermediates"""

    @staticmethod
    def of(p):
        q = Precise.__new__(Precise)
        q.__dict__ = dict(p.__dict__)
        q.memo = {}
        return q

    @staticmethod
    def D(x):
        if isinstance(x, Fraction):
            return int(x) if x.denominator == 1 else Decimal(x.numerator) / Decimal(x.denominator)
        return Decimal(x) if isinstance(x, float) else x

    def sym(self, *a):
        return self.D(Point.sym(self, *a))

    def poly(self, p, b):
        D = self.D
        tot = 0
        for mono, c in p.t.items():
            v = D(c)
            rest = []
            for a, e in mono:
                if a.kind in ('ilt', 'rlt', 'rle', 'eq', 'bvar'):
                    if not self.atom(a, b):
                        break
                else:
                    rest.append((a, e))
            else:
                for a, e in rest:
                    x = self.atom(a, b)
                    if not isinstance(e, int) or e < 0:
                        if x == 0 or (x < 0 and not isinstance(e, int)):
                            raise Domain('power')
                        v = v * Decimal(x) ** D(e)
                    else:
                        v = v * x ** e
                tot = tot + v
        return tot

    def path(self, path, b):
        def fl(x):
            return tuple(fl(y) for y in x) if isinstance(x, tuple) else round(float(x), 9) if isinstance(x, Decimal) else x
        return fl(Point.path(self, path, b))

    def atom1(self, a, b):
        k = a.kind
        if k == 'inv':
            x = self.poly(a.args[0], b)
            if x == 0:
                raise Domain('1/0')
            return 1 / Decimal(x)
        if k == 'exp':
            return Decimal(self.poly(a.args[0], b)).exp()
        if k == 'pow':
            x, e = self.poly(a.args[0], b), self.poly(a.args[1], b)
            if isinstance(e, int) and isinstance(x, int) and 0 <= e < 200:
                return x ** e
            if x < 0 and e == int(e):
                return Decimal(x) ** int(e)
            if x < 0 or (x == 0 and e <= 0):
                raise Domain('power')
            return Decimal(x) ** Decimal(e)
        if k == 'eq':
            return 1 if abs(self.poly(a.args[0], b)) < Decimal('1e-12') else 0
        return self.D(Point.atom1(self, a, b))


def truly(p, a, b, tol, floor=Decimal('1e-3')):
    """the difference at p persists with 60 digits"""
    q = Precise.of(p)
    try:
        with localcontext() as c:
            c.prec = 60
            c.traps[InvalidOperation] = True
            x, y = q.poly(a, {}), q.poly(b, {})
            return abs(x - y) > Decimal(tol) * max(abs(x), abs(y), floor)
    except (Domain, CannotEval, DecimalException, OverflowError, ZeroDivisionError, TypeError, RecursionError):
        return False


def same(a, b, points, tol=1e-7, styles=True):
    """('equal'|'different'|'agree'|'unknown', detail)
    points: iterable of zero-argument callables giving a fresh Point"""
    from terms import equal
    ta, tb = taints(a), taints(b)
    try:
        if not ta and not tb and (a == b):
            return 'equal', ''
    except RecursionError:
        pass
    if ta or tb:
        if a == b and not ta:
            return 'equal', ''
        return 'unknown', 'term not fully resolved: %s' % (ta + tb)[:2]
    n = 0
    why = ''
    for mk in points:
        p = mk()
        try:
            x, y = p.poly(a, {}), p.poly(b, {})
        except Domain as e:
            why = 'domain: %s' % e
            continue
        except (CannotEval, TypeError, RecursionError) as e:
            return 'unknown', 'identity test not possible: %s' % e
        sc = max(abs(float(x)), abs(float(y)), 1e-3)
        if abs(float(x) - float(y)) > tol * sc:
            return 'different', 'at a generic point the two sides are %.10g and %.10g' % (float(x), float(y))
        n += 1
    if n == 0:
        return 'unknown', why or 'no point'
    # guards in the terms: also compare where a guard on values can switch
    from terms import all_atoms
    m = 0
    if styles and any(t.kind in ('eq', 'rlt', 'rle') for q in (a, b) for t in all_atoms(q)):
        for st in ('unit', 'neg', 'wide'):
            for mk in points:
                p = mk()
                p.style = st
                try:
                    x, y = p.poly(a, {}), p.poly(b, {})
                except (Domain, CannotEval, OverflowError, ZeroDivisionError):
                    continue
                except (TypeError, RecursionError):
                    break
                sc = max(abs(float(x)), abs(float(y)), 1e-3)
                if abs(float(x) - float(y)) > max(tol, 1e-6) * sc and (p.mag < 1e4 * sc or truly(p, a, b, max(tol, 1e-6))):
                    return 'different', 'at a point with %s values the two sides are %.10g and %.10g' % (st, float(x), float(y))
                m += 1
    if not styles:
        return 'agree', '%d points' % n
    import steer

    def compare(p):
        try:
            x, y = p.poly(a, {}), p.poly(b, {})
            x, y = float(x), float(y)
        except (Domain, CannotEval, OverflowError, ZeroDivisionError, TypeError, RecursionError):
            return None
        sc = max(abs(x), abs(y), 1e-3)
        if abs(x - y) > tol * sc and truly(p, a, b, tol):
            return 'behind a guard the two sides are %.10g and %.10g' % (x, y)
        return ''
    bad, k, t = steer.explore(a, b, points, compare)
    if bad:
        return 'different', bad
    return 'agree', '%d points%s%s' % (n, ', %d special points' % m if m else '', ', %d points across %d guards' % (k, t) if k else '')


def gradient(point, p, dfns):
    """partial derivatives of the term p at the point with respect to every
    array element and variable it mentions (reverse accumulation over the term);
    dfns[name](point, args) -> derivative of the named function per argument"""
    from terms import LET, let_order
    leaf = {}
    lets = {}

    def back(q, s):
        for mono, c in q.t.items():
            vals = []
            zero = False
            for a, e in mono:
                if a.kind in ('ilt', 'rlt', 'rle', 'eq', 'bvar'):
                    if not point.atom(a, {}):
                        zero = True
                        break
                else:
                    vals.append((a, e, point.atom(a, {})))
            if zero:
                continue
            for i, (a, e, x) in enumerate(vals):
                d = s * float(c) * float(e)
                if e != 1:
                    d *= float(x) ** (e - 1)
                for j, (a2, e2, x2) in enumerate(vals):
                    if j != i:
                        d *= float(x2) ** e2 if e2 != 1 else float(x2)
                batom(a, d)

    def batom(a, d):
        k = a.kind
        if k == 'let':
            lets[a.args[0]] = lets.get(a.args[0], 0.0) + d
        elif k in ('read', 'var'):
            key = (a.args[0], point.path(a.args[1], {})) if k == 'read' else (a.args[0], ())
            leaf[key] = leaf.get(key, 0.0) + d
        elif k == 'inv':
            back(a.args[0], -d * float(point.atom(a, {})) ** 2)
        elif k == 'exp':
            back(a.args[0], d * float(point.atom(a, {})))
        elif k == 'pow':
            x, e = float(point.poly(a.args[0], {})), float(point.poly(a.args[1], {}))
            back(a.args[0], d * e * x ** (e - 1))
        elif k == 'fn':
            if a.args[0] not in dfns:
                raise CannotEval('derivative of ' + a.args[0])
            ds = dfns[a.args[0]](point, [point.poly(x, {}) if isinstance(x, Poly) else x for x in a.args[1:]])
            for x, y in zip(a.args[1:], ds):
                if isinstance(x, Poly) and y:
                    back(x, d * y)
        elif k in ('trunc', 'idiv', 'imod', 'bv'):
            return
        else:
            raise CannotEval('derivative of ' + k)
    order = let_order(p)
    back(p, 1.0)
    for n in reversed(order):
        d = lets.get(n)
        if d:
            back(LET[n], d)
    return leaf
