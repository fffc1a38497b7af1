"""Helpers around the C++ value-flow engine."""
import common  # noqa: F401  (sets sys.path)
from frontend import Frontend, AnalysisBroken, LIB, BIND, PAIR, params, body, where  # noqa: F401
from interp import *  # noqa: F401,F403
from interp import Interp, Loc, Ptr, Tup, RANGE
import terms as T
from terms import *  # noqa: F401,F403
from peval import Point, same, taints

_progs = {}


def program(*names):
    rels = tuple(n if '/' in n else LIB + '/' + n for n in names)
    if rels not in _progs:
        fe = Frontend()
        try:
            _progs[rels] = fe.program(list(rels))
        finally:
            fe.close()
    return _progs[rels]


def fn_of(p, qual, nparams=None, pick=None):
    c = p.find(qual, nparams)
    if pick:
        c = [x for x in c if pick(x[1])]
    if not c:
        raise AnalysisBroken('no definition of %s%s' % (qual, '' if nparams is None else '/%d' % nparams))
    return c[0]


def check_same(ck, oid, wh, a, b, points, what, tol=1e-7, styles=True):
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        ck.und(oid, wh, 'no scalar summary')
        return None
    r, d = same(a, b, points, tol, styles)
    if r == 'equal':
        ck.ok(oid, wh, 'identical normal forms')
    elif r == 'agree':
        ck.ok(oid, wh, 'equal by identity test (%s)' % d)
    elif r == 'different':
        ck.bad(oid, wh, '%s: %s' % (what, d))
    else:
        ck.und(oid, wh, d)
    return r


def pts(n=4, ints=None, env=None, reals=None, seed0=0, fit=None):
    out = []
    for s in range(n):
        def mk(s=s):
            p = Point(seed0 + s, ints(s) if getattr(ints, 'per', False) else ints, env(s) if callable(env) else env, reals)
            p.fit = fit
            return p
        out.append(mk)
    return out


def rng(n):
    b = T.fresh()
    RANGE[b] = T.poly(n)
    return b


def per(f):
    """marks a size assignment that varies from point to point: f(s) -> ints"""
    f.per = True
    return f
