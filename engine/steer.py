"""Points on the other side of a guard.

Two terms that agree at generic points may still differ where a guard inside one
of them (a comparison with a size or a value) takes the truth value no generic
point gave it.  For every such guard a leaf of its argument is moved across the
boundary and the two terms are compared there.  Only terms are evaluated."""
import math
from fractions import Fraction

from terms import Atom, Clock, Poly, all_atoms
from values import RANGE

GATES = ('ilt', 'rlt', 'rle', 'eq')
LIMIT = 1500


def key_of(a, pt, b):
    if a.kind == 'var':
        return ('var', a.args[0])
    if a.kind == 'bv':
        return ('bv', a.args[0])
    return ('read', a.args[0], pt.path(a.args[1], b))


def leaves(g, pt, b):
    out = []
    for a in sorted(all_atoms(g.args), key=lambda x: x.key):
        if a.kind in ('var', 'bv') or a.kind == 'read':
            try:
                bb = b
                inner = [x for x in a.fv if x not in b and x not in pt.env]
                if inner:
                    bb = dict(b, **{x: 0 for x in inner})
                k = key_of(a, pt, bb)
                v = pt.atom(a, bb)
            except Exception:      # noqa: BLE001
                continue
            if isinstance(v, bool) or (k, v) in out:
                continue
            out.append((k, v))
    return out


def numbers(g):
    out = set()
    for a in all_atoms(g.args) | {g}:
        for p in a.args:
            if isinstance(p, Poly):
                for c in p.t.values():
                    if isinstance(c, (int, Fraction)):
                        out.add(abs(c))
                        out.add(abs(c) + 1)
    return out


def candidates(g, v, f, nums):
    """values of the leaf (now v) that may flip the guard; f(value) -> argument of the guard"""
    c = []
    integral = isinstance(v, int)
    try:
        f0, f1 = f(v), f(v + 1)
        s = f1 - f0
        if s:
            r = Fraction(v) - Fraction(f0) / Fraction(s) if integral else v - float(f0) / float(s)
            if integral:
                q = math.floor(r)
                c += [q, q + 1, q - 1, q + 2]
            else:
                r = float(r)
                c += [r, r * 1.01 + 1e-9, r * 0.99 - 1e-9, r * 1.3 + 1e-6, r * 0.7 - 1e-6, r + 1, r - 1]
    except Exception:      # noqa: BLE001
        pass
    if integral:
        for k in sorted(nums):
            if k == int(k) and k < LIMIT:
                c += [int(k), int(k) + 1, int(k) - 1]
        c += list(range(0, 13))
    else:
        for k in sorted(nums):
            if k < 1e6:
                c += [float(k) * 0.95, float(k) * 1.05]
        c += [v * t for t in (1e-5, 1e-3, 1e-2, 0.1, 3, 10, 100, 1000)] + [-v, 0.0, 50.0, -50.0]
    out = []
    for x in c:
        if x not in out and x != v:
            out.append(x)
    return out


def fit_default(pt, key, v):
    """a free real input may take any value; everything else is fixed"""
    if key[0] == 'bv' or isinstance(v, int) or abs(v) > 1e4:
        return False
    if key[0] == 'var' and key[1] in pt.env:
        return False
    path = key[2] if key[0] == 'read' else ()
    if pt.ints is not None and pt.ints(key[0], key[1], path) is not None:
        return False
    if pt.reals is not None and pt.reals(key[0], key[1], path) is not None:
        return False
    pt.over[key] = v
    return True


def extents(*terms):
    ext = {}
    for t in terms:
        for a in all_atoms(t):
            if a.kind in ('sum', 'prod'):
                for b, n in a.args[0]:
                    ext[b] = n
    return ext


def explore(a, b, points, compare, maxgates=80):
    """yields a message when the terms differ at a steered point; returns the number of points"""
    gates = sorted({x for t in (a, b) for x in all_atoms(t) if x.kind in GATES}, key=lambda x: x.key)
    if not gates:
        return None, 0, 0
    ext = extents(a, b)
    done = 0
    turned = 0
    points = list(points)
    for g in gates[:maxgates]:
        hit = 0
        for mk in points[:6]:
            if hit >= 3:
                break
            Clock.tick()
            pt = mk()
            bnds = [{}]
            fv = sorted(x for x in g.fv if x in ext and x not in pt.env)
            if fv:
                bnds = [{x: 0 for x in fv}]
            for bb in bnds:
                try:
                    now = pt.atom(g, dict(bb))
                except Exception:      # noqa: BLE001
                    continue
                ls = leaves(g, pt, bb)
                nums = numbers(g)
                for key, v in ls[:10]:
                    if hit >= 3:
                        break
                    got = try_leaf(mk, g, bb, now, key, v, nums, ext)
                    for p2 in got:
                        r = compare(p2)
                        if r is None:
                            continue
                        hit += 1
                        done += 1
                        if r:
                            return '%s (where %s = %s)' % (r, name(key), fmt(p2.last)), done, turned
        turned += hit > 0
    return None, done, turned


def name(k):
    if k[0] == 'bv':
        return 'index'
    return k[1] + (''.join('[%s]' % x for x in k[2]) if len(k) > 2 else '')


def fmt(v):
    return '%.6g' % float(v)


def set_key(pt, key, v):
    f = getattr(pt, 'fit', None)
    if f is not None:
        r = f(pt, key, v)
        if r is not None:
            pt.last = v
            return r
    pt.last = v
    return fit_default(pt, key, v)


def try_leaf(mk, g, bb, now, key, v, nums, ext):
    """points at which the guard has the other truth value"""
    out = []
    bound = key[0] == 'bv' and key[1] in bb

    def arg(x):
        p = mk()
        if bound:
            return p.poly(g.args[0], dict(bb, **{key[1]: x}))
        p.over[key] = x
        return p.poly(g.args[0], dict(bb))
    n = 0
    for x in candidates(g, v, arg, nums):
        n += 1
        if n > 60 or len(out) >= 2:
            break
        p = mk()
        try:
            if bound:
                if not isinstance(x, int) or x < 0 or x > LIMIT:
                    continue
                if p.atom(g, dict(bb, **{key[1]: x})) == now:
                    continue
                p = widen(mk, ext[key[1]], bb, x + 1, ext)
                if p is None:
                    continue
                p.last = x
                out.append(p)
                continue
            if isinstance(x, int) and abs(x) > LIMIT:
                continue
            if not set_key(p, key, x):
                continue
            if p.atom(g, dict(bb)) == now:
                continue
            p.memo.clear()
            out.append(p)
        except Exception:      # noqa: BLE001
            continue
    return out


def widen(mk, n, bb, need, ext):
    """a point at which the extent n is at least need"""
    p = mk()
    try:
        if p.poly(n, dict(bb)) >= need:
            return p
    except Exception:      # noqa: BLE001
        return None
    for a in sorted(all_atoms(n), key=lambda x: x.key):
        if a.kind not in ('var', 'read'):
            continue
        k = key_of(a, p, bb)
        for v in (need, need + 1, 2 * need):
            q = mk()
            if not set_key(q, k, v):
                continue
            try:
                if q.poly(n, dict(bb)) >= need:
                    q.memo.clear()
                    return q
            except Exception:      # noqa: BLE001
                continue
    return None
