"""Combinatorial helpers behind the polynomial graphs and index enumerations."""
from itertools import combinations, permutations, product
from math import comb
from cpp import *
from values import COV

SRC = ('tools.cpp',)


def read_list(ip, loc, depth):
    """nested container of constant shape -> nested python lists of terms"""
    n = ip.load(loc.sub('#n'), 'int')
    if not isinstance(n, Poly) or n.const() is None:
        raise AnalysisBroken('shape not resolved')
    out = []
    for i in range(int(n.const())):
        e = loc.sub(poly(i))
        if depth == 1:
            v = ip.load(e, 'int')
            if taints(v):
                raise AnalysisBroken('element not resolved: %s' % v.key[:80] if hasattr(v, 'key') else 'element')
            out.append(v)
        else:
            out.append(read_list(ip, e, depth - 1))
    return out


def idx(t):
    """arg.v[k] -> k ; constants -> themselves"""
    if t.const() is not None:
        return ('c', int(t.const()))
    (m, c), = t.t.items()
    (a, e), = m
    if c == 1 and e == 1 and a.kind == 'read' and a.args[0] == 'arg.v':
        return ('v', int(a.args[1][0].const()))
    return ('?', t.key)


def deep(x):
    return [deep(y) for y in x] if isinstance(x, list) else idx(x)


def set_partitions(n):
    if n == 0:
        return []
    parts = [[[0]]]
    for i in range(1, n):
        nxt = []
        for p in parts:
            nxt.append(p + [[i]])
            for j in range(len(p)):
                nxt.append([b + [i] if k == j else b for k, b in enumerate(p)])
        parts = nxt
    return parts


def two_partitions(n):
    out = []
    for m in range(1, 2 ** (n - 1) if n > 1 else 1):
        second = [i for i in range(1, n) if m >> (i - 1) & 1]
        out.append([[i for i in range(n) if i not in second], second])
    return out


def canon(parts):
    return sorted(sorted(sorted(b) for b in p) for p in parts)


def p_tools(ck):
    ck.rule('binomial', 'under the induction hypothesis for smaller n the returned term equals n choose k for every sign/order case of (n,k)')
    ck.rule('enumeration', 'for each length 0..6 (7 in the thorough tier) the result, as a container of references to the input elements, is exactly the mathematical set')
    p = program(*SRC)

    def binom():
        ip = Interp(p, opaque=lambda q: q == '_binomial_coefficient')
        f = fn_of(p, '_binomial_coefficient', 2)
        ip2 = ip
        SIGNED.update([Atom('var', 'n'), Atom('var', 'k')])
        v = ip2.run(f[0], f[1], [var('n'), var('k')])
        v = ip.val(v, 'int')
        ck.analysed('_binomial_coefficient')
        if taints(v) or ip.unsupported:
            ck.und('_binomial_coefficient', where(f[1]), 'summary not resolved: %s' % (taints(v) or ip.unsupported)[:2])
            return
        bad = []

        def C(pt, a):
            n, k = a
            return comb(n, k) if 0 <= k <= n else 0
        from steer import numbers
        gates = [g for g in all_atoms(v) if g.kind in ('ilt', 'eq', 'rlt', 'rle')]
        far = sorted({int(x) for g in gates for x in numbers(g) if x == int(x) and 8 < x < 2000})[:6]
        for n in list(range(0, 9)) + [x + d for x in far for d in (-1, 0, 1)]:
            for k in list(range(-2, 12)) + ([n - 2, n - 1, n, n + 1, n // 2] + [x + d for x in far for d in (-1, 0, 1)] if far else []):
                got = Point(0, env={'n': n, 'k': k}, fns={'_binomial_coefficient': C}).poly(v, {})
                if got != (comb(n, k) if 0 <= k <= n else 0):
                    bad.append((n, k, got))
        ck.decide('_binomial_coefficient/recurrence', where(f[1]), not bad, 'not n choose k, e.g. (n,k,result)=%s' % bad[:2])
    ck.attempt('_binomial_coefficient', binom)

    def summ():
        ip = Interp(p)
        f = fn_of(p, '_sum', 1)
        ip.st.cells['arg.v.#n'] = var('n')
        v = ip.val(ip.run(f[0], f[1], [Loc('arg.v')]), 'int')
        b = rng(var('n'))
        ck.analysed('_sum')
        check_same(ck, '_sum', where(f[1]), v, sum1(b, var('n'), poly(Atom('read', 'arg.v', (bvar(b),)))),
                   pts(3, lambda k, nm, pa: 4 if nm == 'n' else (pa[0] * 3 - 5 if nm == 'arg.v' else None)), 'not the sum of all entries')
    ck.attempt('_sum', summ)

    def enum(name, nargs, args, n, depth, want, ordered, oid):
        ip = Interp(p, unroll=max(300, len(want)))
        f = fn_of(p, name, nargs)
        ip.st.cells['arg.v.#n'] = poly(n)
        r = ip.run(f[0], f[1], args)
        ck.analysed(name)
        if ip.unsupported or not isinstance(r, Loc):
            ck.und(oid, where(f[1]), 'not supported: %s' % ip.unsupported[:2])
            return
        got = deep(read_list(ip, r, depth))
        if ordered == 'flat':
            got = sorted(got)
        elif not ordered:
            try:
                got = canon(got)
            except TypeError:
                pass
        ck.decide(oid, where(f[1]), got == want, 'for %d elements the enumeration is %s' % (n, str(got)[:200]))
    V = lambda k: ('v', k)

    def parts(n):
        allp = [[[V(i) for i in b] for b in q] for q in set_partitions(n)]
        ck.attempt('_partitions/%d' % n, lambda: enum('_partitions', 1, [Loc('arg.v')], n, 3, canon(allp), False, '_partitions/%d' % n))

    def two(n):
        allp = [[[V(i) for i in b] for b in q] for q in two_partitions(n)]
        ck.attempt('_two_part_partitions/%d' % n, lambda: enum('_two_part_partitions', 1, [Loc('arg.v')], n, 3, canon(allp), False, '_two_part_partitions/%d' % n))

    def combs(n):
        ck.attempt('_combinations/%d' % n, lambda: enum('_combinations', 2, [Loc('arg.v'), poly(2)], n, 2, [[V(a), V(b)] for a, b in combinations(range(n), 2)], True, '_combinations/%d' % n))

    def perms(n):
        ck.attempt('_permutations/%d' % n, lambda: enum('_permutations', 1, [poly(n)], n, 2, sorted([('c', x) for x in t] for t in permutations(range(n))), 'flat', '_permutations/%d' % n))

    def prods(n, rep):
        ck.attempt('_product_repeat/%d^%d' % (n, rep), lambda: enum('_product_repeat', 2, [Loc('arg.v'), poly(rep)], n, 2, [[V(x) for x in t] for t in product(range(n), repeat=rep)], True, '_product_repeat/%d^%d' % (n, rep)))
        ck.attempt('_generate_indices/%d^%d' % (n, rep), lambda: enum('_generate_indices', 2, [poly(rep), poly(n)], n, 2, [[('c', x) for x in t] for t in product(range(n), repeat=rep)], True, '_generate_indices/%d^%d' % (n, rep)))
    N = (0, 1, 2, 3, 4, 5, 6) if ck.tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 7)

    def watch(run, sizes, extra):
        """sizes, then the sizes extra(K) for numbers K the code compares sizes with"""
        before = set(COV)
        for n in sizes:
            run(*n)
        for k in ck.thresholds(6000, before)[-3:]:
            for n in extra(k):
                ck.notes.append('a size is compared with %d: size %s analysed as well' % (k, n))
                run(*n)
    import math
    watch(parts, [(n,) for n in N], lambda k: [(min(k + 2, 8),)])
    watch(two, [(n,) for n in N], lambda k: [(min(k + 2, 10),)])
    watch(combs, [(n,) for n in N], lambda k: [(min(k + 2, 100),)])
    watch(perms, [(n,) for n in N[:6]], lambda k: [(min(k + 2, 7),)] if k < 100 else [(next((m for m in range(7) if math.factorial(m) > k + 1), 7),)])
    watch(prods, [(n, r) for n in N if n for r in ((1, 2) if n > 2 else (1, 2, 3))], lambda k: [(min(k + 2, 150), 1), (min(k + 2, 24), 2), (2, min(k + 2, 9))])

    def reject():
        ip = Interp(p)
        f = fn_of(p, '_combinations', 2)
        ip.st.cells['arg.v.#n'] = poly(3)
        ip.run(f[0], f[1], [Loc('arg.v'), var('k')])
        tot = ONE
        for t in ip.throws:
            tot = tot * (ONE - t[0])
        bad = [k for k in (0, 1, 3, 4) if Point(0, env={'k': k}).poly(tot, {}) != 0]
        ok2 = Point(0, env={'k': 2}).poly(tot, {}) == 1
        ck.decide('_combinations/unsupported-k', where(f[1]), not bad and ok2, 'k=%s is neither implemented nor rejected' % (bad or 2))
    ck.attempt('_combinations/k', reject)
