"""Gated value-graph construction.

One pass over the typed AST of a function (callees inlined), no path enumeration:
branches are merged with 0/1 gates, loops are summarised (closed forms for scalar
recurrences, quantified update records for arrays).  The result of a function is
a set of algebraic terms over its entry state.
"""
import re
from fractions import Fraction
from math import gcd
from terms import *
import terms as T
from frontend import params, body as fbody, where
T.where_of = lambda n: where(n, col=True)

from values import *
from exprs import ExprMixin
from ordered import OrderedMixin
from kvals import KokkosMixin, Vw, KObj, is_view_t


class Interp(ExprMixin, OrderedMixin, KokkosMixin):
    def __init__(self, prog, models=None, opaque=None, unroll=6, inline_depth=12, events=False, cut=False, bounds=False):
        self.prog = prog
        self.oob = [] if bounds else None      # definite accesses outside a container of known size
        self.mute = 0
        self.nacc = 0                          # accesses of known index and size
        self.models = models or {}
        self.opaque = opaque or (lambda q: False)
        self.unroll = unroll
        self.depth = inline_depth
        self.st = State()
        self.frames = []
        self.loops = []          # OpenLoop stack (real mode)
        self.caps = {}           # largest size of each vector so far
        self.discover = False
        self.dstack = []         # LoopInfo stack in discovery mode
        self.loopinfo = {}
        self.unsupported = []    # (what, where)
        LIVE.append(self)
        self.throws = []         # [guard, loops, type, where]
        self.calls = []          # (qual, where) of inlined / opaque calls
        self.events = [] if events else None
        self.nroot = 0
        self.owned = set()      # temporaries that a variable has taken over
        self.nloop = 0
        self.snaps = {}
        self.visited = set()
        self.defaults = {}       # root -> ('fill', Poly) | ('snap', Snap) | None
        self.root_born = {}
        self.curnode = None
        self.array_sizes = {}
        self.cut = cut
        self.given = None        # truth of comparisons the configuration fixes
        self.cmpmemo = {}
        self.ordsnap = {}
        self.mapsnap = {}
        self.k_init()

    # ------------------------------------------------------------ utilities
    def newroot(self, hint):
        self.nroot += 1
        r = '%%%d:%s' % (self.nroot, hint)
        self.root_born[r] = self.nloop_open()
        return r

    def nloop_open(self):
        return len(self.loops) + len(self.dstack)

    def unsup(self, what, node=None):
        w = where(node or self.curnode or {})
        if not self.discover:
            self.unsupported.append((what, w))
        return poly(Atom('unk', '%s@%s' % (what, w)))

    def is_entry_root(self, r):
        return not r.startswith('%')

    # ------------------------------------------------------------ cells / memory
    def entry_value(self, root, ty):
        if ty and is_ptr_t(ty):
            base = ty.strip()
            base = re.sub(r'const$', '', base).strip()[:-1].strip()
            obj = not (is_scalar_t(base) or is_ptr_t(base))
            return Ptr(root, (), ZERO, obj=obj)
        if ty and is_bool_t(ty):
            return poly(Atom('bvar', root))
        return poly(Atom('var', root))

    def base_value(self, root, path, ty=None):
        """value of a location no recorded update has touched"""
        # default by prefix of the root
        r = root
        suffix = ()
        while True:
            d = self.defaults.get(r)
            if d is not None:
                if d[0] == 'fill':
                    if (suffix + path) and (suffix + path)[-1] == '#n':
                        return ZERO
                    return d[1]
                if d[0] == 'snap':
                    s = d[1]
                    return self.read_snap(s, suffix + path, ty)
            i = r.rfind('.')
            if i < 0:
                break
            suffix = (r[i + 1:],) + suffix
            r = r[:i]
        if not self.is_entry_root(root):
            if path and path[-1] == '#n':
                return ZERO
            return poly(Atom('unk', 'uninit:' + root.split(':')[-1]))
        if not path:
            return self.entry_value(root, ty)
        if ty and is_bool_t(ty):
            return poly(Atom('bvar', Atom('read', root, path).key))
        return poly(Atom('read', root, path))

    def load(self, loc, ty=None):
        if not isinstance(loc, Loc):
            return loc
        st = self.st
        if not loc.path:
            if loc.root in st.cells:
                return st.cells[loc.root]
            v = self.cell_default(loc.root, ty)
            return v
        if loc.root.startswith('%k') or loc.root.startswith('%oob'):
            return self.kload(loc)
        if ty and is_ptr_t(ty):
            if 'char' in ty and st.logs.get(loc.root):
                v = str_of(self.read(loc.root, loc.path, st.logs.get(loc.root, ()), ty))
                if v is not None:
                    return v
            # pointer stored in an entry array (T**)
            base = re.sub(r'const$', '', ty.strip()).strip()[:-1].strip()
            return Ptr(loc.root, loc.path, ZERO, obj=not (is_scalar_t(base) or is_ptr_t(base)))
        if self.discover:
            return poly(Atom('d', loc.root, loc.path))
        if self.oob is not None:
            self.inside(loc.root, loc.path, 'read of')
        if self.events is not None and loc.path[-1] != '#n':
            self.events.append(['r', loc.root, loc.path, st.guard, (), self.curnode and where(self.curnode)])
        v = self.read(loc.root, loc.path, st.logs.get(loc.root, ()), ty)
        return (str_of(v) or v) if ty and 'string' in ty else v

    def inside(self, root, path, what):
        if not path or isinstance(path[-1], str) or self.mute or self.loops or self.st.guard != ONE:
            return
        i = path[-1].const()
        if i is None:
            return
        if len(path) == 1:
            n = self.st.cells.get(root + '.#n')
            if n is None and any(r.path == ('#n',) for r in self.st.logs.get(root, ())):
                n = self.read(root, ('#n',), self.st.logs[root], 'int')
        else:
            if root + '.#n' not in self.st.cells:
                return
            keep, self.oob = self.oob, None
            try:
                n = self.load(Loc(root, path[:-1] + ('#n',)), 'int')
            finally:
                self.oob = keep
        n = n.const() if isinstance(n, Poly) else None
        if n is None:
            return
        self.nacc += 1
        if not 0 <= i < n:
            self.oob.append((what, root, path, n, self.curnode and where(self.curnode)))

    def cell_default(self, root, ty):
        """cell not in the table: default from a snapshot or entry state"""
        r = root
        suffix = ()
        while True:
            d = self.defaults.get(r)
            if d is not None:
                if d[0] == 'snap':
                    return self.read_snap(d[1], suffix, ty)
                if d[0] == 'fill':
                    if suffix and suffix[-1] == '#n':
                        return ZERO
                    return d[1]
            i = r.rfind('.')
            if i < 0:
                break
            suffix = (r[i + 1:],) + suffix
            r = r[:i]
        if not self.is_entry_root(root):
            if root.endswith('#n'):
                return ZERO
            return poly(Atom('unk', 'uninit:' + root.split(':')[-1]))
        return self.entry_value(root, ty)

    def read_snap(self, s, suffix, ty):
        loc = Loc(s.root, s.path + tuple(suffix))
        if not loc.path:
            if loc.root in s.log.cells:
                return s.log.cells[loc.root]
            return self.cell_default(loc.root, ty)
        return self.read(loc.root, loc.path, s.log.logs.get(loc.root, ()), ty)

    def store(self, loc, val, op='set', node=None):
        st = self.st
        if isinstance(val, Loc):
            raise Unsupported('store of location')
        if not loc.path:
            if self.discover:
                for li in self.dstack:
                    li.cells.add(loc.root)
            if op == 'add':
                old = self.load(loc)
                val = self.binop('+', old, val)
            if self.cut and not self.loops and isinstance(val, Poly) and not is_boolean(val):
                val = letcut(val)
            st.cells[loc.root] = val
            if self.kern is not None:
                self.kcellwrite(loc.root)
            return
        if loc.root.startswith('%k') or loc.root.startswith('%oob'):
            return self.kstore(loc, val, op)
        if self.discover:
            for li in self.dstack:
                li.roots.add(loc.root)
                if loc.path[-1] == '#n':
                    li.sizeroots.add(loc.root)
            return
        if isinstance(val, Str):
            val = poly(Atom('strv', val.s))
        if not isinstance(val, Poly):
            val = self.unsup('non-scalar array element store', node)
        self.push(loc.root, Rec(op, (), st.guard, loc.path, val, None, where(node) if node else None))

    def push(self, root, rec):
        if self.discover:
            for li in self.dstack:
                li.roots.add(root)
                if rec.kind not in ('set', 'add') or not rec.path or rec.path[-1] == '#n':
                    li.sizeroots.add(root)
            return
        if rec.guard.is_zero():
            return
        if self.oob is not None and rec.kind in ('set', 'add') and not rec.loops:
            self.inside(root, rec.path, 'write to')
        if self.events is not None and rec.kind in ('set', 'add') and rec.path and rec.path[-1] != '#n':
            self.events.append(['w', root, rec.path, rec.guard, tuple((b, n) for b, n, d, i in rec.loops), rec.where])
        if self.cut and not self.loops and isinstance(rec.val, Poly) and rec.path[-1:] != ('#n',):
            rec.val = letcut(rec.val)
        log = self.st.logs.get(root, ()) + (rec,)
        if self.unroll >= 50 and len(log) > 24 and not self.loops and self.st.guard == ONE:
            log = self.compact(root, log)
        self.st.logs[root] = log

    def compact(self, root, log):
        """a run of updates of constant locations becomes one table"""
        j = len(log)
        while j > 0:
            r = log[j - 1]
            if r.kind not in ('set', 'add') or r.loops or r.guard != ONE or not all(isinstance(x, str) or x.const() is not None for x in r.path):
                break
            j -= 1
        if len(log) - j < 24:
            return log
        base = log[:j]
        d = {}
        if base and base[-1].kind == 'table':
            d = dict(base[-1].val)
            base = base[:-1]
        for r in log[j:]:
            k = ckey(r.path)
            if r.kind == 'set':
                d[k] = r.val
            else:
                old = d.get(k)
                if old is None:
                    old = self.read(root, r.path, base)
                v = old + r.val
                d[k] = letcut(v) if self.cut else v
        return base + (Rec('table', (), ONE, (), d, None, log[-1].where),)

    def kill(self, loc):
        """forget cells under loc (object overwritten)"""
        pre = loc.root + '.'
        if not loc.path:
            for c in [c for c in self.st.cells if c == loc.root or c.startswith(pre)]:
                del self.st.cells[c]
            for c in [c for c in self.st.logs if c == loc.root or c.startswith(pre)]:
                del self.st.logs[c]

    # ------------------------------------------------------------ reading through the log
    def read(self, root, path, log, ty=None, start=None, crossing=True):
        guard = self.st.guard
        acc = ZERO
        factor = ONE
        i = (len(log) if start is None else start) - 1
        size = path[-1] == '#n'
        open_here = [L for L in self.loops if root in (L.sizeroots if size else L.roots)] if crossing else []
        if self.loops and log and crossing:
            ids = {a.args[0] for x in path if not isinstance(x, str) for a in all_atoms(x) if a.kind == 'phi'}
            if ids:
                for L in reversed(self.loops):
                    if L in open_here:
                        break
                    if L.id in ids:
                        return self.defer(L, root, path, log, ty)
        while i >= 0:
            # crossing into the region before an open loop that writes this root?
            while open_here and i < open_here[-1].baselen.get(root, 0):
                L = open_here[-1]
                a = self.defer(L, root, path, log[:i + 1], ty)
                return acc + factor * a
            rec = log[i]
            if rec.kind == 'table':
                if all(isinstance(x, str) or x.const() is not None for x in path):
                    k = ckey(path)
                    if k in rec.val:
                        return acc + factor * rec.val[k]
                    i -= 1
                    continue
                exp = tuple(Rec('set', (), ONE, tuple(x if isinstance(x, str) else poly(x) for x in k), v, None, rec.where) for k, v in rec.val.items())
                return acc + factor * self.read(root, path, log[:i] + exp, ty)
            m = self.match(rec, path, guard)
            if m is None:
                i -= 1
                continue
            if m == 'maybe':
                return acc + factor * self.cur(root, path, log[:i + 1])
            sol, cond, suffix = m
            # ordering inside a common loop
            if rec.loops and rec.kind in ('set', 'copy', 'fill'):
                o = self.check_order(rec, sol, log, i, path, guard)
                if o == 'maybe':
                    return acc + factor * self.cur(root, path, log[:i + 1])
            c = cond
            if rec.kind == 'add':
                val = rec.val
                free = [(b, n) for b, n, d, lid in rec.loops if Atom('bv', b) not in sol]
                v = self.rsub(val, sol) * c
                if free:
                    ren = {}
                    nf = []
                    for b, n in free:
                        f = fresh()
                        RANGE[f] = n
                        ren[Atom('bv', b)] = bvar(f)
                        nf.append((f, n))
                    v = subst(v, ren)
                    nf = [(f, subst(subst(n, ren), sol)) for f, n in nf]
                    v = msum(tuple(nf), v)
                acc = acc + factor * v
                i -= 1
                continue
            if rec.kind == 'set':
                v = self.rsub(rec.val, sol)
            elif rec.kind == 'fill':
                if suffix and suffix[-1] == '#n':
                    i -= 1
                    continue
                v = self.rsub(rec.val, sol)
            elif rec.kind == 'copy':
                s = rec.src
                if sol:
                    s = self.map_snap(s, lambda t: subst(t, sol))
                v = self.read_snap(s, suffix, ty)
                if not isinstance(v, Poly):
                    return v
            elif rec.kind == 'havoc':
                v = poly(Atom('unk', 'havoc:' + str(rec.where)))
            if c == ONE:
                return acc + factor * v
            acc = acc + factor * c * v
            factor = factor * (ONE - c)
            if factor.is_zero():
                return acc
            i -= 1
        while open_here:
            L = open_here[-1]
            a = self.defer(L, root, path, (), ty)
            return acc + factor * a
        b = self.base_value(root, path, ty)
        if not isinstance(b, Poly):
            return b
        return acc + factor * b

    def check_order(self, rec, sol, log, i, path, guard):
        lid = rec.loops[0][3]
        kb = Atom('bv', rec.loops[0][0])
        for j in range(i - 1, -1, -1):
            o = log[j]
            if not o.loops or o.loops[0][3] != lid:
                break
            m = self.match(o, path, guard)
            if m is None:
                continue
            if m == 'maybe':
                return 'maybe'
            s2 = m[0]
            a, b = sol.get(kb), s2.get(Atom('bv', o.loops[0][0]))
            if a is None and b is None:
                continue
            if a is None or b is None:
                # one is undetermined: same location in every iteration
                return 'maybe' if (rec.kind != o.kind or rec.kind != 'set') else None
            d = b - a
            c = d.const()
            if c is None:
                # conditions may exclude each other
                if (m[1] * guard).is_zero():
                    continue
                return 'maybe'
            if c == 0:
                continue
            later = (c > 0) == (rec.loops[0][2] == 'asc')
            if later and not m[1].is_zero():
                return 'maybe'
        return None

    def cur(self, root, path, log):
        tag = self.logkey(root, log)
        return poly(Atom('cur', root, path, tag))

    def logkey(self, root, log):
        import hashlib
        h = hashlib.sha1()
        for r in log:
            h.update(reckey(r).encode())
        return h.hexdigest()[:10]

    def defer(self, L, root, path, log, ty):
        sid = 'S%d' % len(self.snaps)
        key = (L.id, root, log)
        # share snapshots
        for k, v in self.snaps.items():
            if v[0] == L.id and v[1] == root and v[2] is log:
                sid = k
                break
        else:
            self.snaps[sid] = (L.id, root, log, ty)
        return poly(Atom('defer', sid, root, path))

    def match(self, rec, path, guard):
        """None: provably a different location; 'maybe'; or (solution, condition, suffix)"""
        rp = rec.path
        if rec.kind in ('set', 'add'):
            if len(rp) != len(path):
                # mixed shapes: a record on a sub-object or on a size
                n = min(len(rp), len(path))
                for x, y in zip(rp[:n], path[:n]):
                    if isinstance(x, str) != isinstance(y, str):
                        return None
                    if isinstance(x, str) and x != y:
                        return None
                return None
            suffix = ()
        else:
            if len(path) < len(rp):
                return None
            suffix = path[len(rp):]
        for x, y in zip(rp, path):
            xs, ys = isinstance(x, str), isinstance(y, str)
            if xs != ys or (xs and x != y):
                return None
        # guard
        if not rec.loops:
            g = rec.guard
            if guard != ONE:
                gg = g * guard
                if gg.is_zero():
                    return None
                if gg == guard:
                    g = ONE
            cond = g
            for x, y in zip(rp, path):
                if isinstance(x, str):
                    continue
                e = eq0(x - y)
                if e.is_zero():
                    return None
                if e != ONE:
                    e = self.simp_eq(x - y, e)
                    if e.is_zero():
                        return None
                cond = cond * e
            if cond.is_zero():
                return None
            return {}, cond, suffix
        sol = {}
        cond = ONE
        unknown = {b: n for b, n, d, lid in rec.loops}
        pairs = [(x, y) for x, y in zip(rp, path) if not isinstance(x, str)]
        pend = list(pairs)
        progress = True
        residual = []
        while pend:
            # choose the pair with the fewest unknowns
            pend.sort(key=lambda xy: len([b for b in unknown if b in subst(xy[0], sol).fv]))
            x, y = pend.pop(0)
            x = subst(x, sol)
            us = [b for b in unknown if b in x.fv]
            r = self.solve(x, y, us, unknown, sol)
            if r is None:
                return None
            if r == 'maybe':
                residual.append((x, y))
                continue
            s, c = r
            for b, v in s.items():
                sol[Atom('bv', b)] = v
                unknown.pop(b, None)
            cond = cond * c
            if cond.is_zero():
                return None
        if residual:
            if rec.kind != 'add':
                x, y = residual[0]
                return 'maybe'
            for x, y in residual:
                cond = cond * eq0(subst(x, sol) - y)
        # ranges of solved binders
        for b, n, d, lid in rec.loops:
            v = sol.get(Atom('bv', b))
            if v is None:
                continue
            n2 = subst(n, sol)
            if not n2.is_const():
                qr = fdivmod(v, n2)
                if qr is not None:
                    if qr[0].is_zero():
                        continue
                    cond = cond * self.simp_eq(qr[0], eq0(qr[0]))
                    sol[Atom('bv', b)] = qr[1]
                    if cond.is_zero():
                        return None
                    continue
            c1 = self.simp(le0(-v, True))
            c2 = self.simp(lt0(v - n2, True))
            cond = cond * c1 * c2
            if cond.is_zero():
                return None
        free = [(b, n, d) for b, n, d, lid in rec.loops if Atom('bv', b) not in sol]
        if free and rec.kind != 'add':
            # last iteration wins
            for b, n, d in free:
                n2 = subst(n, sol)
                last = (n2 - 1) if d == 'asc' else ZERO
                sol[Atom('bv', b)] = last
                cond = cond * self.simp(lt0(-n2, True))
            if b in rec.guard.fv:
                pass
        g = subst(rec.guard, sol)
        if free and rec.kind != 'add' and any(b in rec.guard.fv for b, n, d in free):
            return 'maybe'
        if guard != ONE:
            gg = g * guard
            if gg.is_zero():
                return None
            if gg == guard:
                g = ONE
        cond = cond * g
        if cond.is_zero():
            return None
        if guard != ONE and cond != ONE and is_boolean(cond):
            cg = cond * guard
            if cg.is_zero():
                return None
            if cg == guard:
                cond = ONE
        return sol, cond, suffix

    def solve(self, x, t, us, unknown, sol):
        """solve x(us) == t"""
        dd = x - t
        k0 = dd.t.get((), 0)
        g = 0
        for m, c in dd.t.items():
            if not isinstance(c, int):
                g = 1
                break
            if m:
                g = gcd(g, abs(c))
        if g > 1 and isinstance(k0, int) and k0 % g:
            return None              # congruence: never equal
        if not us:
            e = eq0(x - t)
            if e != ONE and not e.is_zero():
                e = self.simp_eq(x - t, e)
            if e.is_zero():
                return None
            return {}, e
        pf = self.prefix_solve(x, t, us, unknown, sol)
        if pf is not None:
            return pf
        coefs = {}
        rest = x
        for b in us:
            cr = coeff_of(rest, Atom('bv', b))
            if cr is None:
                return 'maybe'
            coefs[b] = cr[0]
            rest = cr[1]
        for b in us:
            for b2 in us:
                if b2 in coefs[b].fv:
                    return 'maybe'
        d = t - rest
        if len(us) == 1:
            b = us[0]
            c = coefs[b]
            q = exact_div(d, c)
            if q is not None and all(isinstance(k, int) for k in q.t.values()):
                return {b: q}, ONE
            k = c.const()
            if k is not None:
                # remainder argument
                k = abs(k)
                const = d.t.get((), 0)
                if all((not isinstance(v, Fraction)) and v % k == 0 for m, v in d.t.items() if m) and \
                        isinstance(const, int) and const % k != 0:
                    return None
            qr = fdivmod(d, c)
            if qr is not None:
                if qr[1].is_zero():
                    return {b: qr[0]}, ONE
                if self.nonneg(qr[1] - 1):
                    return None
                return {b: qr[0]}, eq0(qr[1])
            s = idiv_s(d, c)
            r = d - c * s
            if r.is_zero():
                return {b: s}, ONE
            return {b: s}, eq0(r)
        # several unknown binders: mixed radix
        order = self.radix_order(coefs, unknown)
        if order is None:
            return 'maybe'
        out = {}
        for idx, b in enumerate(order):
            c = coefs[b]
            last = idx == len(order) - 1
            if last:
                q = exact_div(d, c)
                if q is not None and all(isinstance(x, int) for x in q.t.values()):
                    out[b] = q
                    return out, ONE
            qr = fdivmod(d, c)
            if qr is None:
                # the remaining digits must equal d - c*s for some s: try to read the digit off
                s = idiv_s(d, c)
                qr = (s, d - c * s)
            out[b] = qr[0]
            d = qr[1]
            if last:
                if d.is_zero():
                    return out, ONE
                if self.nonneg(d - 1):
                    return None
                return out, eq0(d)
        return out, ONE

    def prefix_solve(self, x, t, us, unknown, sol):
        """x counts entries of a ragged nest: x = .. + sum{b'<b: n[b']} + j, 0 <= j < n[b].
        The pair (b, j) is determined by the count, so a target of the same form
        with 0 <= j0 < n[b0] has exactly the solution b = b0, j = j0."""
        def prefixes(p):
            return [a for m in p.t for a, e in m if a.kind == 'sum' and e == 1 and len(a.args[0]) == 1]
        px = prefixes(x)
        if not px:
            return None
        pt = prefixes(t)
        for a in px:
            (bb, cnt), body = a.args[0][0], a.args[1]
            hit = [b for b in us if cnt == bvar(b)]
            if not hit:
                continue
            b = hit[0]
            cands = [a2.args[0][0][1] for a2 in pt if a2.args[1] == body and a2.args[0][0][0] == bb]
            cands = [c for c in cands if not any(u in c.fv for u in us)]
            if not cands:
                # the empty prefix (first row)
                cands = [ZERO]
            for c in cands:
                x2 = subst(x, {Atom('bv', b): c})
                us2 = [u for u in us if u != b]
                if any(u not in x2.fv for u in us2):
                    continue
                nsol = dict(sol)
                nsol[Atom('bv', b)] = c
                unk2 = {u: subst(n, {Atom('bv', b): c}) for u, n in unknown.items() if u != b}
                r = self.solve(x2, t, us2, unk2, nsol) if us2 else None
                if r is None or r == 'maybe' or r[1] != ONE:
                    continue
                ok = True
                row = subst(body, {Atom('bv', bb): c})
                jn = [u for u in us2 if unk2[u] == row]
                if not jn:
                    continue
                for u in us2:
                    v = r[0].get(u)
                    if v is None or not self.nonneg(v) or not self.nonneg(unk2[u] - 1 - v):
                        ok = False
                if ok:
                    out = dict(r[0])
                    out[b] = c
                    return out, ONE
            return 'maybe'
        return None

    def radix_order(self, coefs, unknown):
        bs = list(coefs)

        def deg(b):
            c = coefs[b]
            return max((sum(e for _, e in m) for m in c.t), default=0)
        bs.sort(key=lambda b: (-deg(b), -max([abs(v) for v in coefs[b].t.values()] or [0])))
        # check that the smaller digits stay below the larger stride
        for i, b in enumerate(bs[:-1]):
            mx = ZERO
            for b2 in bs[i + 1:]:
                mx = mx + coefs[b2] * (unknown[b2] - 1)
            if not self.nonneg(coefs[b] - 1 - mx):
                return None
        return bs

    def simp_eq(self, d, e):
        if self.nonneg(d - 1) or self.nonneg(-d - 1):
            return ZERO
        return e

    def simp(self, c):
        """simplify a condition with the known ranges"""
        if c.is_const():
            return c
        out = c
        for a in list(c.atoms()):
            if self.given is not None and a.kind in ('rlt', 'rle', 'eq', 'bvar'):
                v = self.given(a)
                if v is not None:
                    out = subst(out, {a: ONE if v else ZERO})
            if a.kind == 'ilt':
                p = a.args[0]
                if self.nonneg(p):
                    out = subst(out, {a: ZERO})
                elif self.nonneg(-p - 1):
                    out = subst(out, {a: ONE})
        return out

    def nonneg(self, p):
        return nonneg(p)

    def rsub(self, t, sol):
        if not sol:
            return t
        return deep_simp(subst(t, sol))

    # ------------------------------------------------------------ state merging
    def merge_states(self, lst, base_guard=None):
        """lst: [(guard, state)] mutually exclusive"""
        if len(lst) == 1:
            return lst[0][1]
        out = lst[-1][1].fork()
        total = lst[-1][0]
        for g, s in reversed(lst[:-1]):
            out = self.merge2(g, total, s, out)
            total = g + total
        out.guard = total
        out.alive = True
        return out

    def merge2(self, g1, g2, s1, s2):
        c = self.rel_cond(g1, g2)
        out = State()
        keys = set(s1.cells) | set(s2.cells)
        for k in keys:
            a = s1.cells.get(k)
            b = s2.cells.get(k)
            if a is None or b is None:
                if not self.is_entry_root(k) and k.split('.')[0] not in self.defaults:
                    # temporary born in one branch, or size cell
                    v = a if a is not None else b
                    out.cells[k] = v
                    continue
                if a is None:
                    a = self.cell_default(k, None) if not isinstance(b, Ptr) else b
                if b is None:
                    b = self.cell_default(k, None) if not isinstance(a, Ptr) else a
            out.cells[k] = self.merge_val(c, a, b)
        roots = set(s1.logs) | set(s2.logs)
        for r in roots:
            a = s1.logs.get(r, ())
            b = s2.logs.get(r, ())
            n = 0
            while n < len(a) and n < len(b) and a[n] is b[n]:
                n += 1
            out.logs[r] = a + b[n:]
        out.guard = g1 + g2
        return out

    def rel_cond(self, g1, g2):
        """condition selecting branch 1 given g1 + g2: drop the common factor"""
        tot = g1 + g2
        if tot == ONE:
            return g1
        # common literals
        q = exact_div(g1, tot)
        if q is not None and not any(a.kind == 'unk' for a in q.atoms()):
            return q
        # find boolean literal c with g1 = tot*c
        for a in sorted(g1.atoms(), key=lambda a: a.key):
            if a.kind in T.BOOL_KINDS:
                la = poly(a)
                if tot * la == g1:
                    return la
                if tot * (ONE - la) == g1:
                    return ONE - la
        return g1

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.path == b.path:
            sz = a.size
            if a.size is not None and b.size is not None:
                sz = ite(c, a.size, b.size)
            return Ptr(a.root, a.path, ite(c, a.off, b.off), a.obj, sz)
        if type(a) == type(b) and a == b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.v) == len(b.v):
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a, Str) or isinstance(b, Str):
            return Str('?')
        return self.unsup('merge of unlike values')

    # ------------------------------------------------------------ function entry
    def define_arg(self, name, ty):
        """entry value of a parameter, by its type"""
        t = strip_ref(ty)
        root = 'arg.' + name
        if is_scalar_t(t):
            if is_bool_t(t):
                return poly(Atom('bvar', name))
            return var(name)
        if is_ptr_t(t):
            return self.entry_value(root, t)
        if 'span<' in t:
            return Ptr(root, (), ZERO, size=poly(Atom('var', '#' + root)))
        return Loc(root)

    def run(self, tu, fn, args, this='this'):
        """analyse fn with the given argument values; returns the value returned"""
        fr_this = Ptr(this, (), ZERO, obj=True) if isinstance(this, str) else this
        return self.call_function(tu, fn, args, fr_this, fn)

    def call_function(self, tu, fn, args, this, node, env=None):
        if len(self.frames) >= self.depth:
            return self.unsup('call depth', node)
        env = dict(env) if env else {}
        ctx = (self.frames[-1].ctx if self.frames else ()) + ((tu.path, node.get('id')),)
        fr = Frame(tu, fn, env, this, ctx)
        ps = params(fn)
        for i, p in enumerate(ps):
            if i < len(args):
                a = args[i]
            else:
                ini = kids(p)
                a = None
                if ini:
                    self.frames.append(fr)
                    a = self.ev(ini[0])
                    self.frames.pop()
                if a is None:
                    a = self.unsup('missing argument', node)
            self.bind_param(fr, p, a)
        self.frames.append(fr)
        outer_loops = None
        self.visited.add((tu.path, fn.get('id')))
        try:
            # constructor initialisers
            if fn.get('kind') == 'CXXConstructorDecl':
                for c in kids(fn):
                    if c.get('kind') == 'CXXCtorInitializer':
                        self.ctor_init(c, fr)
                self.default_member_inits(fr)
            b = fbody(fn)
            self.exec(b)
            ends = []
            if self.st.alive:
                ends.append((self.st.guard, self.st, None))
            ends += fr.returns
        finally:
            self.frames.pop()
        if not ends:
            # always throws
            self.st.alive = False
            return poly(Atom('unk', 'noreturn'))
        isvoid = all(v is None for _, _, v in ends)
        if len(ends) == 1:
            self.st = ends[0][1]
            self.st.alive = True
            return ends[0][2]
        st = self.merge_states([(g, s) for g, s, v in ends])
        if not isvoid:
            # gate the returned values
            val = None
            tot = None
            for g, s, v in reversed(ends):
                if v is None:
                    continue
                if val is None:
                    val, tot = v, g
                    vs = s
                else:
                    val = self.merge_ret(self.rel_cond(g, tot), v, val, s, vs)
                    tot = g + tot
            self.st = st
            return val
        self.st = st
        return None

    def merge_ret(self, c, a, b, sa, sb):
        if isinstance(a, Loc) and isinstance(b, Loc) and a != b:
            # two temporaries: build a merged one
            r = self.newroot('ret')
            # keep both states' logs visible: record guarded copies
            self.defaults[r] = ('gate', c, Snap(a.root, a.path, sa.fork()), Snap(b.root, b.path, sb.fork()))
            return self.unsup('merge of container results')
        return self.merge_val(c, a, b)

    def bind_param(self, fr, p, a):
        pid = p['id']
        ty = tystr(p)
        if ty.rstrip().endswith('&') or 'span<' in ty:
            if isinstance(a, Loc):
                if 'span<' in ty and not ty.rstrip().endswith('&'):
                    # a span value: unwrap a local span variable / convert a container
                    a = self.to_span(a)
                    r = self.newroot(p.get('name', 'p'))
                    self.st.cells[r] = a
                    fr.env[pid] = Loc(r)
                    return
                fr.env[pid] = a
                return
            r = self.newroot(p.get('name', 'p'))
            self.init_object(Loc(r), a)
            fr.env[pid] = Loc(r)
            return
        if isinstance(a, Loc) and is_scalar_t(ty):
            a = self.load(a, ty)
        r = self.newroot(p.get('name', 'p'))
        if isinstance(a, Loc):
            # by value: snapshot
            if self.is_temp(a):
                self.owned.add(a.root)
                fr.env[pid] = a
                return
            if not self.frames:
                fr.env[pid] = a      # entry argument: its own storage
                return
            self.copy_object(Loc(r), a)
            fr.env[pid] = Loc(r)
            return
        self.st.cells[r] = self.conv(a, ty)
        fr.env[pid] = Loc(r)

    def conv(self, v, ty):
        t = strip_ref(ty).replace('const ', '')
        if isinstance(v, Poly):
            if t == 'float' and not v.is_const():
                return v
        return v

    def init_object(self, loc, v):
        if isinstance(v, Loc):
            self.copy_object(loc, v)
        elif isinstance(v, Tup):
            for i, x in enumerate(v.v):
                self.init_object(loc.sub('_%d' % i), x)
        else:
            self.store(loc, v)

    def copy_object(self, dst, src):
        v = self.kval(src)
        if v is not None:
            return self.store(dst, v)
        self.muted(self.copy_object_, dst, src)

    def copy_object_(self, dst, src):
        """dst becomes a by-value copy of src"""
        if dst == src:
            return
        st = self.st
        if self.discover:
            for li in self.dstack:
                if dst.path:
                    li.roots.add(dst.root)
                    li.sizeroots.add(dst.root)
                else:
                    li.cells.add(dst.root)
                    li.cells.add(dst.root + '.#n')
                    li.roots.add(dst.root)
                    li.sizeroots.add(dst.root)
            # keep pointer-like cells usable
            if not dst.path and not src.path:
                for c, v in list(st.cells.items()):
                    if c == src.root or c.startswith(src.root + '.'):
                        st.cells[dst.root + c[len(src.root):]] = v
            return
        snap = Snap(src.root, src.path, st.fork())
        if dst.path:
            self.push(dst.root, Rec('copy', (), st.guard, dst.path, None, snap, where(self.curnode) if self.curnode else None))
            return
        # whole-object copy
        if st.guard == ONE or not self.is_entry_root(dst.root):
            self.kill(dst)
            if not src.path:
                for c, v in list(st.cells.items()):
                    if c == src.root or c.startswith(src.root + '.'):
                        st.cells[dst.root + c[len(src.root):]] = v
        else:
            # guarded copy onto live storage
            n = self.container_size(src)
            st.cells[dst.root + '.#n'] = n
        self.push(dst.root, Rec('copy', (), st.guard, (), None, snap, where(self.curnode) if self.curnode else None))
        # nested field roots: reading dst.f falls back to the snapshot through defaults
        self.defaults[dst.root] = ('snap', snap) if st.guard == ONE or not self.is_entry_root(dst.root) else self.defaults.get(dst.root)

    # ------------------------------------------------------------ statements
    def exec(self, n):
        if not self.st.alive:
            return
        k = n.get('kind')
        self.curnode = n if n.get('range') else self.curnode
        m = getattr(self, 'x_' + k, None)
        if m is not None:
            return m(n)
        # expression statement
        try:
            self.ev(n)
        except Unsupported as e:
            self.unsup(str(e), n)

    def x_CompoundStmt(self, n):
        for c in kids(n):
            if not self.st.alive:
                return
            self.exec(c)

    def x_NullStmt(self, n):
        pass

    def x_AttributedStmt(self, n):
        for c in kids(n):
            if c.get('kind', '').endswith('Attr'):
                continue
            self.exec(c)

    def x_ExprWithCleanups(self, n):
        self.exec(kids(n)[0])

    def x_DeclStmt(self, n):
        for d in kids(n):
            self.decl(d)

    def decl(self, d):
        k = d.get('kind')
        fr = self.frames[-1]
        if k == 'VarDecl':
            ty = tystr(d)
            ini = [c for c in kids(d) if not c.get('kind', '').endswith('Attr')]
            name = d.get('name', 'v')
            if d.get('storageClass') == 'static':
                self.unsup('static local', d)
            if ty.rstrip().endswith('&'):
                v = self.ev(ini[0])
                if isinstance(v, Loc):
                    if not v.path:
                        self.owned.add(v.root)
                    fr.env[d['id']] = v
                    return
                r = self.newroot(name)
                self.init_object(Loc(r), v)
                fr.env[d['id']] = Loc(r)
                return
            r = self.newroot(name)
            loc = Loc(r)
            fr.env[d['id']] = loc
            if not ini:
                if '[' in ty and not is_scalar_t(ty):
                    self.defaults[r] = None
                    m = re.search(r'\[(\d+)\]$', ty.strip())
                    if self.oob is not None and m:
                        self.st.cells[r + '.#n'] = poly(int(m.group(1)))
                return
            v = self.ev(ini[0])
            if isinstance(v, Loc):
                if is_scalar_t(ty) or is_ptr_t(ty):
                    v = self.load(v, ty)
                    self.st.cells[r] = v
                    return
                sv = self.st.cells.get(v.root) if not v.path else None
                if isinstance(sv, (Ptr, Clo, Str, Tup, Vw, KObj)):
                    self.st.cells[r] = self.own_tuple(sv) if isinstance(sv, Tup) else sv
                    return
                if self.is_temp(v) or 'basic_json' in ty:
                    self.owned.add(v.root)
                    fr.env[d['id']] = v
                    return
                self.copy_object(loc, v)
                return
            if isinstance(v, Tup):
                self.init_array(loc, v, ty)
                return
            self.st.cells[r] = v
            return
        if k == 'DecompositionDecl':
            ini = [c for c in kids(d) if c.get('kind') != 'BindingDecl']
            v = self.ev(ini[0])
            if not self.st.alive:
                return
            bs = [c for c in kids(d) if c.get('kind') == 'BindingDecl']
            isref = tystr(d).rstrip().endswith('&')
            if isinstance(v, Loc):
                sv = self.st.cells.get(v.root) if not v.path else None
                if isinstance(sv, Tup):
                    v = sv if isref else Tup([self.detach(x) for x in sv.v])
            for i, b in enumerate(bs):
                bty = tystr(b)
                if isinstance(v, Tup):
                    x = v.v[i]
                    if isinstance(x, Loc):
                        self.owned.add(x.root)
                        fr.env[b['id']] = x
                        continue
                    r = self.newroot(b.get('name', 'b'))
                    self.st.cells[r] = x
                    fr.env[b['id']] = Loc(r)
                elif isinstance(v, Loc):
                    self.bind_part(b, v.sub(self.binding_step(b, i, tystr(d))), isref)
                else:
                    r = self.newroot('b')
                    self.st.cells[r] = self.unsup('structured binding', d)
                    fr.env[b['id']] = Loc(r)
            return
        if k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'StaticAssertDecl', 'EmptyDecl', 'FunctionDecl', 'NamespaceAliasDecl'):
            return
        self.unsup('declaration ' + str(k), d)

    def is_temp(self, loc):
        return not loc.path and loc.root not in self.owned and loc.root.startswith('%') and loc.root.split(':', 1)[1].startswith('tmp')

    def own_tuple(self, v):
        """the components of a tuple held by a variable are variables themselves"""
        out = []
        for x in v.v:
            x = self.detach(x)
            if isinstance(x, Tup):
                x = self.own_tuple(x)
            elif isinstance(x, Loc):
                self.owned.add(x.root)
            elif x is not None:
                r = self.newroot('part')
                self.st.cells[r] = x
                x = Loc(r)
            out.append(x)
        return Tup(out)

    def binding_step(self, b, i, t):
        for c in kids(b):
            c = skip(c)
            if c.get('kind') == 'MemberExpr' and c.get('name'):
                return ('_0' if c['name'] == 'first' else '_1') if re.match(r'(std::)?pair<', re.sub(r'^(const|struct|class)\s+', '', strip_ref(t).replace('const ', ''))) else c['name']
            if c.get('kind') == 'ArraySubscriptExpr':
                return poly(i)
        return poly(i) if 'array<' in t or '[' in t else '_%d' % i

    def bind_part(self, b, loc, isref):
        fr = self.frames[-1]
        if not isref and not self.is_temp(Loc(loc.root)):
            bty = strip_ref(tystr(b))
            r = self.newroot(b.get('name', 'b'))
            if is_scalar_t(bty) or is_ptr_t(bty):
                self.st.cells[r] = self.load(loc, bty)
            else:
                self.copy_object(Loc(r), loc)
            loc = Loc(r)
        fr.env[b['id']] = loc

    def init_array(self, loc, v, ty):
        self.muted(self.init_array_, loc, v, ty)

    def init_array_(self, loc, v, ty):
        t = strip_ref(ty)
        if re.match(r'(const )?(std::)?(tuple|pair)<', t):
            if loc.path:
                for i, x in enumerate(v.v):
                    self.init_object(loc.sub('_%d' % i), x)
                return
            self.st.cells[loc.root] = self.own_tuple(v)
            return
        cls = self.class_of_type(t)
        if cls is not None:
            fields = [c for c in kids(cls[1]) if c.get('kind') == 'FieldDecl']
            for f, x in zip(fields, v.v):
                self.assign_into(loc.sub(f['name']), x, tystr(f))
            return
        for i, x in enumerate(v.v):
            if isinstance(x, Tup):
                self.init_array(loc.sub(poly(i)), x, '')
            elif isinstance(x, Loc):
                self.copy_object(loc.sub(poly(i)), x)
            else:
                self.store(loc.sub(poly(i)), x)
        m = re.search(r'\[(\d+)\]$', t) or re.search(r'array<.*,\s*(\d+)[uUlL]*\s*>$', t)
        n = int(m.group(1)) if m else len(v.v)
        for i in range(len(v.v), min(n, 64)):
            self.store(loc.sub(poly(i)), ZERO)
        self.store(loc.sub('#n'), poly(n))

    def class_of_type(self, t):
        t = t.replace('const ', '').strip()
        t = re.sub(r'^(class|struct) ', '', t)
        return self.prog.classes.get(t)

    def x_IfStmt(self, n):
        ks = kids(n)
        i = 0
        if n.get('hasInit'):
            self.exec(ks[0])
            i = 1
        if n.get('hasVar'):
            self.exec(ks[i])
            i += 1
        cond, then = ks[i], ks[i + 1]
        els = ks[i + 2] if n.get('hasElse') else None
        if n.get('isConstexpr'):
            pass
        c = boolify(self.rv(cond))
        if not self.discover:
            c = self.simp(c)
            g = self.st.guard
            if g != ONE:
                if (g * c) == g:
                    c = ONE
                elif (g * c).is_zero():
                    c = ZERO
        if self.discover:
            s0 = self.st
            self.st = s0.fork()
            self.exec(then)
            s1 = self.st
            self.st = s0
            self.st.alive = True
            if els is not None:
                self.exec(els)
            # keep union of knowledge: continue with whichever is alive
            if not self.st.alive and s1.alive:
                self.st = s1
            self.st.alive = True
            return
        if not self.mute:
            seen(n, 'if', 1 if c == ONE else 0 if c.is_zero() else 2)
        if c == ONE:
            self.exec(then)
            return
        if c.is_zero():
            if els is not None:
                self.exec(els)
            return
        s0 = self.st
        s1 = s0.fork()
        s1.guard = s0.guard * c
        s2 = s0.fork()
        s2.guard = s0.guard * (ONE - c)
        self.st = s1
        self.exec(then)
        s1 = self.st
        self.st = s2
        if els is not None:
            self.exec(els)
        s2 = self.st
        if s1.alive and s2.alive:
            m = self.merge2(s1.guard, s2.guard, s1, s2)
            if s1.guard + s2.guard == s0.guard:
                m.guard = s0.guard
            self.st = m
        elif s1.alive:
            self.st = s1
        elif s2.alive:
            self.st = s2
        else:
            self.st = s2
            self.st.alive = False

    def x_ReturnStmt(self, n):
        ks = kids(n)
        fr = self.frames[-1]
        v = None
        if ks:
            v = self.ev(ks[0])
            rt = self.rettype(fr)
            if isinstance(v, Loc):
                if rt.rstrip().endswith('&'):
                    pass
                elif is_scalar_t(rt) or is_ptr_t(rt):
                    v = self.load(v, rt)
                else:
                    sv = self.st.cells.get(v.root) if not v.path else None
                    if isinstance(sv, (Ptr, Clo, Tup, Str, Vw, KObj)):
                        v = Tup([self.detach(x) for x in sv.v]) if isinstance(sv, Tup) else sv
                    elif not self.is_temp(v):
                        r = Loc(self.newroot('tmp'))
                        self.copy_object(r, v)
                        v = r
            elif isinstance(v, Tup):
                v = Tup([self.detach(x) for x in v.v])
        if self.loops and len(fr.loopconts) > 0 and not self.discover:
            self.unsup('return inside a loop', n)
        fr.returns.append((self.st.guard, self.st.fork() if self.discover else self.st, v))
        if self.discover:
            fr.returns[-1][1].alive = True
            self.st.alive = False
        else:
            s = self.st.fork()
            s.alive = False
            self.st = s

    def detach(self, x):
        if isinstance(x, Loc):
            sv = self.st.cells.get(x.root) if not x.path else None
            if isinstance(sv, Tup):
                return Tup([self.detach(y) for y in sv.v])
            if isinstance(sv, (Poly, Ptr, Str, Clo, Vw, KObj)):
                return sv
            if not self.is_temp(x):
                r = Loc(self.newroot('tmp'))
                self.copy_object(r, x)
                return r
        return x

    def rettype(self, fr):
        t = fr.fn.get('type', {}).get('desugaredQualType') or fr.fn.get('type', {}).get('qualType', '')
        if '->' in t:
            return t.split('->')[-1].strip()
        return t.split('(')[0].strip()

    def x_ContinueStmt(self, n):
        fr = self.frames[-1]
        if fr.loopconts:
            fr.loopconts[-1].append((self.st.guard, self.st))
        s = self.st.fork()
        s.alive = False
        self.st = s

    def x_BreakStmt(self, n):
        fr = self.frames[-1]
        if not self.discover and fr.loopbreaks and fr.loopbreaks[-1] is not None:
            fr.loopbreaks[-1].append((self.st.guard, self.st))
            s = self.st.fork()
            s.alive = False
            self.st = s
            return
        self.unsup('break', n)
        self.st.alive = True

    def x_SwitchStmt(self, n):
        self.unsup('switch', n)

    def x_DoStmt(self, n):
        ks = kids(n)
        if not self.discover and self.unroll >= 50 and not self.loops and self.dyn_loop(n, ks[1], {}, ks[0], None, post=True):
            return
        self.unsup('do-while', n)

    def x_CXXTryStmt(self, n):
        self.exec(kids(n)[0])

    # ------------------------------------------------------------ loops
    def x_ForStmt(self, n):
        raw = n.get('inner', [])
        init, var_, cond, inc, bod = (raw + [{}] * 5)[:5]
        if init:
            self.exec(init)
        self.loop(n, cond, inc, bod)

    def x_WhileStmt(self, n):
        ks = kids(n)
        self.loop(n, ks[0], {}, ks[-1])

    def x_CXXForRangeStmt(self, n):
        raw = [c for c in n.get('inner', [])]
        # init, range decl, begin, end, cond, inc, loopvar, body
        raw = raw + [{}] * (8 - len(raw))
        init, rng, beg, end, cond, inc, lv, bod = raw[:8]
        if init:
            self.exec(init)
        rd = kids(rng)[0]
        rinit = kids(rd)[0]
        v = self.ev(rinit)
        if self.ord_of(v) is not None and not self.discover:
            return self.ord_loop(v, kids(lv)[0], bod)
        if isinstance(v, Tup):
            r = Loc(self.newroot('tmp'))
            self.init_array(r, v, '')
            v = r
        if isinstance(v, Ptr) and v.size is not None:
            size = v.size
            elem = lambda k: v.at(k)
        elif isinstance(v, Loc):
            sv = self.span_of(v)
            if sv is not None:
                size = sv.size
                elem = lambda k: sv.at(k)
            else:
                size = self.container_size(v)
                elem = lambda k: v.sub(k)
        else:
            self.unsup('range-for over unknown', n)
            return
        self.loop(n, None, {}, bod, rng=(size, elem, kids(lv)[0]))

    def dyn_loop(self, n, cond, inc, bod, rng, post=False):
        """configuration mode: walk a loop whose condition is constant each time"""
        limit = 4 * self.unroll
        breaks = []
        if rng:
            N = rng[0].const()
            if N is None or N > limit:
                return False
            for i in range(int(N)):
                self.bind_range_var(rng[2], rng[1], poly(i))
                if not self.iter_body(bod, breaks):
                    break
            self.end_loop(breaks)
            return True
        mark = self.mark()
        fr = self.frames[-1]
        nret = len(fr.returns)
        env = dict(fr.env)
        first = True
        count = forks = 0
        while True:
            if not (post and first):
                c = self.simp(boolify(self.rv(cond))) if cond else ONE
                g = self.st.guard
                if c.const() is None and g != ONE:
                    if (g * c) == g:
                        c = ONE
                    elif (g * c).is_zero():
                        c = ZERO
                if c.const() is None and (forks >= 16 or T.all_atoms(c) & self.unk_atoms(c)):
                    self.reset(mark)
                    del fr.returns[nret:]
                    fr.env.clear()
                    fr.env.update(env)
                    return False
                if c.const() is None:
                    # leaves here when the condition is false
                    forks += 1
                    out = self.st.fork()
                    out.guard = self.simp(g * (ONE - c))
                    breaks.append((out.guard, out))
                    self.st.guard = self.simp(g * c)
                elif c.const() == 0:
                    break
            first = False
            count += 1
            if count > limit:
                self.reset(mark)
                del fr.returns[nret:]
                return False
            if not self.iter_body(bod, breaks):
                break
            if inc:
                self.ev(inc)
        self.end_loop(breaks)
        return True

    def unk_atoms(self, c):
        return {a for a in T.all_atoms(c) if a.kind in ('unk', 'cur', 'defer', 'phi', 'd', 'bv')}

    def end_loop(self, breaks):
        ends = ([(self.st.guard, self.st)] if self.st.alive else []) + breaks
        if not ends:
            return
        if len(ends) > 1:
            g = ends[0][0]
            for x in ends[1:]:
                g = g + x[0]
            self.st = self.merge_states(ends)
            self.st.guard = g
        else:
            self.st = ends[0][1]
        self.st.alive = True

    def loop(self, n, cond, inc, bod, rng=None):
        key = (self.frames[-1].ctx, n.get('id'))
        if self.discover:
            return self.loop_discover(key, n, cond, inc, bod, rng)
        if self.unroll >= 50 and not self.loops and self.dyn_loop(n, cond, inc, bod, rng):
            return
        if True:
            # discovery of what the nest writes (fresh storage names: never cached)
            self.loopinfo.pop(key, None)
            save = self.st
            fr = self.frames[-1]
            saved_env = dict(fr.env)
            nret = len(fr.returns)
            nroot = self.nroot
            self.loopinfo.setdefault(key, LoopInfo()).nroot0 = nroot
            self.st = save.fork()
            self.discover = True
            try:
                self.loop_discover(key, n, cond, inc, bod, rng)
            finally:
                self.discover = False
                self.st = save
                fr.env.clear()
                fr.env.update(saved_env)
                del fr.returns[nret:]
        self.loop_real(key, n, cond, inc, bod, rng)

    def loop_discover(self, key, n, cond, inc, bod, rng):
        li = self.loopinfo.setdefault(key, LoopInfo())
        self.dstack.append(li)
        fr = self.frames[-1]
        fr.loopconts.append([])
        try:
            if rng:
                size, elem, lv = rng
                self.bind_range_var(lv, elem, poly(Atom('d', 'k', ())))
            elif cond:
                self.rv(cond)
            self.exec(bod)
            self.st.alive = True
            if inc:
                self.ev(inc)
        except Unsupported:
            pass
        finally:
            self.dstack.pop()
            fr.loopconts.pop()
            self.st.alive = True

    def bind_range_var(self, lv, elem, k):
        fr = self.frames[-1]
        loc = elem(k)
        if lv.get('kind') == 'DecompositionDecl':
            bs = [c for c in kids(lv) if c.get('kind') == 'BindingDecl']
            t = tystr(lv)
            for i, b in enumerate(bs):
                self.bind_part(b, loc.sub(self.binding_step(b, i, t)), t.rstrip().endswith('&'))
            return
        ty = tystr(lv)
        if ty.rstrip().endswith('&'):
            fr.env[lv['id']] = loc
            return
        r = self.newroot(lv.get('name', 'e'))
        if is_scalar_t(ty) or is_ptr_t(ty):
            self.st.cells[r] = self.load(loc, ty)
        else:
            self.copy_object(Loc(r), loc)
        fr.env[lv['id']] = Loc(r)

    def loop_real(self, key, n, cond, inc, bod, rng):
        li = self.loopinfo[key]
        fr = self.frames[-1]
        st0 = self.st
        # --- constant trip count: unroll
        if self.try_unroll(n, cond, inc, bod, rng):
            return
        self.st = st0
        self.nloop += 1
        lid = 'L%d' % self.nloop
        k = fresh()
        kb = Atom('bv', k)
        # phi for modified cells that exist before the loop
        phis = {}
        st = st0.fork()
        for c in sorted(li.cells):
            if c in st0.cells:
                v0 = st0.cells[c]
            elif self.is_entry_root(c):
                v0 = self.cell_default(c, None)
            elif c.endswith('#n') and rootnum(c) <= li.nroot0:
                v0 = self.cell_default(c, None)
            else:
                continue
            ph = Atom('phi', lid, c)
            phis[ph] = (c, v0)
            if isinstance(v0, Poly):
                st.cells[c] = poly(ph)
            elif isinstance(v0, Ptr):
                st.cells[c] = Ptr(v0.root, v0.path, poly(ph), v0.obj, v0.size)
            else:
                st.cells[c] = self.unsup('loop-carried non-scalar', n)
        L = OpenLoop(lid, set(r for r in li.roots), {r: len(l) for r, l in st0.logs.items()}, k, set(li.sizeroots))
        self.loops.append(L)
        fr.loopconts.append([])
        nthrow = len(self.throws)
        nev = len(self.events) if self.events is not None else 0
        nun = len(self.unsupported)
        outer_guard = st.guard
        self.st = st
        RANGE[k] = poly(Atom('phi', lid, '#N'))
        try:
            if rng:
                size, elem, lv = rng
                RANGE[k] = size
                self.bind_range_var(lv, elem, poly(kb))
                c = None
            else:
                c = boolify(self.rv(cond)) if cond else ONE
            # guard inside the body is relative to the iteration
            self.exec(bod)
            conts = fr.loopconts[-1]
            ends = ([(self.st.guard, self.st)] if self.st.alive else []) + conts
            if ends:
                if len(ends) > 1:
                    s = self.merge_states(ends)
                else:
                    s = ends[0][1]
                s.alive = True
                s.guard = outer_guard
                self.st = s
            if inc:
                self.ev(inc)
        finally:
            self.loops.pop()
            fr.loopconts.pop()
        end = self.st
        # --- solve recurrences
        nxt = {}
        for ph, (cell, v0) in phis.items():
            v = end.cells.get(cell)
            if isinstance(v0, Poly):
                nxt[ph] = v if isinstance(v, Poly) else self.unsup('loop-carried type change', n)
            elif isinstance(v0, Ptr):
                if isinstance(v, Ptr) and v.root == v0.root and v.path == v0.path:
                    nxt[ph] = v.off
                else:
                    nxt[ph] = self.unsup('pointer changes object in loop', n)
            else:
                nxt[ph] = poly(Atom('unk', 'carried'))
        inits = {ph: (v0 if isinstance(v0, Poly) else (v0.off if isinstance(v0, Ptr) else ZERO)) for ph, (c_, v0) in phis.items()}
        closed = {}
        final_rule = {}
        steps = {}
        pend = set(phis)
        resolve_defer = lambda t: t
        progress = True
        while pend and progress:
            progress = False
            for ph in sorted(pend, key=lambda a: a.key):
                nv = subst(nxt[ph], closed) if closed else nxt[ph]
                nv = self.resolve_invariant_defers(nv, L, li)
                unresolved = [q for q in pend if mentions(nv, q)]
                cl = None
                if nv == poly(ph):
                    cl = inits[ph]
                    final_rule[ph] = ('const',)
                elif not [q for q in unresolved if q is not ph]:
                    d = nv - poly(ph)
                    if not mentions(d, ph):
                        steps[ph] = d
                        b = fresh()
                        RANGE[b] = poly(kb)
                        if k not in d.fv and not self.has_defer(d, lid):
                            cl = inits[ph] + d * poly(kb)
                        else:
                            cl = inits[ph] + sum1(b, poly(kb), subst(d, {kb: bvar(b)}))
                        final_rule[ph] = ('sum', d)
                    elif not mentions(nv, ph):
                        final_rule[ph] = ('last', nv)
                        if k not in nv.fv and not self.has_defer(nv, lid):
                            prev = nv
                        else:
                            prev = subst(nv, {kb: poly(kb) - 1})
                        cl = ite(eq0(poly(kb)), inits[ph], prev)
                    else:
                        f = self.factor_phi(nv, ph)
                        if f is not None:
                            b = fresh()
                            RANGE[b] = poly(kb)
                            cl = inits[ph] * mprod(((b, poly(kb)),), subst(f, {kb: bvar(b)}))
                            final_rule[ph] = ('prod', f)
                        else:
                            cl = None
                if cl is not None:
                    closed[ph] = cl
                    pend.discard(ph)
                    progress = True
        for ph in sorted(pend, key=lambda a: a.key):
            nv = subst(nxt[ph], closed)
            others = {q: poly(Atom('var', '@other')) for q in pend if q is not ph}
            nv2 = subst(subst(nv, others), {ph: poly(Atom('var', '@self'))})
            depth = T.binder_depth(nv2, {k}, [])
            name = '%d_0' % depth
            nv2 = subst(nv2, {kb: bvar(name)})
            closed[ph] = poly(Atom('rec', inits[ph], nv2, name, poly(kb)))
            final_rule[ph] = ('rec', nv2, name)
        # --- trip count
        direction = 'asc'
        if rng:
            N = rng[0]
        else:
            cc = subst(c, closed)
            cc = self.resolve_invariant_defers(cc, L, li)
            N, direction = self.trip(cc, kb, c, phis, closed, steps)
            if N is None:
                N = self.unsup('trip count of loop', n)
        RANGE[k] = N
        # orientation: a down-counting loop is indexed by its counter
        reorient = {}
        if direction == 'desc':
            reorient = {kb: N - 1 - poly(kb)}
            closed = {ph: subst(v, reorient) for ph, v in closed.items()}
        # --- fix up terms
        body_recs = {}
        newlogs = {}
        born_limit = len(self.loops)
        for r, lg in end.logs.items():
            base = st0.logs.get(r, ())
            if len(lg) > len(base):
                if self.root_born.get(r.split('.')[0], 0) > born_limit:
                    continue         # storage local to one iteration
                body_recs[r] = lg[len(base):]
        fixer = LoopFixer(self, L, k, N, direction, closed, body_recs, st0, born_limit)
        for r, recs in body_recs.items():
            out = []
            for rec in recs:
                out.append(fixer.rec(rec))
            newlogs[r] = tuple(out)
        # --- state after the loop
        res = st0.fork()
        for ph, (cell, v0) in phis.items():
            rule = final_rule[ph]
            if rule[0] == 'const':
                fv = inits[ph]
            elif rule[0] == 'sum':
                d = fixer.term(rule[1])
                b = fresh()
                RANGE[b] = N
                fv = inits[ph] + (d * N if k not in d.fv else sum1(b, N, subst(d, {kb: bvar(b)})))
            elif rule[0] == 'prod':
                d = fixer.term(rule[1])
                b = fresh()
                RANGE[b] = N
                fv = inits[ph] * mprod(((b, N),), subst(d, {kb: bvar(b)}))
            elif rule[0] == 'last':
                d = fixer.term(rule[1])
                last = (N - 1) if direction == 'asc' else ZERO
                fv = ite(self.simp(lt0(-N, True)), subst(d, {kb: last}), inits[ph])
            else:
                fv = poly(Atom('rec', inits[ph], fixer.term(rule[1]), rule[2], N))
            if isinstance(v0, Poly):
                res.cells[cell] = fv
            elif isinstance(v0, Ptr):
                res.cells[cell] = Ptr(v0.root, v0.path, fv, v0.obj, v0.size)
            else:
                res.cells[cell] = poly(Atom('unk', 'carried'))
        for r, recs in newlogs.items():
            wrapped = tuple(Rec(x.kind, ((k, N, direction, lid),) + x.loops, x.guard, x.path, x.val, x.src, x.where) for x in recs)
            res.logs[r] = st0.logs.get(r, ()) + wrapped
        for t in self.throws[nthrow:]:
            t[0] = fixer.term(t[0])
            t[1] = ((k, N),) + tuple((b, fixer.term(nn)) for b, nn in t[1])
        if self.events is not None:
            for e in self.events[nev:]:
                e[2] = tuple(x if isinstance(x, str) else fixer.term(x) for x in e[2])
                e[3] = fixer.term(e[3])
                e[4] = ((k, N),) + tuple((b, fixer.term(nn)) for b, nn in e[4])
        for b in fixer.inner_binders:
            RANGE[b] = fixer.term(RANGE[b])
        self.st = res
        self.after_loop_sizes(li, res, end, st0)

    def live_roots(self, st):
        s = set(st.logs)
        for c in st.cells:
            s.add(c)
            if c.endswith('.#n'):
                s.add(c[:-3])
        return s

    def after_loop_sizes(self, li, res, end, st0):
        pass

    def has_defer(self, t, lid):
        return any(a.kind == 'defer' for a in all_atoms(t))

    def resolve_invariant_defers(self, t, L, li):
        return t

    def factor_phi(self, nv, ph):
        out = {}
        for m, c in nv.t.items():
            d = dict(m)
            if d.get(ph) != 1:
                return None
            if any(mentions(a, ph) for a in d if a is not ph):
                return None
            del d[ph]
            out[tuple(sorted(d.items(), key=lambda ae: ae[0].key))] = c
        return Poly(out)

    def trip(self, cc, kb, c_phi, phis, closed, steps):
        """iterations while cc(k) holds; (N, direction)"""
        # normalise to p<0 or p != 0
        lit = None
        if len(cc.t) == 1:
            (m, co), = cc.t.items()
            if co == 1 and len(m) == 1 and m[0][0].kind == 'ilt':
                lit = ('lt', m[0][0].args[0])
        elif len(cc.t) == 2 and cc.t.get(()) == 1:
            (m, co), = [(m, co) for m, co in cc.t.items() if m]
            if co == -1 and len(m) == 1:
                a = m[0][0]
                if a.kind == 'ilt':
                    lit = ('lt', -a.args[0] - 1)
                elif a.kind == 'eq':
                    lit = ('ne', a.args[0])
        if lit is None:
            return None, 'asc'
        p = lit[1]
        cr = coeff_of(p, kb)
        if cr is None:
            return None, 'asc'
        a, b = cr
        ak = a.const()
        if ak is None or ak == 0 or not isinstance(ak, int):
            return None, 'asc'
        # which way does the controlling counter run?
        direction = 'asc'
        ctl = [ph for ph in phis if mentions(c_phi, ph)]
        ss = [steps[ph].const() for ph in ctl if ph in steps and steps[ph].const() is not None]
        if ss and all(x < 0 for x in ss):
            direction = 'desc'
        if lit[0] == 'lt':
            if ak < 0:
                return None, direction
            if ak == 1:
                return -b, direction
            return idiv(-b + (ak - 1), poly(ak)), direction
        if ak in (1, -1):
            return b * poly(-ak), direction
        return None, direction

    def try_unroll(self, n, cond, inc, bod, rng):
        """loops with a small constant trip count"""
        if rng:
            N = rng[0].const()
            if N is None or N > self.unroll:
                return False
            for i in range(int(N)):
                self.bind_range_var(rng[2], rng[1], poly(i))
                if not self.iter_body(bod):
                    return True
            return True
        if not cond:
            return False
        # quick test: the condition must be constant at entry
        mark = self.mark()
        c = boolify(self.rv(cond))
        if c.const() is None:
            self.reset(mark)
            return False
        if c.const() == 0:
            return True
        # bound the number of iterations without committing
        count = self.const_trips(cond, inc, bod)
        self.reset(mark)
        if count is None or count > self.unroll:
            return False
        while True:
            c = boolify(self.rv(cond))
            if c.const() is None:
                raise Unsupported('unroll lost the constant')
            if c.const() == 0:
                return True
            if not self.iter_body(bod):
                return True
            if inc:
                self.ev(inc)

    def iter_body(self, bod, breaks=None):
        fr = self.frames[-1]
        fr.loopconts.append([])
        fr.loopbreaks.append(breaks)
        g = self.st.guard
        self.exec(bod)
        conts = fr.loopconts.pop()
        fr.loopbreaks.pop()
        ends = ([(self.st.guard, self.st)] if self.st.alive else []) + conts
        if not ends:
            self.st.alive = False
            return False
        if len(ends) > 1:
            self.st = self.merge_states(ends)
        else:
            self.st = ends[0][1]
        self.st.alive = True
        return True

    def const_trips(self, cond, inc, bod):
        """number of iterations if the counter is only changed by the increment"""
        # counter variable: DeclRefExpr in the condition with constant value
        save = self.st
        self.st = save.fork()
        self.discover = True
        li = LoopInfo()
        self.dstack.append(li)
        try:
            fr = self.frames[-1]
            fr.loopconts.append([])
            env = dict(fr.env)
            nret = len(fr.returns)
            self.exec(bod)
            del fr.returns[nret:]
            fr.env.clear()
            fr.env.update(env)
            fr.loopconts.pop()
        except Unsupported:
            return None
        finally:
            self.dstack.pop()
            self.discover = False
            self.st = save
        self.st = save.fork()
        cnt = 0
        if not inc:
            # while loop: body changes the counter; only accept if it is a constant walk
            self.st = save
            return None
        try:
            used = self.cells_in(cond)
            if used & li.cells:
                return None
            while cnt <= self.unroll:
                c = boolify(self.rv(cond)).const()
                if c is None:
                    return None
                if c == 0:
                    return cnt
                cnt += 1
                self.ev(inc)
            return None
        finally:
            self.st = save

    def cells_in(self, n):
        out = set()
        fr = self.frames[-1]

        def walk(x):
            if x.get('kind') == 'DeclRefExpr':
                l = fr.env.get(x['referencedDecl']['id'])
                if isinstance(l, Loc):
                    out.add(l.root)
            for c in kids(x):
                walk(c)
        walk(n)
        return out

    def mark(self):
        return (self.st.fork(), len(self.throws), len(self.unsupported), len(self.events) if self.events is not None else 0)

    def reset(self, m):
        self.st = m[0].fork()
        del self.throws[m[1]:]
        del self.unsupported[m[2]:]
        if self.events is not None:
            del self.events[m[3]:]

    def map_snap(self, s, f, memo=None):
        return Snap(s.root, tuple(x if isinstance(x, str) else f(x) for x in s.path), MappedState(s.log, f, self))


class MappedState:
    """a state seen through a term substitution (lazy)"""

    def __init__(self, st, f, ip):
        self.cells = LazyCells(st.cells, f)
        self.logs = LazyLogs(st.logs, f, ip)


class LazyCells:
    def __init__(self, d, f):
        self.d, self.f, self.m = d, f, {}

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        if k not in self.m:
            self.m[k] = mapval(self.d[k], self.f)
        return self.m[k]

    def get(self, k, default=None):
        return self[k] if k in self.d else default

    def items(self):
        return [(k, self[k]) for k in self.d]

    def __iter__(self):
        return iter(self.d)

    def keys(self):
        return self.d.keys()


def mapval(v, f):
    if isinstance(v, Poly):
        return f(v)
    if isinstance(v, Ptr):
        return Ptr(v.root, tuple(x if isinstance(x, str) else f(x) for x in v.path), f(v.off), v.obj, f(v.size) if v.size is not None else None)
    if isinstance(v, Tup):
        return Tup([mapval(x, f) for x in v.v])
    if isinstance(v, Loc):
        return Loc(v.root, tuple(x if isinstance(x, str) else f(x) for x in v.path))
    return v


class LazyLogs:
    def __init__(self, d, f, ip):
        self.d, self.f, self.ip, self.m = d, f, ip, {}

    def get(self, k, default=()):
        if k not in self.d:
            return default
        if k not in self.m:
            self.m[k] = tuple(maprec(r, self.f, self.ip) for r in self.d[k])
        return self.m[k]

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        return self.get(k)

    def keys(self):
        return self.d.keys()

    def __iter__(self):
        return iter(self.d)

    def items(self):
        return [(k, self.get(k)) for k in self.d]


def ckey(path):
    return tuple(x if isinstance(x, str) else int(x.const()) for x in path)


def maprec(r, f, ip):
    if r.kind == 'table':
        return r
    return Rec(r.kind, tuple((b, f(n), d, i) for b, n, d, i in r.loops), f(r.guard),
               tuple(x if isinstance(x, str) else f(x) for x in r.path),
               f(r.val) if r.val is not None else None,
               ip.map_snap(r.src, f) if r.src is not None else None, r.where)


class LoopFixer:
    """replaces loop placeholders (phi, deferred reads) once the loop is known"""

    def __init__(self, ip, L, k, N, direction, closed, body_recs, st0, born_limit):
        self.ip, self.L, self.k, self.N, self.dir, self.closed = ip, L, k, N, direction, closed
        self.body_recs = body_recs
        self.memo = {}
        self.inner_binders = set()
        self.pre = None

    def rec(self, r):
        for b, n, d, i in r.loops:
            self.inner_binders.add(b)
        return maprec(r, self.term, self.ip)

    def term(self, t):
        if t is None:
            return None
        return self._t(t)

    def _t(self, x):
        if isinstance(x, tuple):
            return tuple(self._t(a) for a in x)
        if isinstance(x, (str, int, Fraction)) or x is None:
            return x
        r = self.memo.get(x)
        if r is None:
            if isinstance(x, Poly):
                r = ZERO
                keep = {}
                for mono, c in x.t.items():
                    subs = [(a, e, self._t(a)) for a, e in mono]
                    if all(len(s.t) == 1 and s.t.get(((a, 1),)) == 1 for a, e, s in subs):
                        keep[mono] = c
                        continue
                    t = poly(c)
                    for a, e, s in subs:
                        t = t * (s ** e if isinstance(e, int) else pow_(s, poly(e)))
                    r = r + t
                r = r + Poly(keep)
            else:
                r = self._a(x)
            self.memo[x] = r
        return r

    def _a(self, a):
        k = a.kind
        if k == 'phi':
            return self.closed.get(a, poly(a)) if a.args[0] == self.L.id else poly(a)
        if k == 'defer':
            sid, root, path = a.args
            lid, root, log, ty = self.ip.snaps[sid]
            path = tuple(x if isinstance(x, str) else self._t(x) for x in path)
            if lid != self.L.id:
                return poly(Atom('defer', sid, root, path))
            return self.redo(root, path, log, ty)
        if k in ('var', 'bv', 'bvar'):
            return poly(a)
        if k in ('sum', 'prod'):
            bs, body = a.args
            if not any(x.kind in ('phi', 'defer') for x in all_atoms(a.args)):
                return poly(a)
            ren = {}
            out = []
            for b, n in bs:
                f = fresh()
                n2 = self._t(subst(n, ren))
                RANGE[f] = n2
                ren[Atom('bv', b)] = bvar(f)
                out.append((f, n2))
            nb = self._t(subst(body, ren))
            out = tuple(out)
            return msum(out, nb) if k == 'sum' else mprod(out, nb)
        args = self._t(a.args)
        if args == a.args:
            return poly(a)
        return rebuild(k, args)

    def redo(self, root, path, log, ty):
        ip = self.ip
        kb = Atom('bv', self.k)
        kp = fresh()
        # iterations already done
        if self.dir == 'asc':
            RANGE[kp] = poly(kb)
            shift = bvar(kp)
        else:
            RANGE[kp] = self.N - 1 - poly(kb)
            shift = poly(kb) + 1 + bvar(kp)
        for rec in reversed(self.body_recs.get(root, ())):
            # the record's own terms may still hold placeholders: use the index part only
            ren = {kb: shift}
            rp = []
            bad = False
            for x in rec.path:
                if isinstance(x, str):
                    rp.append(x)
                    continue
                y = self.path_term(x)
                if y is None:
                    bad = True
                    break
                rp.append(subst(y, ren))
            if bad:
                return self.selfref(root, path)
            lo = tuple((b, subst(self.path_term(n) or n, ren), d, i) for b, n, d, i in rec.loops)
            # fresh inner binders
            ren2 = {}
            lo2 = [(kp, RANGE[kp], 'asc', 'prev')]
            for b, n, d, i in lo:
                f = fresh()
                ren2[Atom('bv', b)] = bvar(f)
                RANGE[f] = subst(n, ren2)
                lo2.append((f, RANGE[f], d, i))
            rp = tuple(x if isinstance(x, str) else subst(x, ren2) for x in rp)
            probe = Rec(rec.kind, tuple(lo2), ONE, rp, ZERO, rec.src, rec.where)
            m = ip.match(probe, path, ONE)
            if m is None:
                continue
            return self.selfref(root, path)
        # no earlier iteration touches it: value from before the loop
        return ip.read(root, path, log, ty)

    def path_term(self, x):
        """index terms of sibling records: phi replaced, deferred reads kept opaque"""
        if not any(a.kind in ('phi', 'defer') for a in all_atoms(x)):
            return x
        try:
            return subst(x, self.closed)
        except RecursionError:
            return None

    def selfref(self, root, path):
        return poly(Atom('cur', root, path, 'self'))


def reckey(r):
    """canonical text of a record (bound variables renamed in order)"""
    if r.kind == 'table':
        return 'table|%s' % sorted((str(k), v.key) for k, v in r.val.items())
    ren = {}
    for i, (b, n, d, lid) in enumerate(r.loops):
        ren[Atom('bv', b)] = bvar('q%d' % i)
    f = lambda t: subst(t, ren).key if t is not None else ''
    return '|'.join([r.kind, ','.join('%s%s' % (f(n), d) for b, n, d, lid in r.loops), f(r.guard),
                     ','.join(x if isinstance(x, str) else f(x) for x in r.path), f(r.val) if r.val is not None else 'copy'])


CONDK = ('ilt', 'idiv', 'imod')


def deep_simp(t):
    """decide integer comparisons anywhere in a term from the known index ranges"""
    if not any(a.kind in CONDK for a in all_atoms(t)):
        return t
    return DeepSimp()._t(t)


class DeepSimp:
    def __init__(self):
        self.memo = {}

    _t = LoopFixer._t

    def _a(self, a):
        k = a.kind
        if not any(x.kind in CONDK for x in all_atoms(a)):
            return poly(a)
        if k == 'ilt':
            p = self._t(a.args[0])
            if nonneg(p):
                return ZERO
            if nonneg(-p - 1):
                return ONE
            return lt0(p, True)
        if k in ('sum', 'prod'):
            bs, body = a.args
            ren = {}
            out = []
            for b, n in bs:
                f = fresh()
                n2 = self._t(subst(n, ren))
                RANGE[f] = n2
                ren[Atom('bv', b)] = bvar(f)
                out.append((f, n2))
            nb = self._t(subst(body, ren))
            out = tuple(out)
            return msum(out, nb) if k == 'sum' else mprod(out, nb)
        if k == 'rec':
            return poly(a)
        args = self._t(a.args)
        if args == a.args:
            return poly(a)
        return rebuild(k, args)


def rootnum(c):
    return int(c[1:c.index(':')]) if c.startswith('%') else 0


class RootRename:
    """the same value with one input array called by another name"""

    def __init__(self, a, b):
        self.memo, self.a, self.b = {}, a, b

    _t = LoopFixer._t

    def _a(self, x):
        if x.kind == 'read':
            return poly(Atom('read', self.b if x.args[0] == self.a else x.args[0], self._t(x.args[1])))
        if x.kind in ('sum', 'prod'):
            bs, body = x.args
            ren, out = {}, []
            for b, n in bs:
                f = fresh()
                n2 = self._t(subst(n, ren))
                RANGE[f] = n2
                ren[Atom('bv', b)] = bvar(f)
                out.append((f, n2))
            nb = self._t(subst(body, ren))
            return (msum if x.kind == 'sum' else mprod)(tuple(out), nb)
        args = self._t(x.args)
        return poly(x) if args == x.args else rebuild(x.kind, args)


def idiv_s(a, c):
    """a div c, using a = c*q + r with 0 <= r < c provable"""
    k = c.const()
    if k == 1:
        return a
    q = ZERO
    r = ZERO
    for m, v in a.t.items():
        t = Poly({m: v})
        e = exact_div(t, c)
        if e is not None and all(isinstance(x, int) for x in e.t.values()):
            q = q + e
        else:
            r = r + t
    if r.is_zero():
        return q
    if nonneg(r) and nonneg(c - 1 - r):
        return q
    if q.is_zero():
        return idiv(a, c)
    return q + idiv(r, c)


def _idiv_rebuild(a, b):
    return idiv_s(a, b)


T.REBUILD['idiv'] = None
_orig_rebuild = T.rebuild


def _rebuild(k, args):
    if k == 'idiv':
        ca, cb = args[0].const(), args[1].const()
        if ca is not None and cb is not None:
            return idiv(*args)
        return idiv_s(args[0], args[1])
    return _orig_rebuild(k, args)


T.rebuild = _rebuild
rebuild = _rebuild



def rng_of(a):
    """extent of an atom known to lie in [0, N)"""
    if a.kind == 'bv':
        return RANGE.get(a.args[0])
    return RANGE.get(a)


def fdivmod(d, c):
    """(q, r) with d = c*q + r and 0 <= r < c provable, else None (c > 0)"""
    q = ZERO
    r = ZERO
    for m, v in d.t.items():
        t = Poly({m: v})
        e = exact_div(t, c)
        if e is not None and all(isinstance(x, int) for x in e.t.values()):
            q = q + e
        else:
            r = r + t
    k = c.const()
    if k is not None and r.is_const() is False:
        pass
    for s in (0, -1, 1, -2, 2):
        rr = r - c * s
        if nonneg(rr) and nonneg(c - 1 - rr):
            return q + s, rr
    return None


_nn_memo = {}


def nonneg(p, depth=5):
    """sufficient test for p >= 0 given ranges; sizes and array-held counts are >= 0"""
    if not p.t:
        return True
    c = p.const()
    if c is not None:
        return c >= 0
    if all(v > 0 for v in p.t.values()):
        if all(_atom_nn(a) for m in p.t for a, e in m if e % 2 or not isinstance(e, int)):
            return True
    if depth == 0:
        return False
    # an atom with an extent, in which p is monotone decreasing: its largest value
    for m, v in sorted(p.t.items(), key=lambda mv: T._mkey(mv[0])):
        if v < 0:
            for a, e in m:
                n = rng_of(a) if e == 1 else None
                if n is None or mentions(n, a):
                    continue
                cr = coeff_of(p, a)
                if cr is None:
                    continue
                co, rest = cr
                if nonneg(-co, depth - 1):
                    return nonneg(rest + co * (n - 1), depth - 1)
    # p = co*a + rest with both parts nonnegative (a >= 0)
    for a in sorted(p.atoms(), key=lambda a: a.key):
        if rng_of(a) is not None or _atom_nn(a):
            cr = coeff_of(p, a)
            if cr is None:
                continue
            co, rest = cr
            if not co.t or not rest.t:
                if not co.t:
                    continue
                return nonneg(co, depth - 1)
            if nonneg(co, depth - 1) and nonneg(rest, depth - 1):
                return True
    # an atom with an extent: some index exists, so the extent is >= 1
    for a in sorted(p.atoms(), key=lambda a: a.key):
        if a.kind in ('var', 'read') and a in POSITIVE:
            cr = coeff_of(p, a)
            if cr is not None and cr[0].t and nonneg(cr[0], depth - 1) and nonneg(cr[1] + cr[0], depth - 1):
                return True
    return False


POSITIVE = set()     # atoms known to be >= 1
SIGNED = set()       # integer atoms that may be negative


def _atom_nn(a):
    if rng_of(a) is not None:
        return True
    if a.kind == 'bv' or a in SIGNED:
        return False
    if a.kind in ('trunc', 'unk', 'phi', 'fn'):
        return False
    if a.kind in T.BOOL_KINDS:
        return True
    if a.kind == 'idiv':
        return nonneg(a.args[0], 2) and nonneg(a.args[1], 2)
    return True
