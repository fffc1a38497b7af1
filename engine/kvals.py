"""Kokkos: views, execution policies, nested parallelism.

Views are handles on storage of known extents; a parallel construct is the family of its iterations. Besides the
value of every element the analysis keeps, per kernel, which iteration (and which lane of a team, between which
barriers) reads, writes or atomically updates it."""
import re
from terms import *
import terms as T
from values import *


class Vw:
    __slots__ = ('base', 'ext', 'strd', 'et', 'label')

    def __init__(self, base, ext, strd, et, label=''):
        self.base, self.ext, self.strd, self.et, self.label = base, tuple(ext), tuple(strd), et, label

    def size(self):
        n = 1
        for e in self.ext:
            n *= e
        return n

    def __repr__(self):
        return 'View(%s, %s, %s)' % (self.base, self.ext, self.strd)


class KObj:
    def __init__(self, kind, **f):
        self.kind = kind
        self.__dict__.update(f)

    def __repr__(self):
        return 'K:' + self.kind


def right(ext):
    s, q = [], 1
    for e in reversed(ext):
        s.append(q)
        q *= e
    return tuple(reversed(s))


def is_view_t(t):
    t = strip_ref(t)
    t = re.sub(r'^(const|volatile) ', '', t)
    return bool(re.match(r'(Kokkos::)?View<', t))


def view_type(t):
    """element type, rank"""
    t = strip_ref(t)
    i = t.index('<')
    d, out = 0, ''
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            break
        out += ch
    out = out.strip()
    r = 0
    while out.endswith('*'):
        r += 1
        out = out[:-1].strip()
    if out.endswith(']'):
        raise Unsupported('view of static extent')
    return re.sub(r'^const ', '', out), r


class Kernel:
    """accesses of one parallel dispatch"""

    def __init__(self, name, wh):
        self.name, self.where = name, wh
        self.acc = {}
        self.n = 0

    def add(self, key, mode, outer, phase, lane, wh):
        self.n += 1
        self.acc.setdefault(key, {}).setdefault((mode, outer, phase, lane), wh)

    def races(self):
        out = []
        for key, d in self.acc.items():
            es = list(d.items())
            if not any(e[0][0] == 'w' for e in es) and not (any(e[0][0] == 'a' for e in es) and any(e[0][0] == 'r' for e in es)):
                continue
            r = self.conflict(es)
            if r:
                out.append((key,) + r)
        return out

    @staticmethod
    def conflict(es):
        for (m, o, p, l), w in es:
            if m == 'w' and (not l or l[0] == '*'):
                return ('written by every thread of the team', w, w)
        if len(es) == 1:
            return None
        ws = [e for e in es if e[0][0] == 'w']
        at = [e for e in es if e[0][0] == 'a']
        for (m, o, p, l), w in ws:
            for (m2, o2, p2, l2), w2 in es:
                if o2 != o:
                    return ('%s and %s by different iterations' % (NAME[m], NAME[m2]), w, w2)
                if p2 == p and l2 != l and not prefix(l, l2):
                    return ('%s and %s by different threads of a team with no barrier between' % (NAME[m], NAME[m2]), w, w2)
        for (m, o, p, l), w in at:
            for (m2, o2, p2, l2), w2 in es:
                if m2 == 'a':
                    continue
                if o2 != o:
                    return ('updated atomically and %s by different iterations' % NAME[m2], w, w2)
                if p2 == p and l2 != l and not prefix(l, l2):
                    return ('updated atomically and %s by different threads of a team with no barrier between' % NAME[m2], w, w2)
        return None


NAME = {'w': 'written', 'r': 'read', 'a': 'atomically updated'}


def prefix(a, b):
    if not a or not b or a[0] == '*' or b[0] == '*':
        return False
    n = min(len(a), len(b))
    return a[:n] == b[:n]


class KokkosMixin:
    def k_init(self):
        self.kmem = {}          # storage root -> list of element values
        self.kname = {}         # storage root -> label
        self.kern = None        # kernel being analysed
        self.kouter = None
        self.kphase = 0
        self.klane = ()
        self.kshared = 0        # roots up to this number are shared between the lanes of the present construct
        self.kacc = set()       # reduction accumulators
        self.koob = []          # accesses outside a view
        self.kfail = []         # operations the library rejects
        self.krace = []
        self.kernels = []
        self.nview = 0          # element accesses examined
        self.ncopy = 0
        self.kcls = ''
        self.kteam = None

    # ------------------------------------------------------------ values
    def kval(self, v):
        """the view or policy held in a location, or None"""
        if isinstance(v, (Vw, KObj)):
            return v
        if isinstance(v, Loc):
            if v.path:
                if v.root in self.kmem:
                    x = self.kload(v)
                    return x if isinstance(x, (Vw, KObj)) else None
                return None
            x = self.st.cells.get(v.root)
            if isinstance(x, (Vw, KObj)):
                return x
            if isinstance(x, Ptr) and x.obj and x.size is None:
                return self.kval(x.at())
            if x is None and v.root in self.defaults or x is None and '.' in v.root:
                x = self.cell_default(v.root, '')
                if isinstance(x, (Vw, KObj)):
                    return x
        return None

    def kview(self, v, t, n=None):
        x = self.kval(v)
        if isinstance(x, Vw):
            return x
        et, r = view_type(t)
        if isinstance(v, Loc) or v is None:
            return Vw(None, (0,) * r, (0,) * r, et)
        raise Unsupported('view')

    def kint(self, v, t='int'):
        v = self.val(v, t)
        c = v.const() if isinstance(v, Poly) else None
        if c is None or c != int(c):
            raise Unsupported('size that depends on values')
        return int(c)

    def knew(self, ext, et, label='', init=True):
        for e in ext:
            if e < 0 or e > 10 ** 7:
                self.kfail.append(('allocation of extent %d' % e, self.kwhere()))
                ext = tuple(min(max(e, 0), 1) for e in ext)
        n = 1
        for e in ext:
            n *= e
        if n > 4 * 10 ** 6:
            raise Unsupported('allocation of %d elements' % n)
        r = '%%kv%d' % (len(self.kmem) + 1)
        if is_view_t(et):
            x = None
        else:
            x = ZERO if init else poly(Atom('unk', 'uninit:' + (label or 'view')))
        self.kmem[r] = [x] * n
        self.kname[r] = label
        return Vw(Ptr(r, (), ZERO), ext, right(ext), et, label)

    def kwhere(self):
        return T.where_of(self.curnode) if self.curnode else ''

    # ------------------------------------------------------------ elements
    def kelem(self, v, idx, n):
        if len(idx) != len(v.ext):
            self.koob.append(('%d indices into a view of rank %d' % (len(idx), len(v.ext)), self.kwhere_of(n)))
            return Loc('%oob', (ZERO,))
        off = 0
        for d, (i, e, s) in enumerate(zip(idx, v.ext, v.strd)):
            if not 0 <= i < e:
                self.kbad = 'index %d of dimension %d, extent %d%s' % (i, d, e, ' (%s)' % v.label if v.label else '')
                return Loc('%%oob:%s' % self.kbad.replace('.', ' '), (poly(i),))
            off += i * s
        return v.base.at(poly(off))

    def kwhere_of(self, n):
        return T.where_of(n) if n else self.kwhere()

    def kaccess(self, key, mode):
        if self.kern is None:
            return
        self.kern.add(key, mode, self.kouter, self.kphase, self.klane, self.kwhere())

    def kload(self, loc, quiet=False):
        if loc.root.startswith('%oob'):
            self.k_oob(loc, 'read at')
            return poly(Atom('unk', 'outside the view'))
        m = self.kmem[loc.root]
        i = loc.path[0].const()
        if len(loc.path) != 1 or i is None:
            raise Unsupported('view element')
        i = int(i)
        self.nview += 1
        if not 0 <= i < len(m):
            self.koob.append(('read of element %d of storage of %d elements%s' % (i, len(m), ' (%s)' % self.kname[loc.root] if self.kname.get(loc.root) else ''), self.kwhere()))
            return poly(Atom('unk', 'outside the view'))
        x = m[i]
        if not quiet:
            self.kaccess((loc.root, i), 'r')
        return x

    def kstore(self, loc, val, op='set', atomic=False):
        if loc.root.startswith('%oob'):
            return self.k_oob(loc, 'write at')
        m = self.kmem[loc.root]
        i = loc.path[0].const()
        if len(loc.path) != 1 or i is None:
            raise Unsupported('view element')
        i = int(i)
        self.nview += 1
        if not 0 <= i < len(m):
            self.koob.append(('write to element %d of storage of %d elements%s' % (i, len(m), ' (%s)' % self.kname[loc.root] if self.kname.get(loc.root) else ''), self.kwhere()))
            return
        if self.discover:
            raise Unsupported('view element written in a loop of unknown length')
        if op == 'add':
            val = m[i] + val
        if self.st.guard != ONE and isinstance(val, Poly) and isinstance(m[i], Poly):
            val = ite(self.st.guard, val, m[i])
        if self.cut and isinstance(val, Poly) and not is_boolean(val):
            val = letcut(val)
        m[i] = val
        self.kaccess((loc.root, i), 'a' if atomic else 'w')

    def k_oob(self, loc, what):
        self.koob.append((what + ' ' + loc.root[5:], self.kwhere()))

    def kcellwrite(self, root):
        """a plain variable written inside a parallel construct"""
        if self.kern is None or root in self.kacc:
            return
        b = root.split('.', 1)[0]
        if b.startswith('%'):
            if b.startswith('%kv'):
                return
            try:
                k = int(b[1:b.index(':')])
            except ValueError:
                return
            if k > self.kshared:
                return
        self.kern.add(root, 'w', self.kouter, self.kphase, self.klane, self.kwhere())

    # ------------------------------------------------------------ construction
    def k_construct(self, c, ct, ks, n):
        if is_view_t(c):
            et, r = view_type(c)
            if not ks:
                return Vw(None, (0,) * r, (0,) * r, et)
            a = self.ev(ks[0])
            kv = self.kval(a)
            if isinstance(kv, Vw) or is_view_t(tystr(ks[0])):
                v = self.kview(a, tystr(ks[0]))
                return v
            label, init, base = '', True, None
            if isinstance(kv, KObj) and kv.kind == 'alloc':
                label, init = kv.label, kv.init
            elif isinstance(kv, KObj) and kv.kind == 'scratch':
                label, init = 'team scratch', False
            elif isinstance(a, Str):
                label = a.s
            else:
                p = self.val(a, tystr(ks[0]))
                if isinstance(p, Str):
                    label = p.s
                elif isinstance(p, Ptr):
                    base = p
                elif isinstance(a, Loc) and 'string' in tystr(ks[0]):
                    label = 'view'
                else:
                    raise Unsupported('view construction')
            ext = tuple(self.kint(self.ev(k)) for k in ks[1:])
            if len(ext) != r:
                self.kfail.append(('view of rank %d constructed with %d extents' % (r, len(ext)), self.kwhere_of(n)))
                ext = (ext + (1,) * r)[:r]
            if base is not None:
                return Vw(Ptr(base.root, base.path, base.off), ext, right(ext), et)
            return self.knew(ext, et, label, init)
        b = re.sub(r'<.*', '', c).replace('Kokkos::', '')
        if b in ('RangePolicy', 'TeamPolicy', 'MDRangePolicy', 'TeamVectorMDRange', 'TeamThreadMDRange', 'ThreadVectorMDRange', 'pair', 'Sum', 'Max', 'Min', 'TeamMember', 'PerTeam_t', 'PerThread_t', 'AllocProp'):
            if len(ks) == 1:
                x = self.kval(self.ev(ks[0]))
                if isinstance(x, KObj):
                    return x
        if b == 'RangePolicy' and len(ks) == 2:
            return KObj('range', b=self.kint(self.ev(ks[0])), e=self.kint(self.ev(ks[1])))
        if b == 'TeamPolicy' and len(ks) >= 2:
            q = [self.ev(k) for k in ks]
            ts = None
            if not (isinstance(q[1], Loc) and q[1].root.startswith('global.')):
                ts = self.kint(q[1])
            return KObj('team', n=self.kint(q[0]), size=ts)
        if b == 'MDRangePolicy' and len(ks) >= 2:
            return KObj('md', b=self.kints(ks[0]), e=self.kints(ks[1]))
        if b in ('TeamVectorMDRange', 'TeamThreadMDRange', 'ThreadVectorMDRange'):
            m = self.kval(self.ev(ks[0]))
            return KObj('nested', level=b[:-7], dims=tuple(self.kint(self.ev(k)) for k in ks[1:]), b=0, member=m, md=True)
        if b in ('Sum', 'Max', 'Min'):
            return KObj('reducer', op=b, target=self.ev(ks[0]))
        if b == 'Array' or b.startswith('std::array') or b == 'array':
            return self.ev(ks[0]) if ks else Tup([])
        if 'HostSpace' in b or 'ExecutionSpace' in b or b in ('Serial', 'OpenMP', 'SharedSpace', 'InitializationSettings', 'ALL_t', 'AUTO_t', 'WithoutInitializing_t', 'SequentialHostInit_t', 'PerTeam_t', 'PerThread_t', 'ScratchHandle'):
            if len(ks) == 1 and isinstance(self.ev(ks[0]), Loc):
                return self.ev(ks[0])
            return KObj('space')
        return NotImplemented

    def kints(self, k):
        v = self.ev(k)
        if isinstance(v, Loc):
            sv = self.st.cells.get(v.root) if not v.path else None
            if isinstance(sv, Tup):
                v = sv
        if isinstance(v, Tup):
            while len(v.v) == 1 and isinstance(v.v[0], Tup):
                v = v.v[0]
            return tuple(self.kint(x) for x in v.v)
        if isinstance(v, Loc):
            n = self.kint(self.container_size(v))
            return tuple(self.kint(v.sub(poly(i))) for i in range(n))
        raise Unsupported('bounds of a multi-dimensional range')

    # ------------------------------------------------------------ methods
    def k_method(self, name, b, bt, an, n):
        v = self.kval(b)
        if isinstance(v, KObj):
            if v.kind == 'member':
                if name == 'league_rank':
                    return poly(v.rank)
                if name == 'league_size':
                    return poly(v.size)
                if name == 'team_barrier':
                    self.kphase += 1
                    return None
                if name in ('team_scratch', 'thread_scratch', 'team_shmem'):
                    return KObj('scratch')
                if name == 'team_size' and v.team is not None:
                    return poly(v.team)
                if name == 'team_rank' and v.team == 1:
                    return ZERO
                raise Unsupported(name + ' of a team')
            if v.kind in ('team', 'space'):
                for a in an:
                    self.ev(a)
                return v
            return NotImplemented
        if not is_view_t(bt.rstrip('*').strip()):
            return NotImplemented
        v = self.kview(b, bt.rstrip('*').strip() if is_ptr_t(bt) else bt)
        if name in ('extent', 'extent_int'):
            d = self.kint(self.ev(an[0]))
            return poly(v.ext[d]) if 0 <= d < len(v.ext) else ONE
        if name == 'size' or name == 'span':
            return poly(v.size())
        if name == 'data':
            return v.base if v.base is not None else Ptr('%null', (), ZERO)
        if name == 'is_allocated':
            return poly(int(v.base is not None))
        if name == 'label':
            return Str(v.label)
        if name == 'stride':
            return poly(v.strd[self.kint(self.ev(an[0]))])
        if name == 'rank':
            return poly(len(v.ext))
        if name == 'operator()':
            return self.kelem(v, [self.kint(self.ev(a), tystr(a)) for a in an], n)
        return NotImplemented

    # ------------------------------------------------------------ free functions
    def k_call(self, name, d, an, n):
        f = getattr(self, 'kc_' + name, None)
        if f is None:
            return NotImplemented
        return f(an, n)

    def kargs(self, an):
        an = [a for a in an if skip(a).get('kind') != 'CXXDefaultArgExpr']
        if an and ('string' in tystr(an[0]) or 'char' in tystr(an[0])):
            an = an[1:]
        return an

    def kpolicy(self, a):
        v = self.ev(a)
        k = self.kval(v)
        if isinstance(k, KObj):
            return k
        return KObj('range', b=0, e=self.kint(v, tystr(a)))

    def kbody(self, f, args, n):
        if isinstance(f, Loc) and not f.path and isinstance(self.st.cells.get(f.root), Clo):
            f = self.st.cells[f.root]
        if isinstance(f, Clo):
            self.call_closure(f, args, n)
        elif isinstance(f, Loc) and self.kcls:
            q = [x for x in self.prog.byqual.get(self.kcls + '::operator()', []) if x[1].get('kind') == 'CXXMethodDecl']
            if not q:
                raise Unsupported('functor')
            self.call_function(q[0][0], q[0][1], args, Ptr(f.root, f.path, ZERO, obj=True), n)
        else:
            raise Unsupported('functor')
        if not self.st.alive:
            raise Unsupported('exception inside a kernel')

    def kfunctor(self, a):
        f = self.ev(a)
        self.kcls = re.sub(r'^const ', '', strip_ref(tystr(a)))
        return f

    def kc_parallel_for(self, an, n):
        an = self.kargs(an)
        pol = self.kpolicy(an[0])
        f = self.kfunctor(an[1])
        self.kdispatch(pol, f, [], n)

    def kc_parallel_reduce(self, an, n):
        an = self.kargs(an)
        pol = self.kpolicy(an[0])
        f = self.kfunctor(an[1])
        cl = self.kcls
        ts = [self.ev(a) for a in an[2:]]
        accs, ops = [], []
        for a, t in zip(an[2:], ts):
            k = self.kval(t)
            op = 'Sum'
            if isinstance(k, KObj) and k.kind == 'reducer':
                op = k.op
            if op != 'Sum':
                raise Unsupported('reduction ' + op)
            r = self.newroot('acc')
            self.st.cells[r] = ZERO
            self.kacc.add(r)
            accs.append(Loc(r))
        self.kcls = cl
        self.kdispatch(pol, f, accs, n)
        for a, t, ac in zip(an[2:], ts, accs):
            k = self.kval(t)
            v = self.st.cells[ac.root]
            if isinstance(k, KObj):
                t = k.target
            elif isinstance(k, Vw):
                t = self.kelem(k, [], n)
            if not isinstance(t, Loc):
                raise Unsupported('reduction result')
            self.store(t, v, node=n)
        if pol.kind == 'nested' and pol.level != 'ThreadVector':
            self.kphase += 1

    def kc_parallel_scan(self, an, n):
        an = self.kargs(an)
        pol = self.kpolicy(an[0])
        f = self.kfunctor(an[1])
        r = self.newroot('scan')
        self.st.cells[r] = ZERO
        self.kacc.add(r)
        self.kdispatch(pol, f, [Loc(r), ONE], n)
        if len(an) > 2:
            self.store(self.ev(an[2]), self.st.cells[r], node=n)

    def kdispatch(self, pol, f, extra, n):
        cl = self.kcls
        if self.discover:
            raise Unsupported('parallel construct in a loop of unknown length')
        if pol.kind == 'nested':
            save = self.klane, self.kshared
            base = self.klane
            if pol.level == 'ThreadVector':
                if not base:
                    base = ('one',) if pol.member.team == 1 else ('*',)
            elif base:
                raise Unsupported('team-wide range inside a range')
            dims = pol.dims
            try:
                for idx in indices(dims):
                    ii = tuple(i + pol.b for i in idx)
                    self.klane = base + ((pol.level, dims, pol.b, idx),)
                    self.kshared = self.nroot
                    self.kcls = cl
                    self.kbody(f, [poly(i) for i in ii] + extra, n)
            finally:
                self.klane, self.kshared = save
            return
        if self.kern is not None:
            raise Unsupported('kernel inside a kernel')
        k = Kernel('', self.kwhere_of(n))
        self.kern = k
        save = self.kshared
        try:
            if pol.kind == 'range':
                its = [(i,) for i in range(pol.b, pol.e)]
            elif pol.kind == 'md':
                its = [tuple(b + x for b, x in zip(pol.b, i)) for i in indices(tuple(max(0, e - b) for b, e in zip(pol.b, pol.e)))]
            elif pol.kind == 'team':
                its = [(i,) for i in range(pol.n)]
            else:
                raise Unsupported('policy')
            for it in its:
                self.kouter, self.kphase = it, 0
                self.kshared = self.nroot
                self.kcls = cl
                if pol.kind == 'team':
                    self.klane = () if pol.size != 1 else ('one',)
                    a = [KObj('member', rank=it[0], size=pol.n, team=pol.size)]
                    self.kteam = pol.size
                else:
                    self.klane = ('one',)
                    a = [poly(i) for i in it]
                n0 = self.nroot
                self.kbody(f, a + extra, n)
                self.kpurge(n0)
        finally:
            self.kern, self.kshared, self.klane = None, save, ()
        self.kernels.append(k)
        for r in k.races():
            self.krace.append((k, r))
        k.acc = {}

    def kpurge(self, n0):
        for d in (self.st.cells, self.st.logs, self.defaults):
            for c in [c for c in d if c.startswith('%') and not c.startswith('%kv') and knum(c) > n0]:
                del d[c]

    def kc_single(self, an, n):
        pol = self.kval(self.ev(an[0]))
        f = self.kfunctor(an[1])
        extra = [self.ev(a) for a in an[2:]]
        save = self.klane
        try:
            if isinstance(pol, KObj) and pol.kind == 'PerThread' and self.klane:
                self.klane = self.klane + (('single',),)
            else:
                self.klane = (('single',),) if self.klane != ('one',) else self.klane
            self.kbody(f, extra, n)
        finally:
            self.klane = save

    def kc_PerTeam(self, an, n):
        return KObj('PerTeam')

    def kc_PerThread(self, an, n):
        return KObj('PerThread')

    def kranged(self, level, an):
        m = self.kval(self.ev(an[0]))
        q = [self.kint(self.ev(a)) for a in an[1:]]
        b, e = (0, q[0]) if len(q) == 1 else q
        return KObj('nested', level=level, dims=(max(0, e - b),), b=b, member=m)

    def kc_TeamThreadRange(self, an, n):
        return self.kranged('TeamThread', an)

    def kc_TeamVectorRange(self, an, n):
        return self.kranged('TeamVector', an)

    def kc_ThreadVectorRange(self, an, n):
        return self.kranged('ThreadVector', an)

    def kc_fence(self, an, n):
        return None

    kc_initialize = kc_finalize = kc_fence

    def kc_view_alloc(self, an, n):
        label, init = '', True
        for a in an:
            v = self.ev(a)
            if isinstance(v, Str):
                label = v.s
            elif isinstance(v, Loc) and v.root == 'global.WithoutInitializing':
                init = False
        return KObj('alloc', label=label, init=init)

    def kresize(self, an, n, keep):
        init = True
        if isinstance(self.ev(an[0]), Loc) and self.ev(an[0]).root == 'global.WithoutInitializing':
            init, an = False, an[1:]
        l = self.ev(an[0])
        if not isinstance(l, Loc):
            raise Unsupported('resize')
        old = self.kview(l, tystr(an[0]))
        ext = tuple(self.kint(self.ev(a)) for a in an[1:] if skip(a).get('kind') != 'CXXDefaultArgExpr')
        if len(ext) != len(old.ext):
            self.kfail.append(('a view of rank %d is given %d extents' % (len(old.ext), len(ext)), self.kwhere_of(n)))
            ext = (ext + (1,) * len(old.ext))[:len(old.ext)]
        v = self.knew(ext, old.et, old.label or l.root.split('.')[-1], init)
        if keep and old.base is not None:
            for idx in indices(tuple(min(a, b) for a, b in zip(ext, old.ext))):
                self.kput(v, idx, self.kget(old, idx))
        self.store(l, v, node=n)
        return None

    def kc_realloc(self, an, n):
        return self.kresize(an, n, False)

    def kc_resize(self, an, n):
        if not is_view_t(tystr(an[0])):
            return NotImplemented
        return self.kresize(an, n, True)

    def kget(self, v, idx):
        off = sum(i * s for i, s in zip(idx, v.strd))
        return self.load(v.base.at(poly(off)), v.et)

    def kput(self, v, idx, x):
        off = sum(i * s for i, s in zip(idx, v.strd))
        self.store(v.base.at(poly(off)), x)

    def kc_deep_copy(self, an, n):
        a = self.kview(self.ev(an[0]), tystr(an[0]))
        if is_view_t(tystr(an[1])):
            b = self.kview(self.ev(an[1]), tystr(an[1]))
            if a.ext != b.ext:
                self.kfail.append(('deep_copy of a view of extents %s into one of extents %s' % (list(b.ext), list(a.ext)), self.kwhere_of(n)))
                return None
            if a.base == b.base and a.strd == b.strd:
                return None
            xs = [(i, self.kget(b, i)) for i in indices(a.ext)]
            for i, x in xs:
                self.kput(a, i, x)
            return None
        x = self.rv(an[1])
        for i in indices(a.ext):
            self.kput(a, i, x)
        return None

    def kc_create_mirror_view(self, an, n):
        a = an[-1] if len(an) > 1 and is_view_t(tystr(an[-1])) else an[0]
        v = self.kview(self.ev(a), tystr(a))
        return v

    kc_create_mirror_view_and_copy = kc_create_mirror_view

    def kc_create_mirror(self, an, n):
        v = self.kview(self.ev(an[0]), tystr(an[0]))
        return self.knew(v.ext, v.et, v.label)

    def kc_subview(self, an, n):
        v = self.kview(self.ev(an[0]), tystr(an[0]))
        off, ext, strd = 0, [], []
        bad = ''
        for d, a in enumerate(an[1:]):
            x = self.ev(a)
            if isinstance(x, Loc) and x.root == 'global.ALL' or isinstance(x, KObj) or 'ALL_t' in tystr(a):
                ext.append(v.ext[d])
                strd.append(v.strd[d])
                continue
            if isinstance(x, Loc) and not x.path and isinstance(self.st.cells.get(x.root), Tup):
                x = self.st.cells[x.root]
            if isinstance(x, Tup):
                b, e = [self.kint(y) for y in x.v]
                if not 0 <= b <= e <= v.ext[d]:
                    bad = 'range [%d, %d) of dimension %d, extent %d' % (b, e, d, v.ext[d])
                ext.append(max(0, e - b))
                strd.append(v.strd[d])
                off += b * v.strd[d]
                continue
            i = self.kint(x, tystr(a))
            if not 0 <= i < v.ext[d]:
                bad = 'index %d of dimension %d, extent %d' % (i, d, v.ext[d])
            off += i * v.strd[d]
        if bad:
            self.koob.append(('subview with %s%s' % (bad, ' (%s)' % v.label if v.label else ''), self.kwhere_of(n)))
            return self.knew(ext, v.et, 'outside ' + v.label)
        return Vw(v.base.plus(poly(off)) if v.base is not None else None, ext, strd, v.et, v.label)

    def katomic(self, an, n, sign=1, one=False):
        p = self.rv(an[0])
        if not isinstance(p, Ptr):
            raise Unsupported('atomic update')
        x = ONE if one else self.num(an[1])
        l = p.at()
        if l.root in self.kmem:
            old = self.kload(l, quiet=True)
            self.kstore(l, x * sign, 'add', atomic=True)
            return old
        if l.root.startswith('%oob'):
            self.k_oob(l, 'atomic update at')
            return ZERO
        raise Unsupported('atomic update outside a view')

    def kc_atomic_add(self, an, n):
        self.katomic(an, n)

    def kc_atomic_sub(self, an, n):
        self.katomic(an, n, -1)

    def kc_atomic_inc(self, an, n):
        self.katomic(an, n, 1, True)

    kc_atomic_increment = kc_atomic_inc

    def kc_atomic_fetch_add(self, an, n):
        return self.katomic(an, n)

    def kc_invoke(self, an, n):
        t = tystr(n)
        tr = re.findall(r'Trans::(\w+)', t)
        if len(an) == 6 and len(tr) == 2:
            al = self.num(an[1])
            A, B, C = [self.kview(self.ev(an[q]), tystr(an[q])) for q in (2, 3, 5)]
            be = self.num(an[4])
            ta, tb = [x == 'Transpose' for x in tr]
            m, k = (A.ext[1], A.ext[0]) if ta else A.ext
            k2, nn = (B.ext[1], B.ext[0]) if tb else B.ext
            if (m, nn) != C.ext or k != k2:
                self.kfail.append(('matrix product of shapes %s, %s into %s' % (list(A.ext), list(B.ext), list(C.ext)), self.kwhere_of(n)))
                return ZERO
            save = self.klane
            self.klane = self.klane or ('*',)
            rd = {}
            for M, nm in ((A, 'A'), (B, 'B')):
                for i in indices(M.ext):
                    rd[nm, i] = self.kget(M, i)
            self.ncopy += 1
            for i in range(m):
                for j in range(nn):
                    s = ZERO
                    for q in range(k):
                        s = s + rd['A', (q, i) if ta else (i, q)] * rd['B', (j, q) if tb else (q, j)]
                    s = s * al
                    if save in ((), ('*',)):
                        self.klane = (('gemm', self.ncopy, (i, j)),)
                    if not be.is_zero():
                        s = s + be * self.kget(C, (i, j))
                    self.kput(C, (i, j), s)
            self.klane = save
            return ZERO
        if len(an) == 5 and len(tr) == 1:
            al, be = self.num(an[0]), self.num(an[3])
            A, x, y = [self.kview(self.ev(an[q]), tystr(an[q])) for q in (1, 2, 4)]
            ta = tr[0] == 'Transpose'
            m, k = (A.ext[1], A.ext[0]) if ta else A.ext
            if (k,) != x.ext or (m,) != y.ext:
                self.kfail.append(('matrix-vector product of shapes %s, %s into %s' % (list(A.ext), list(x.ext), list(y.ext)), self.kwhere_of(n)))
                return ZERO
            for i in range(m):
                s = ZERO
                for q in range(k):
                    s = s + self.kget(A, (q, i) if ta else (i, q)) * self.kget(x, (q,))
                s = s * al
                if not be.is_zero():
                    s = s + be * self.kget(y, (i,))
                self.kput(y, (i,), s)
            return ZERO
        return NotImplemented

    def kc_dot(self, an, n):
        x, y = [self.kview(self.ev(a), tystr(a)) for a in an[:2]]
        if x.ext != y.ext:
            self.kfail.append(('dot product of extents %s and %s' % (list(x.ext), list(y.ext)), self.kwhere_of(n)))
            return ZERO
        s = ZERO
        for i in range(x.ext[0]):
            s = s + self.kget(x, (i,)) * self.kget(y, (i,))
        return s


def indices(dims):
    if not dims:
        yield ()
        return
    for i in range(dims[0]):
        for r in indices(dims[1:]):
            yield (i,) + r


def knum(c):
    try:
        return int(c[1:c.index(':')])
    except ValueError:
        return -1
