"""Abstract values and AST helpers of the value-graph builder."""
import re
from terms import *
import terms as T


RANGE = {}      # binder id -> extent N (binder in [0,N))


class Unsupported(Exception):
    pass


LIVE = []       # interpreters created since the current group of obligations began


def lost():
    """first construct the analysis had to give up on, if any"""
    for ip in LIVE:
        if ip.unsupported:
            return ip.unsupported[0]
    return None


COV = {}        # branch or constant threshold -> outcomes seen over all configurations


def seen(node, kind, side):
    if COV is not None:
        COV.setdefault((kind, T.where_of(node)), set()).add(side)


class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        path = tuple(path)
        i = 0
        while i < len(path) and isinstance(path[i], str):
            root = root + '.' + path[i]
            i += 1
        self.root = root
        self.path = path[i:]

    def sub(self, *p):
        return Loc(self.root, self.path + p)

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.root, self.path)

    def __eq__(self, o):
        return isinstance(o, Loc) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))


class Ptr:
    __slots__ = ('root', 'path', 'off', 'obj', 'size')

    def __init__(self, root, path, off, obj=False, size=None):
        self.root, self.path, self.off, self.obj, self.size = root, tuple(path), off, obj, size

    def at(self, i=ZERO):
        if self.obj:
            if self.off.is_zero() and poly(i).is_zero():
                return Loc(self.root, self.path)
        return Loc(self.root, self.path + (self.off + i,))

    def plus(self, n):
        return Ptr(self.root, self.path, self.off + n, self.obj, self.size)

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.root, self.path, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.root, self.path, self.off, self.size) == (o.root, o.path, o.off, o.size)

    def __hash__(self):
        return hash((self.root, self.path, self.off))


class Tup:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)

    def __repr__(self):
        return 'Tup%r' % (self.v,)


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'Str(%r)' % self.s

    def __eq__(self, o):
        return isinstance(o, Str) and o.s == self.s

    def __hash__(self):
        return hash(self.s)


def str_of(v):
    """a string held as an array element"""
    if isinstance(v, Poly) and len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'strv':
            return Str(m[0][0].args[0])
    return None


class Clo:
    __slots__ = ('tu', 'node', 'env', 'this')

    def __init__(self, tu, node, env, this):
        self.tu, self.node, self.env, self.this = tu, node, env, this


class FnRef:
    __slots__ = ('tu', 'decl')

    def __init__(self, tu, decl):
        self.tu, self.decl = tu, decl


class Rec:
    """one (possibly quantified) memory update.
    kind: set | add | fill | copy | havoc;  loops: tuple of (binder, N, dir, loopid)"""
    __slots__ = ('kind', 'loops', 'guard', 'path', 'val', 'src', 'where')

    def __init__(self, kind, loops, guard, path, val, src=None, where=None):
        self.kind, self.loops, self.guard, self.path, self.val, self.src, self.where = \
            kind, loops, guard, path, val, src, where

    def __repr__(self):
        return '%s %s {%s} %s := %s %s' % (self.kind, [(b, n) for b, n, d, i in self.loops], self.guard, self.path, self.val, self.src or '')


class Snap:
    """an immutable view of a root's log"""
    __slots__ = ('root', 'path', 'log')

    def __init__(self, root, path, log):
        self.root, self.path, self.log = root, path, log


class State:
    __slots__ = ('cells', 'logs', 'guard', 'alive')

    def __init__(self):
        self.cells = {}
        self.logs = {}
        self.guard = ONE
        self.alive = True

    def fork(self):
        s = State()
        s.cells = dict(self.cells)
        s.logs = dict(self.logs)
        s.guard = self.guard
        s.alive = self.alive
        return s


class Frame:
    def __init__(self, tu, fn, env, this, ctx):
        self.tu, self.fn, self.env, self.this, self.ctx = tu, fn, env, this, ctx
        self.returns = []
        self.loopconts = []     # stack of lists of states
        self.loopbreaks = []    # stack of lists of states (None: not supported there)


class LoopInfo:
    def __init__(self):
        self.cells = set()
        self.roots = set()
        self.nroot0 = 0
        self.sizeroots = set()      # roots under which a container size may change


class OpenLoop:
    def __init__(self, id, roots, baselen, k, sizeroots=()):
        self.id, self.roots, self.baselen, self.k = id, roots, baselen, k
        self.sizeroots = sizeroots


INT_RE = re.compile(r'^(const |volatile )*(unsigned |signed )?(int|long|long long|short|char|unsigned|size_t|std::size_t|bool|std::ptrdiff_t|ptrdiff_t|int\d+_t|uint\d+_t|__int\d+)( long| int| unsigned)*( const)?$')
FLT_RE = re.compile(r'^(const )?(double|float|long double)( const)?$')


def tystr(n):
    t = n.get('type') or {}
    s = t.get('desugaredQualType') or t.get('qualType') or ''
    return s


def strip_ref(s):
    s = s.strip()
    while s.endswith('&'):
        s = s[:-1].strip()
    return s


def is_int_t(s):
    s = strip_ref(s)
    return bool(INT_RE.match(s)) or s.endswith('size_type') or s.endswith('difference_type') or s.startswith('enum ') or s.replace('const ', '').split('::')[-1].strip() in ('tagint', 'bigint', 'imageint', 'smallint')


def is_flt_t(s):
    return bool(FLT_RE.match(strip_ref(s)))


def is_bool_t(s):
    return strip_ref(s).replace('const ', '') == 'bool'


def is_ptr_t(s):
    s = s.strip()
    s = re.sub(r'(const|__restrict|\brestrict)\s*$', '', s).strip()
    return s.endswith('*')


def is_scalar_t(s):
    s2 = strip_ref(s)
    return is_int_t(s2) or is_flt_t(s2)


SKIP = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
        'SubstNonTypeTemplateParmExpr', 'CXXDefaultInitExpr', 'FullExpr'}


def kids(n):
    return [c for c in n.get('inner', []) if isinstance(c, dict) and c]


def skip(n):
    while n.get('kind') in SKIP or (n.get('kind') in ('ImplicitCastExpr',) and n.get('castKind') in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UncheckedDerivedToBase', 'DerivedToBase')):
        k = kids(n)
        if not k:
            break
        n = k[0]
    return n


