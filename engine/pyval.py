"""Value summaries of Python functions (abstract interpretation of the Python AST).

Numbers that the analysed code does not fix are terms (terms.Poly); arrays have a known shape
and terms as elements.  Control flow must be decided by known values; anything else is
Unsupported (undecided), never a verdict.  No module of the analysed package is imported."""
import ast
import operator
import os

import numpy as np
import terms as T
from terms import Poly, poly, inv, Clock
from values import Unsupported


class PyRaise(Exception):
    """the analysed code raises"""

    def __init__(self, kind, text='', node=None):
        Exception.__init__(self, '%s: %s' % (kind, text))
        self.kind, self.text, self.node = kind, text, node


class Opaque:
    """a value nothing is known about; attributes and calls stay opaque"""

    def __init__(self, name='?'):
        self.opname = name

    def __repr__(self):
        return '<%s>' % self.opname


class Obj:
    """an object with known attributes / methods (python callables taking (interp, args, kwargs))"""

    def __init__(self, name, **attrs):
        self.objname = name
        self.attrs = attrs

    def __repr__(self):
        return '<%s>' % self.objname


class Fn:
    def __init__(self, node, env, mod, bound=None):
        self.node, self.env, self.mod, self.bound = node, env, mod, bound


class Cls:
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod

    def method(self, name):
        for s in self.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return s
        return None

    def const(self, name):
        for s in self.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return s.value
        return None


class Model:
    """a library function given by its meaning"""

    def __init__(self, f, name=''):
        self.f, self.name = f, name


class NSpace:
    """a modelled module"""

    def __init__(self, name, **m):
        self.name, self.m = name, m


class Exc:
    def __init__(self, kind):
        self.kind = kind


EXC_PARENTS = {'ValueError': ('Exception',), 'RuntimeError': ('Exception',), 'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception'),
               'TypeError': ('Exception',), 'AttributeError': ('Exception',), 'ZeroDivisionError': ('ArithmeticError', 'Exception'), 'NotImplementedError': ('RuntimeError', 'Exception'),
               'PropertyNotImplementedError': ('NotImplementedError', 'RuntimeError', 'Exception'), 'FileNotFoundError': ('OSError', 'Exception'), 'OSError': ('Exception',),
               'ImportError': ('Exception',), 'ModuleNotFoundError': ('ImportError', 'Exception'), 'AssertionError': ('Exception',), 'StopIteration': ('Exception',), 'Exception': (),
               'LookupError': ('Exception',), 'ArithmeticError': ('Exception',), 'OverflowError': ('ArithmeticError', 'Exception')}


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


def isarr(x):
    return isinstance(x, np.ndarray)


def sym(x):
    """x holds terms"""
    return isinstance(x, Poly) or (isarr(x) and x.dtype == object)


def toobj(x):
    """array whose real numbers are terms"""
    a = np.asarray(x)
    if a.dtype == object:
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = poly(a[i]) if not isinstance(a[i], Poly) else a[i]
        return out
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        v = a[i].item() if hasattr(a[i], 'item') else a[i]
        from fractions import Fraction
        out[i] = poly(Fraction(v) if isinstance(v, float) else v)
    return out


def num(x):
    """a plain number, if x is one"""
    if isinstance(x, Poly):
        return x.const()
    return x


def pdiv(a, b):
    if isinstance(b, Poly):
        c = b.const()
        if c is not None:
            if c == 0:
                raise PyRaise('ZeroDivisionError')
            return a * inv(b)
        return a * inv(b)
    if isinstance(b, (int, float, np.integer, np.floating)):
        from fractions import Fraction
        if b == 0:
            raise PyRaise('ZeroDivisionError')
        return a * poly(1 / Fraction(b.item() if hasattr(b, 'item') else b))
    raise Unsupported('division')


def topoly(x):
    if isinstance(x, Poly):
        return x
    from fractions import Fraction
    if isinstance(x, (bool, np.bool_)):
        return poly(int(x))
    if isinstance(x, (int, np.integer)):
        return poly(int(x))
    if isinstance(x, (float, np.floating)):
        return poly(Fraction(float(x)))
    raise Unsupported('not a number: %r' % (x,))


def elementwise(f, a, b):
    A, B = np.broadcast_arrays(np.asarray(a, dtype=object) if not isarr(a) else a, np.asarray(b, dtype=object) if not isarr(b) else b)
    out = np.empty(A.shape, dtype=object)
    for i in np.ndindex(A.shape):
        out[i] = f(topoly(A[i]), topoly(B[i]))
    return out


OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul}


class PyInterp:
    def __init__(self, path, rel, modules, builtins=None):
        self.path, self.rel = path, rel
        self.tree = ast.parse(open(path, encoding='utf-8').read(), path)
        self.modules = modules          # dotted name -> NSpace | value
        self.globals = {}
        self.steps = 0
        self.limit = 400000
        self.calls = []
        self.depth = 0
        self.extra = builtins or {}

    # ---------------------------------------------------------- module level
    def load_module(self):
        for s in self.tree.body:
            if isinstance(s, ast.FunctionDef):
                self.globals[s.name] = Fn(s, self.globals, self)
            elif isinstance(s, ast.ClassDef):
                self.globals[s.name] = Cls(s, self.globals, self)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                self.do_import(s, self.globals)
            elif isinstance(s, ast.Try):
                # optional imports: first alternative that is modelled
                try:
                    self.block(s.body, self.globals)
                except (PyRaise, Unsupported):
                    for h in s.handlers:
                        self.block(h.body, self.globals)
            elif isinstance(s, ast.Assign):
                try:
                    v = self.ev(s.value, self.globals)
                    for t in s.targets:
                        self.assign(t, v, self.globals)
                except (Unsupported, PyRaise):
                    pass
            elif isinstance(s, ast.If):
                pass

    def do_import(self, s, env):
        if isinstance(s, ast.Import):
            for a in s.names:
                m = self.modules.get(a.name)
                env[a.asname or a.name.split('.')[0]] = m if m is not None else Opaque(a.name)
            return
        base = '.' * s.level + (s.module or '')
        for a in s.names:
            full = (base + '.' + a.name) if s.module else base + a.name
            if full in self.modules:
                v = self.modules[full]
            elif base in self.modules and isinstance(self.modules[base], NSpace) and a.name in self.modules[base].m:
                v = self.modules[base].m[a.name]
            elif full + '!missing' in self.modules or base + '!missing' in self.modules:
                raise PyRaise('ModuleNotFoundError', full, s)
            else:
                v = Opaque(full)
            env[a.asname or a.name] = v

    def where(self, n):
        return '%s:%d' % (self.rel, getattr(n, 'lineno', 0))

    # ---------------------------------------------------------- calls
    def call_fn(self, f, args, kw, node=None):
        Clock.check() if hasattr(Clock, 'check') else None
        a = f.node.args
        if f.bound is not None:
            args = [f.bound] + list(args)
        if self.depth > 100:
            raise Unsupported('call depth')
        env = {'@up': f.env}
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(names, args):
            env[n] = v
        rest = list(args[len(names):])
        if rest and not a.vararg:
            raise PyRaise('TypeError', 'too many arguments to %s' % f.node.name, node)
        if a.vararg:
            env[a.vararg.arg] = tuple(rest)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise PyRaise('TypeError', 'argument given twice: %s' % k, node)
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise('TypeError', 'unexpected argument %s of %s' % (k, f.node.name), node)
        if a.kwarg:
            env[a.kwarg.arg] = extra
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.ev(d, f.env)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev(d, f.env)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                raise PyRaise('TypeError', 'missing required argument %s of %s' % (n, f.node.name), node)
        self.calls.append(f.node.name)
        self.depth += 1
        try:
            f.mod.block(f.node.body, env)
        except _Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def call(self, f, args, kw, node=None):
        self.steps += 1
        if self.steps > self.limit:
            raise Unsupported('step limit')
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, node)
        if isinstance(f, Lam):
            env = {'@up': f.env}
            for p, v in zip(f.node.args.args, args):
                env[p.arg] = v
            return self.ev(f.node.body, env)
        if isinstance(f, Model):
            return f.f(self, args, kw)
        if isinstance(f, Exc):
            return Obj('exception', kind=f.kind, text=str(args[0]) if args and isinstance(args[0], str) else '')
        if isinstance(f, Opaque):
            return Opaque(f.opname + '()')
        if callable(f):
            return f(*args, **kw)
        raise Unsupported('call of %r' % (f,))

    # ---------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        k = type(s)
        if k is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value, env)
        elif k is ast.Assign:
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif k is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif k is ast.AugAssign:
            old = self.ev(ast.copy_location(ast.fix_missing_locations(_load(s.target)), s), env)
            v = self.ev(s.value, env)
            if isarr(old) and old.dtype == object:
                r = self.binop(s.op, old, v)
                if isarr(r) and r.shape == old.shape and not isinstance(s.target, ast.Subscript):
                    old[...] = r
                    return
                self.assign(s.target, r, env)
                return
            if isinstance(old, list) and isinstance(s.op, ast.Add):
                old.extend(v)
                return
            self.assign(s.target, self.binop(s.op, old, v), env)
        elif k is ast.If:
            self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif k is ast.For:
            broke = False
            for v in self.iter(self.ev(s.iter, env)):
                self.assign(s.target, v, env)
                try:
                    self.block(s.body, env)
                except _Cont:
                    continue
                except _Brk:
                    broke = True
                    break
            if not broke:
                self.block(s.orelse, env)
        elif k is ast.While:
            n = 0
            while self.truth(self.ev(s.test, env)):
                n += 1
                if n > 5000:
                    raise Unsupported('loop')
                try:
                    self.block(s.body, env)
                except _Cont:
                    continue
                except _Brk:
                    break
        elif k is ast.Return:
            raise _Ret(self.ev(s.value, env) if s.value is not None else None)
        elif k is ast.Pass:
            return
        elif k is ast.Break:
            raise _Brk()
        elif k is ast.Continue:
            raise _Cont()
        elif k is ast.Raise:
            if s.exc is None:
                raise PyRaise(env.get('@exc') or 'Exception', '', s)
            v = self.ev(s.exc, env)
            if isinstance(v, Exc):
                raise PyRaise(v.kind, '', s)
            if isinstance(v, Obj) and 'kind' in v.attrs:
                raise PyRaise(v.attrs['kind'], v.attrs.get('text', ''), s)
            raise PyRaise('Exception', repr(v), s)
        elif k is ast.Try:
            self.do_try(s, env)
        elif k is ast.With:
            self.do_with(s, env, 0)
        elif k is ast.FunctionDef:
            env[s.name] = Fn(s, env, self)
        elif k is ast.ClassDef:
            env[s.name] = Cls(s, env, self)
        elif k in (ast.Import, ast.ImportFrom):
            self.do_import(s, env)
        elif k is ast.Assert:
            if not self.truth(self.ev(s.test, env)):
                raise PyRaise('AssertionError', '', s)
        elif k is ast.Delete:
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    o = self.ev(t.value, env)
                    del o[self.ev(t.slice, env)]
        elif k in (ast.Global, ast.Nonlocal):
            raise Unsupported('global/nonlocal')
        else:
            raise Unsupported('statement %s' % k.__name__)

    def do_try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.matches(e.kind, self.ev(h.type, env)):
                        env['@exc'] = e.kind
                        if h.name:
                            env[h.name] = Obj('exception', kind=e.kind, text=e.text)
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def matches(self, kind, t):
        if isinstance(t, tuple):
            return any(self.matches(kind, x) for x in t)
        if isinstance(t, Exc):
            return t.kind == kind or t.kind in EXC_PARENTS.get(kind, ('Exception',)) or t.kind == 'BaseException'
        raise Unsupported('exception type')

    def do_with(self, s, env, i):
        if i == len(s.items):
            self.block(s.body, env)
            return
        it = s.items[i]
        c = self.ev(it.context_expr, env)
        v = c
        if isinstance(c, Obj) and '__enter__' in c.attrs:
            v = self.call(c.attrs['__enter__'], [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.do_with(s, env, i + 1)
        finally:
            if isinstance(c, Obj) and '__exit__' in c.attrs:
                self.call(c.attrs['__exit__'], [], {})

    def assign(self, t, v, env):
        k = type(t)
        if k is ast.Name:
            env[t.id] = v
        elif k in (ast.Tuple, ast.List):
            vs = list(self.iter(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                n = len(vs) - len(t.elts) + 1
                vs = vs[:i] + [vs[i:i + n]] + vs[i + n:]
            if len(vs) != len(t.elts):
                raise PyRaise('ValueError', 'unpacking', t)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif k is ast.Attribute:
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                h = o.attrs.get('@set')
                if h:
                    h(t.attr, v)
                o.attrs[t.attr] = v
            elif isinstance(o, Opaque):
                return
            else:
                raise Unsupported('attribute assignment')
        elif k is ast.Subscript:
            o = self.ev(t.value, env)
            i = self.index(t.slice, env)
            if isarr(o):
                if o.dtype == object:
                    if isarr(v) or isinstance(v, (list, tuple)):
                        o[i] = toobj(v)
                    else:
                        o[i] = topoly(v)
                elif sym(v):
                    raise Unsupported('store of a term into an integer array')
                else:
                    o[i] = v
            elif isinstance(o, (list, dict)):
                o[i] = v
            elif isinstance(o, Obj) and 'setitem' in o.attrs:
                o.attrs['setitem'](i, v)
            elif isinstance(o, Opaque):
                return
            else:
                raise Unsupported('subscript assignment')
        else:
            raise Unsupported('assignment target')

    # ---------------------------------------------------------- expressions
    def truth(self, v):
        if isinstance(v, Poly):
            c = v.const()
            if c is None:
                raise Unsupported('branch on a symbolic value')
            return bool(c)
        if isinstance(v, Opaque):
            raise Unsupported('branch on an unknown value')
        if isarr(v) and v.size != 1:
            raise PyRaise('ValueError', 'truth of an array')
        if isinstance(v, Obj):
            if 'len' in v.attrs:
                return bool(self.length(v))
            return True
        if isinstance(v, (Fn, Cls, NSpace, Model)):
            return True
        return bool(v)

    def iter(self, v):
        if isarr(v):
            return [v[i] for i in range(v.shape[0])] if v.ndim else self.no('iteration')
        if isinstance(v, (list, tuple, dict, set, frozenset, str, range)):
            return list(v)
        if isinstance(v, (zip, enumerate, map, filter, type({}.keys()), type({}.values()), type({}.items()), reversed)):
            return list(v)
        if isinstance(v, Obj) and 'iter' in v.attrs:
            return v.attrs['iter']()
        if hasattr(v, '__next__'):
            return list(v)
        raise Unsupported('iteration over %r' % (v,))

    def no(self, what):
        raise Unsupported(what)

    def length(self, v):
        if isinstance(v, Obj):
            if 'len' in v.attrs:
                x = v.attrs['len']
                return x() if callable(x) else x
            raise Unsupported('len')
        if isinstance(v, (Opaque, Poly)):
            raise Unsupported('len of unknown')
        return len(v)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e:
                return e[name]
            e = e.get('@up')
        if name in self.globals:
            return self.globals[name]
        if name in self.extra:
            return self.extra[name]
        b = builtin(self, name)
        if b is not None:
            return b
        if name in EXC_PARENTS or name == 'BaseException':
            return Exc(name)
        raise PyRaise('NameError', name)

    def index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.intv(self.ev(x, env))
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, env) for x in s.elts)
        v = self.ev(s, env)
        if isinstance(v, Poly):
            return self.intv(v)
        return v

    def intv(self, v):
        if isinstance(v, Poly):
            c = v.const()
            if c is None or c.denominator != 1:
                raise Unsupported('symbolic index')
            return int(c)
        return v

    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return list(self.elts(n.elts, env))

    def e_Set(self, n, env):
        return set(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out += self.iter(self.ev(e.value, env))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_JoinedStr(self, n, env):
        out = ''
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                try:
                    out += str(self.ev(v.value, env))
                except Unsupported:
                    out += '?'
        return out

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        r = None
        for v in n.values:
            r = self.ev(v, env)
            t = self.truth(r)
            if isinstance(n.op, ast.And) and not t:
                return r
            if isinstance(n.op, ast.Or) and t:
                return r
        return r

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if isarr(v) and v.dtype == object:
                return elementwise(operator.sub, np.zeros((), int), v)
            return -v
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return ~v
        raise Unsupported('unary')

    def e_BinOp(self, n, env):
        return self.binop(n.op, self.ev(n.left, env), self.ev(n.right, env))

    def binop(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('op')
        for x in (a, b):
            if isinstance(x, (Obj, Fn, Cls, NSpace, Model)):
                raise Unsupported('arithmetic on an object')
        if not (sym(a) or sym(b)) or (isinstance(a, (list, tuple, str)) and not isarr(b)):
            if isinstance(op, ast.Div) and not isarr(a) and not isarr(b) and b == 0:
                raise PyRaise('ZeroDivisionError')
            return BIN[type(op)](a, b)
        if isinstance(op, ast.MatMult):
            return np.dot(toobj(a), toobj(b)) if np.ndim(a) <= 2 and np.ndim(b) <= 2 else self.no('matmul')
        t = type(op)
        if t in OPS:
            f = OPS[t]
        elif t is ast.Div:
            f = pdiv
        elif t is ast.Pow:
            def f(x, y):
                c = y.const()
                if c is None or c.denominator != 1 or abs(c) > 8:
                    if c is not None and c * 2 == 1:
                        return T.pow_(x, y)
                    raise Unsupported('power')
                r = poly(1)
                for _ in range(abs(int(c))):
                    r = r * x
                return r if c >= 0 else inv(r)
        else:
            raise Unsupported('operator on terms')
        if isarr(a) or isarr(b) or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return elementwise(f, a, b)
        return f(topoly(a), topoly(b))

    def e_Compare(self, n, env):
        l = self.ev(n.left, env)
        res = True
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c, env)
            res = self.compare(op, l, r)
            if isarr(res):
                return res
            if not res:
                return False
            l = r
        return res

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return a is b
        if t is ast.IsNot:
            return a is not b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison with an unknown value')
        if t in (ast.In, ast.NotIn):
            if isinstance(b, Obj):
                raise Unsupported('membership')
            r = a in b
            return r if t is ast.In else not r
        if sym(a) or sym(b):
            if isinstance(a, Poly) or isinstance(b, Poly):
                if not isarr(a) and not isarr(b):
                    x, y = num(a), num(b)
                    if x is None or y is None:
                        raise Unsupported('comparison of terms')
                    return CMP[t](x, y)
            raise Unsupported('comparison of terms')
        return CMP[t](a, b)

    def e_Attribute(self, n, env):
        return self.attr(self.ev(n.value, env), n.attr, n)

    def attr(self, o, a, n=None):
        if isinstance(o, Obj):
            if a in o.attrs:
                return o.attrs[a]
            c = o.attrs.get('@class')
            if c is not None:
                m = c.method(a)
                if m is not None:
                    f = Fn(m, c.env, c.mod, o)
                    if any(isinstance(d, ast.Name) and d.id == 'property' for d in m.decorator_list):
                        return self.call_fn(f, [], {}, n)
                    if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m.decorator_list):
                        f.bound = None
                    return f
                k = c.const(a)
                if k is not None:
                    return self.ev(k, c.env)
            if '@get' in o.attrs:
                r = o.attrs['@get'](a)
                if r is not None:
                    return r
            if o.attrs.get('@closed'):
                raise PyRaise('AttributeError', '%s.%s' % (o.objname, a), n)
            raise Unsupported('attribute %s of %s' % (a, o.objname))
        if isinstance(o, NSpace):
            if a in o.m:
                return o.m[a]
            if o.name == 'numpy':
                return npfunc(a)
            return Opaque('%s.%s' % (o.name, a))
        if isinstance(o, Opaque):
            return Opaque('%s.%s' % (o.opname, a))
        if isarr(o):
            return arr_attr(self, o, a)
        if isinstance(o, Cls):
            m = o.method(a)
            if m is not None:
                return Fn(m, o.env, o.mod)
            raise Unsupported('class attribute')
        if isinstance(o, (list, tuple, dict, set, str)):
            return pymethod(self, o, a, n)
        if isinstance(o, Poly) and a in ('item', 'copy'):
            return Model(lambda ip, ar, kw: o)
        if isinstance(o, (int, float, np.generic)) and hasattr(o, a):
            return getattr(o, a)
        raise Unsupported('attribute %s of %s' % (a, type(o).__name__))

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        i = self.index(n.slice, env)
        if isinstance(o, Obj) and 'getitem' in o.attrs:
            return o.attrs['getitem'](i)
        if isinstance(o, Opaque):
            return Opaque(o.opname + '[]')
        if isarr(o) and isinstance(i, list):
            i = np.asarray(i)
        try:
            return o[i]
        except IndexError:
            raise PyRaise('IndexError', '', n)
        except KeyError:
            raise PyRaise('KeyError', str(i), n)
        except TypeError as e:
            raise Unsupported('subscript: %s' % e)

    def e_Call(self, n, env):
        f = self.ev(n.func, env)
        args = self.elts(n.args, env)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unsupported('** argument')
                kw.update(v)
            else:
                kw[k.arg] = v
        try:
            return self.call(f, args, kw, n)
        except PyRaise as e:
            if e.node is None:
                e.node = n
            raise

    def e_Lambda(self, n, env):
        return Lam(n, env)

    def comp(self, gens, env, leaf):
        env = {'@up': env}

        def go(i):
            if i == len(gens):
                leaf(env)
                return
            g = gens[i]
            for v in self.iter(self.ev(g.iter, env)):
                self.assign(g.target, v, env)
                if all(self.truth(self.ev(c, env)) for c in g.ifs):
                    go(i + 1)
        go(0)

    def e_ListComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, env):
        return set(self.e_ListComp(n, env))

    def e_DictComp(self, n, env):
        d = {}

        def leaf(e):
            d[self.ev(n.key, e)] = self.ev(n.value, e)
        self.comp(n.generators, env, leaf)
        return d

    def e_Starred(self, n, env):
        raise Unsupported('starred')

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_FormattedValue(self, n, env):
        return self.ev(n.value, env)


class Lam:
    def __init__(self, node, env):
        self.node, self.env = node, env


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return t


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
       ast.Pow: operator.pow, ast.MatMult: operator.matmul, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


# -------------------------------------------------------------- builtins
def builtin(ip, name):
    def wrap(f):
        return Model(lambda ip, a, kw: f(*a, **kw))
    it = ip.iter

    def b_sum(x, start=0):
        r = start
        for v in it(x):
            r = ip.binop(ast.Add(), r, v)
        return r

    def b_sorted(x, key=None, reverse=False):
        vs = it(x)
        if any(sym(v) for v in vs) and key is None:
            raise Unsupported('sorting terms')
        k = (lambda v: ip.call(key, [v], {})) if key is not None else None
        return sorted(vs, key=k, reverse=reverse)

    def b_isinstance(o, t):
        raise Unsupported('isinstance')

    def b_str(x=''):
        if isinstance(x, (str, int, float)):
            return str(x)
        if isinstance(x, Obj) and 'str' in x.attrs:
            return x.attrs['str']
        raise Unsupported('str')

    def b_hasattr(o, a):
        if isinstance(o, Obj):
            try:
                ip.attr(o, a)
                return True
            except PyRaise:
                return False
        if isinstance(o, NSpace):
            return a in o.m
        raise Unsupported('hasattr')

    def b_getattr(o, a, *d):
        try:
            return ip.attr(o, a)
        except PyRaise:
            if d:
                return d[0]
            raise

    def b_mm(f):
        def g(*a, default=None, key=None):
            vs = it(a[0]) if len(a) == 1 else list(a)
            if key is not None:
                raise Unsupported('min/max key')
            if not vs:
                if default is not None:
                    return default
                raise PyRaise('ValueError', 'empty sequence')
            if any(sym(v) and num(v) is None for v in vs):
                raise Unsupported('min/max of terms')
            return f(vs)
        return g

    def b_int(x=0):
        if isinstance(x, Poly):
            return ip.intv(x)
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                raise PyRaise('ValueError', x)
        return int(x)
    T_ = {'len': wrap(ip.length), 'range': wrap(lambda *a: range(*[ip.intv(x) for x in a])), 'enumerate': wrap(lambda x, start=0: list(enumerate(it(x), start))),
          'zip': wrap(lambda *a, strict=False: list(zip(*[it(x) for x in a]))), 'list': wrap(lambda x=(): list(it(x))), 'tuple': wrap(lambda x=(): tuple(it(x))),
          'dict': wrap(lambda x=(), **k: dict(x, **k)), 'set': wrap(lambda x=(): set(it(x))), 'sum': wrap(b_sum), 'sorted': wrap(b_sorted), 'abs': wrap(abs), 'int': wrap(b_int),
          'float': wrap(lambda x=0.0: x if isinstance(x, Poly) else float(x)), 'bool': wrap(lambda x=False: ip.truth(x)), 'str': wrap(b_str), 'isinstance': wrap(b_isinstance),
          'hasattr': wrap(b_hasattr), 'getattr': wrap(b_getattr), 'max': wrap(b_mm(max)), 'min': wrap(b_mm(min)), 'reversed': wrap(lambda x: it(x)[::-1]),
          'any': wrap(lambda x: any(ip.truth(v) for v in it(x))), 'all': wrap(lambda x: all(ip.truth(v) for v in it(x))), 'print': wrap(lambda *a, **k: None),
          'map': wrap(lambda f, *a: [ip.call(f, list(v), {}) for v in zip(*[it(x) for x in a])]), 'type': wrap(lambda x: Opaque('type')), 'repr': wrap(lambda x: '?'),
          'super': wrap(lambda *a: Opaque('super')), 'object': Opaque('object'), 'slice': slice, 'round': wrap(round), 'iter': wrap(it), 'property': Opaque('property'), '__name__': '?'}
    return T_.get(name)


def pymethod(ip, o, a, n):
    def m(f):
        return Model(lambda ip, ar, kw: f(*ar, **kw))
    if isinstance(o, (list, tuple)) and a == 'index':
        def f(v, *r):
            try:
                return o.index(v, *r)
            except ValueError:
                raise PyRaise('ValueError', 'not in list', n)
        return m(f)
    if isinstance(o, dict) and a == 'get':
        return m(lambda k, d=None: o.get(k, d))
    if isinstance(o, list) and a == 'sort':
        if any(sym(v) for v in o):
            raise Unsupported('sorting terms')
    if hasattr(o, a):
        g = getattr(o, a)
        return Model(lambda ip, ar, kw: g(*ar, **kw))
    raise PyRaise('AttributeError', a, n)


# -------------------------------------------------------------- numpy
def bincount(x, weights=None, minlength=0):
    x = np.asarray(x)
    if x.size and x.dtype == object:
        raise Unsupported('bincount of terms')
    x = x.astype(int)
    if weights is None:
        return np.bincount(x, minlength=minlength)
    w = toobj(weights)
    if w.shape != x.shape:
        raise PyRaise('ValueError', 'bincount: weights and list do not have the same length')
    n = max(int(x.max()) + 1 if x.size else 0, minlength)
    out = np.empty(n, dtype=object)
    out[:] = poly(0)
    for i, v in zip(x, w):
        out[i] = out[i] + v
    return out


def zeros_like_shape(shape, dtype, fill):
    if dtype is not None and ('int' in str(dtype) or dtype is int or 'bool' in str(dtype)):
        return np.full(shape, fill, dtype=int)
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(a.shape):
        a[i] = poly(fill)
    return a


def ftype(d):
    return None if d is None else d


INTT = Obj('int dtype', str='int')


def npfunc(a):
    def m(f):
        return Model(lambda ip, ar, kw: f(ip, *ar, **kw), 'numpy.' + a)

    def fix(x):
        if isinstance(x, (list, tuple)) and any(sym(v) for v in flat(x)):
            return toobj(np.array([fix(v) for v in x], dtype=object))
        return x

    def flat(x):
        if isinstance(x, (list, tuple)):
            for v in x:
                yield from flat(v)
        else:
            yield x

    def shape_of(s):
        return tuple(int(num(v)) for v in s) if isinstance(s, (tuple, list)) else int(num(s))
    if a in ('asarray', 'array', 'ascontiguousarray', 'atleast_1d', 'asfarray', 'copy'):
        def f(ip, x, dtype=None, **k):
            if isinstance(x, Obj) and 'array' in x.attrs:
                x = x.attrs['array']()
            if isinstance(x, (Obj, Opaque)):
                raise Unsupported('array of unknown')
            x = fix(x)
            if isinstance(x, Poly):
                r = np.empty((), dtype=object)
                r[()] = x
                return r
            r = np.asarray(x)
            if a in ('array', 'copy'):
                r = r.copy()
            if dtype is not None and r.dtype != object and isint(dtype):
                r = r.astype(int)
            if r.dtype.kind == 'f':
                r = toobj(r)
            return r
        return m(f)
    if a in ('zeros', 'empty', 'ones', 'full'):
        def f(ip, shape, *r, dtype=None, **k):
            fill = 1 if a == 'ones' else 0
            if a == 'full':
                fill = num(r[0])
                r = r[1:]
                if fill is None:
                    raise Unsupported('full')
            if r:
                dtype = r[0]
            return zeros_like_shape(shape_of(shape), 'int' if dtype is not None and isint(dtype) else None, fill)
        return m(f)
    if a in ('zeros_like', 'empty_like', 'ones_like'):
        def f(ip, x, dtype=None, **k):
            x = np.asarray(x)
            return zeros_like_shape(x.shape, 'int' if (dtype is None and x.dtype != object) or (dtype is not None and isint(dtype)) else None, 1 if a == 'ones_like' else 0)
        return m(f)
    if a == 'bincount':
        return m(lambda ip, x, weights=None, minlength=0: bincount(x, weights, int(num(minlength))))
    if a in ('sum', 'max', 'min', 'amax', 'amin'):
        def f(ip, x, axis=None, **k):
            if isinstance(x, Obj) and 'array' in x.attrs:
                x = x.attrs['array']()
            x = np.asarray(fix(x))
            if a != 'sum':
                if x.size == 0 and 'initial' not in k:
                    raise PyRaise('ValueError', 'zero-size array to reduction operation which has no identity')
                if x.dtype == object:
                    raise Unsupported('extremum of terms')
                return {'m': np.max, 'n': np.min}['n' if 'min' in a else 'm'](x, axis=axis, **k)
            if x.dtype == object:
                if x.size == 0 and axis is None:
                    return poly(0)
                return np.add.reduce(x if axis is not None else x.ravel(), axis=axis if axis is not None else 0)
            return np.sum(x, axis=axis)
        return m(f)
    if a in ('dot', 'matmul'):
        return m(lambda ip, x, y: ip.binop(ast.MatMult(), np.asarray(fix(x)), np.asarray(fix(y))))
    if a in ('add', 'subtract', 'multiply', 'divide', 'negative', 'true_divide'):
        op = {'add': ast.Add(), 'subtract': ast.Sub(), 'multiply': ast.Mult(), 'divide': ast.Div(), 'true_divide': ast.Div()}.get(a)

        def at(ip, ar, kw):
            dst, idx, v = ar
            if dst.dtype != object and not sym(v):
                {'add': np.add, 'subtract': np.subtract}[a].at(dst, idx, v)
                return None
            idx = np.asarray(idx)
            v = np.broadcast_to(toobj(v), idx.shape + dst.shape[1:])
            for q in range(len(idx)):
                dst[idx[q]] = ip.binop(op, dst[idx[q]], v[q])
            return None

        def call(ip, ar, kw):
            if a == 'negative':
                return ip.binop(ast.Sub(), 0, ar[0])
            return ip.binop(op, *ar[:2])
        o = UFunc(call)
        o.attrs['at'] = Model(at)
        return o
    if a in ('int32', 'int64', 'intc', 'int_', 'intp', 'uint8', 'uint32', 'uint64'):
        return NPType(True)
    if a in ('float64', 'float32', 'double', 'float_'):
        return NPType(False)
    if a == 'newaxis':
        return None
    if a in ('pi', 'inf', 'nan'):
        return getattr(np, a)
    if a == 'ndarray':
        return Opaque('ndarray')
    if a == 'searchsorted':
        return m(lambda ip, x, v, **k: np.searchsorted(np.asarray(x), np.asarray(v), **k) if not (sym(np.asarray(x)) or sym(np.asarray(v))) else ip.no('search in terms'))
    if a == 'einsum':
        def f(ip, s, *xs, **k):
            return np.einsum(s, *[toobj(fix(x)) for x in xs])
        return m(f)
    if a in ('arange', 'reshape', 'ravel', 'transpose', 'concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'repeat', 'tile', 'cumsum', 'diff', 'unique', 'argsort', 'nonzero', 'where',
             'flatnonzero', 'array_equal', 'expand_dims', 'squeeze', 'swapaxes', 'outer', 'trace', 'diag', 'eye', 'identity', 'isin', 'size', 'shape', 'ndim', 'take', 'split', 'insert', 'append',
             'delete', 'flip', 'roll', 'array_split', 'lexsort', 'all', 'any', 'count_nonzero', 'maximum', 'minimum', 'broadcast_to', 'tensordot', 'pad'):
        g = getattr(np, a)

        def f(ip, *ar, **k):
            ar = [fix(x) for x in ar]
            if a in ('unique', 'argsort', 'lexsort', 'isin', 'maximum', 'minimum', 'nonzero', 'flatnonzero', 'where', 'all', 'any', 'count_nonzero', 'array_equal') and any(sym(np.asarray(x)) for x in ar if isarr(x) or isinstance(x, (list, tuple))):
                if a == 'where' and len(ar) == 3 and not sym(np.asarray(ar[0])):
                    return np.where(ar[0], toobj(ar[1]), toobj(ar[2]))
                raise Unsupported('numpy.%s of terms' % a)
            if a in ('eye', 'identity'):
                return toobj(g(*ar, **k))
            return g(*ar, **k)
        return m(f)
    return Opaque('numpy.' + a)


class UFunc(Obj):
    def __init__(self, f):
        Obj.__init__(self, 'ufunc')
        self.f = f

    def __call__(self, *a, **k):
        raise Unsupported('ufunc')


_call0 = PyInterp.call


def _call(self, f, args, kw, node=None):
    if isinstance(f, UFunc):
        return f.f(self, args, kw)
    if isinstance(f, NPType):
        x = args[0]
        return int(num(x)) if f.int and not isarr(x) else x
    return _call0(self, f, args, kw, node)


PyInterp.call = _call


class NPType(Obj):
    def __init__(self, i):
        Obj.__init__(self, 'dtype')
        self.int = i


def isint(d):
    if isinstance(d, NPType):
        return d.int
    if isinstance(d, str):
        return 'int' in d or d == 'i'
    if isinstance(d, Model):
        return True if False else None
    return False


def arr_attr(ip, o, a):
    def m(f):
        return Model(lambda ip, ar, kw: f(*ar, **kw))
    if a in ('shape', 'size', 'ndim', 'T'):
        return getattr(o, a)
    if a == 'dtype':
        return Opaque('dtype')
    if a in ('reshape', 'flatten', 'ravel', 'copy', 'transpose', 'tolist', 'squeeze', 'repeat', 'cumsum', 'argsort', 'item', 'nonzero', 'take', 'swapaxes', 'fill'):
        g = getattr(o, a)
        if a in ('argsort', 'nonzero') and o.dtype == object:
            raise Unsupported(a + ' of terms')

        def f(*ar, **kw):
            try:
                return g(*[ip.intv(x) if isinstance(x, Poly) else x for x in ar], **kw)
            except ValueError as e:
                raise PyRaise('ValueError', str(e))
        return m(f)
    if a in ('numpy', 'detach', 'cpu', 'double', 'contiguous', 'to', 'clone'):
        return m(lambda *ar, **kw: o.copy() if a == 'clone' else o)
    if a == 'unsqueeze':
        return m(lambda d: np.expand_dims(o, d))
    if a == 'view':
        return m(lambda *sh: o.reshape(*sh))
    if a == 'astype':
        return m(lambda t=None, **k: o.astype(int) if o.dtype != object and isint(t) else (o.copy() if o.dtype == object else o))
    if a in ('sum', 'max', 'min', 'dot'):
        return Model(lambda ip, ar, kw: ip.call(npfunc(a), [o] + list(ar), kw))
    if a in ('any', 'all', 'mean'):
        if o.dtype == object:
            raise Unsupported(a + ' of terms')
        return m(getattr(o, a))
    raise Unsupported('array attribute ' + a)
