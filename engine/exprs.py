"""Expression part of the value-graph builder: operators, calls, and the meaning of
the library functions the code uses (standard containers and algorithms, CBLAS)."""
import re
from fractions import Fraction
from terms import *
import terms as T
from values import *
from kvals import Vw, KObj, is_view_t
from frontend import params, body as fbody, where

ITER_RE = re.compile(r'(__normal_iterator|_iterator|iterator|_Self)\b')


def cls(t):
    t = strip_ref(t)
    t = re.sub(r'^(const|volatile|class|struct)\s+', '', t.strip())
    t = re.sub(r'^(const|volatile|class|struct)\s+', '', t.strip())
    t = re.sub(r'\s*const$', '', t)
    return t


def is_vec_t(t):
    t = cls(t)
    return bool(re.match(r'(std::)?(vector|deque|array|basic_string|string)<', t)) or bool(re.search(r'\[\d*\]$', t))


def is_span_t(t):
    return bool(re.match(r'(std::)?span<', cls(t)))


def is_tuple_t(t):
    return bool(re.match(r'(std::)?(tuple|pair)<', cls(t)))


def is_uptr_t(t):
    return bool(re.match(r'(std::)?(unique_ptr|shared_ptr|optional)<', cls(t)))


CMPOPS = ('<', '>', '<=', '>=', '==', '!=')
_lit = {}


def literal(n, tu=None):
    k = id(n)
    if k not in _lit:
        if n.get('kind') in ('IntegerLiteral', 'CXXBoolLiteralExpr'):
            v = True
        elif n.get('kind') == 'DeclRefExpr':
            d = tu.byid.get(n['referencedDecl']['id']) if tu else None
            ks = [c for c in kids(d) if not c.get('kind', '').endswith('Attr')] if d and d.get('kind') == 'VarDecl' else []
            v = bool(ks) and 'const' in tystr(d) and literal(ks[0], tu)
        elif n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ConstantExpr', 'UnaryOperator', 'BinaryOperator'):
            v = bool(kids(n)) and all(literal(c, tu) for c in kids(n))
        else:
            v = False
        _lit[k] = v
    return _lit[k]


_lits = {}


def literals(n, tu=None):
    """values of the numbers in an integer expression (constants resolved)"""
    k = id(n)
    if k not in _lits:
        out = []
        kd = n.get('kind')
        if kd == 'IntegerLiteral':
            out = [int(n['value'])]
        elif kd == 'DeclRefExpr':
            d = tu.byid.get(n['referencedDecl']['id']) if tu else None
            if d is not None and literal(n, tu):
                for c in kids(d):
                    out += literals(c, tu)
        elif kd in ('LambdaExpr', 'CallExpr', 'CXXMemberCallExpr', 'ArraySubscriptExpr', 'CXXOperatorCallExpr'):
            out = []
        else:
            for c in kids(n):
                out += literals(c, tu)
        _lits[k] = out
    return _lits[k]


def is_map_t(t):
    return bool(re.match(r'(std::)?(map|unordered_map|set|unordered_set|multimap)<', cls(t)))


def is_iter_t(t):
    return 'iterator' in cls(t) or cls(t).endswith('_Self')


def targ(t):
    """first template argument of a type"""
    t = cls(t)
    i = t.find('<')
    if i < 0:
        return ''
    d = 0
    out = ''
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            break
        out += ch
    return out.strip()


MATH1 = {'sin', 'cos', 'tan', 'tanh', 'log', 'acos', 'asin', 'atan', 'sinh', 'cosh', 'erf', 'cbrt', 'log2', 'log10', 'expm1', 'log1p', 'isnan', 'isinf', 'isfinite'}


class ExprMixin:
    # ------------------------------------------------------------ small helpers
    def rv(self, n):
        """scalar / pointer value of an expression"""
        v = self.ev(n)
        return self.val(v, tystr(n))

    def val(self, v, ty=''):
        if isinstance(v, Loc):
            v = self.load(v, ty)
        return v

    def num(self, n):
        v = self.rv(n)
        if isinstance(v, Poly):
            return v
        if isinstance(v, Loc):
            return self.unsup('aggregate used as a number', n)
        if v is None or not isinstance(v, (Ptr,)):
            return self.unsup('non-numeric value', n)
        return self.unsup('pointer used as a number', n)

    def span_of(self, loc):
        if isinstance(loc, Ptr):
            return loc if loc.size is not None else None
        if isinstance(loc, Loc) and not loc.path:
            v = self.st.cells.get(loc.root)
            if isinstance(v, Ptr) and v.size is not None:
                return v
        return None

    def to_span(self, v):
        s = self.span_of(v)
        if s is not None:
            return s
        if isinstance(v, Loc):
            return Ptr(v.root, v.path, ZERO, size=self.container_size(v))
        return v

    def container_size(self, v):
        s = self.span_of(v)
        if s is not None:
            return s.size
        if isinstance(v, Tup):
            return poly(len(v.v))
        if not isinstance(v, Loc):
            return self.unsup('size of unknown')
        r = self.load(v.sub('#n'), 'int')
        return r if isinstance(r, Poly) else self.unsup('size of unknown')

    def set_size(self, loc, n):
        if not self.discover:
            self.grow(loc, n)
        self.store(loc.sub('#n'), n)

    def block(self, p):
        """points into a block of storage of its own (an array of the caller, an allocation)"""
        if p.root in self.kmem:
            return len(self.kmem[p.root]) > 0
        n = self.st.cells.get(p.root + '.#n')
        return p.root.startswith('arg.') and not p.path and isinstance(n, Poly) and bool(n.const())

    def grow(self, loc, n):
        """largest size a vector has had: what its allocation holds"""
        k = loc.sub('#n')
        k = (k.root, k.path)
        old = self.caps.get(k, 0)
        if old is not None:
            if k not in self.caps and loc.root.startswith('this.'):
                self.mute += 1
                z = self.load(loc.sub('#n'), 'int')
                self.mute -= 1
                c = z.const() if isinstance(z, Poly) else None
                old = int(c) if c is not None else 0
            c = n.const() if isinstance(n, Poly) else None
            self.caps[k] = max(old, int(c)) if c is not None else None

    def tmp(self):
        return Loc(self.newroot('tmp'))

    def data(self, v):
        """pointer to the first element of a container / span / array"""
        s = self.span_of(v)
        if s is not None:
            return Ptr(s.root, s.path, s.off)
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Loc):
            if not v.path:
                c = self.st.cells.get(v.root)
                if isinstance(c, Ptr):
                    return c
            return Ptr(v.root, v.path, ZERO)
        raise Unsupported('data of unknown')

    def par(self, counts, f, kind='set', node=None):
        """quantified element-wise update; f(binders...) -> (root, path, value)"""
        if self.discover:
            r, p, v = f(*[poly(Atom('d', 'k', ())) for _ in counts])
            for li in self.dstack:
                li.roots.add(r)
            return
        consts = [c.const() for c in counts]
        if all(c is not None for c in consts):
            tot = 1
            for c in consts:
                tot *= max(int(c), 0)
            if tot <= self.unroll * self.unroll:
                idx = [[]]
                for c in consts:
                    idx = [i + [poly(k)] for i in idx for k in range(int(c))]
                ups = [f(*i) for i in idx]
                for r, p, v in ups:
                    self.push(r, Rec(kind, (), self.st.guard, p, v, None, where(node) if node else None))
                return
        bs = []
        self.nloop += 1
        lid = 'P%d' % self.nloop
        loops = []
        args = []
        for j, c in enumerate(counts):
            if c.const() == 1:
                args.append(ZERO)
                continue
            b = fresh()
            RANGE[b] = c
            args.append(bvar(b))
            loops.append((b, c, 'asc', '%s_%d' % (lid, j)))
        r, p, v = f(*args)
        nonempty = ONE
        self.push(r, Rec(kind, tuple(loops), self.st.guard, p, v, None, where(node) if node else None))

    def ssum(self, n, f):
        c = n.const()
        if c is not None and c <= self.unroll:
            r = ZERO
            for i in range(int(c)):
                r = r + f(poly(i))
            return r
        b = fresh()
        RANGE[b] = n
        v = f(bvar(b))
        # remember the term-level binder so enclosing loops can fix it up
        return sum1(b, n, v)

    def has_placeholder(self, t):
        return any(a.kind in ('defer', 'phi') for a in all_atoms(t))

    def elem(self, p, i):
        v = self.load(p.at(i), 'double')
        return v

    # ------------------------------------------------------------ dispatch
    def ev(self, n):
        k = n.get('kind')
        if k in SKIP and k != 'CXXDefaultInitExpr':
            return self.ev(kids(n)[0])
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.unsup('expression ' + str(k), n)
        return m(n)

    def e_IntegerLiteral(self, n):
        return poly(int(n['value']))

    def e_CharacterLiteral(self, n):
        return poly(int(n['value']))

    def e_FloatingLiteral(self, n):
        return poly(Fraction(n['value']))

    def e_CXXBoolLiteralExpr(self, n):
        return ONE if n['value'] else ZERO

    def e_CXXNullPtrLiteralExpr(self, n):
        return Ptr('%null', (), ZERO, obj=True)

    def e_GNUNullExpr(self, n):
        return Ptr('%null', (), ZERO, obj=True)

    def e_StringLiteral(self, n):
        return Str(n.get('value', '').strip('"'))

    def e_CXXThisExpr(self, n):
        return self.frames[-1].this

    def e_CXXScalarValueInitExpr(self, n):
        return ZERO

    def e_ImplicitValueInitExpr(self, n):
        return ZERO

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = (n.get('argType') or {}).get('qualType')
            if t is None and kids(n):
                t = tystr(kids(n)[0])
            t = cls(t or '')
            sz = {'double': 8, 'int': 4, 'float': 4, 'long': 8, 'char': 1}.get(t)
            if sz:
                return poly(sz)
            return var('sizeof(%s)' % t)
        return self.unsup('sizeof', n)

    def e_CXXDefaultInitExpr(self, n):
        ks = kids(n)
        if ks:
            return self.ev(ks[0])
        return self.unsup('default member initialiser', n)

    def e_CXXDefaultArgExpr(self, n):
        return None

    def e_ConditionalOperator(self, n):
        c, a, b = kids(n)
        cv = boolify(self.num(c))
        if not self.discover:
            cv = self.simp(cv)
            seen(n, '?:', 1 if cv == ONE else 0 if cv.is_zero() else 2)
        if cv == ONE:
            return self.ev(a)
        if cv.is_zero():
            return self.ev(b)
        x, y = self.ev(a), self.ev(b)
        if isinstance(x, Loc) and isinstance(y, Loc) and not (is_scalar_t(tystr(n)) or is_ptr_t(tystr(n))):
            return self.unsup('conditional between objects', n)
        x, y = self.val(x, tystr(n)), self.val(y, tystr(n))
        return self.merge_val(cv, x, y)

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        fr = self.frames[-1]
        k = d.get('kind')
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'DecompositionDecl'):
            l = fr.env.get(d['id'])
            if l is not None:
                return l
            # a global or static member constant
            node = fr.tu.byid.get(d['id'])
            if node is not None and k == 'VarDecl':
                ini = [c for c in kids(node) if not c.get('kind', '').endswith('Attr')]
                t = tystr(node)
                if ini and ('const' in t or node.get('constexpr')):
                    return self.ev(ini[0])
                if d.get('name'):
                    return Loc('global.' + d['name'])
            if d.get('name'):
                if node is None:
                    return Loc('global.' + d['name'])
            return self.unsup('reference to ' + str(d.get('name')), n)
        if k == 'EnumConstantDecl':
            v = self.enum_value(d['id']) if not d.get('name', '').startswith('Cblas') else None
            return poly(v) if v is not None else Str(d.get('name', '?'))
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return FnRef(fr.tu, d)
        if k == 'NonTypeTemplateParmDecl':
            return var(d.get('name', '?'))
        return self.unsup('reference to ' + str(k), n)

    def enum_value(self, did):
        fr = self.frames[-1]
        node = fr.tu.byid.get(did)
        par = fr.tu.parent.get(did) if node is not None else None
        if par is None or par.get('kind') != 'EnumDecl':
            return None
        v = -1
        for c in kids(par):
            if c.get('kind') != 'EnumConstantDecl':
                continue
            v += 1
            ks = kids(c)
            if ks:
                x = ks[0]
                while 'value' not in x and kids(x):
                    x = kids(x)[0]
                if 'value' not in x:
                    return None
                v = int(x['value'])
            if c.get('id') == did:
                return v
        return None

    def e_MemberExpr(self, n):
        ks = kids(n)
        name = n.get('name', '')
        fr = self.frames[-1]
        did = n.get('referencedMemberDecl')
        node = fr.tu.byid.get(did)
        if node is not None and node.get('kind') == 'VarDecl':
            ini = [c for c in kids(node) if not c.get('kind', '').endswith('Attr')]
            if ini:
                return self.ev(ini[0])
        if node is not None and node.get('kind') == 'EnumConstantDecl':
            v = self.enum_value(did)
            return poly(v) if v is not None else Str(name)
        b = self.ev(ks[0])
        if n.get('isArrow'):
            if isinstance(b, Loc):
                if is_ptr_t(tystr(ks[0])):
                    b = self.load(b, tystr(ks[0]))
            if isinstance(b, Ptr):
                b = b.at()
        if isinstance(b, Ptr) and b.obj:
            b = b.at()
        if isinstance(b, Tup) and name in ('first', 'second'):
            return b.v[0 if name == 'first' else 1]
        if isinstance(b, Loc):
            if not b.path:
                sv = self.st.cells.get(b.root)
                if isinstance(sv, Tup) and name in ('first', 'second'):
                    return sv.v[0 if name == 'first' else 1]
                if isinstance(sv, Ptr) and sv.obj and sv.size is None:
                    b = sv.at()
            if name in ('first', 'second') and b.root in self.mapsnap and len(b.path) == 1 and not isinstance(b.path[0], str):
                i = b.path[0].const()
                m, keys = self.mapsnap[b.root]
                if i is None or not 0 <= i < len(keys):
                    raise Unsupported('map element outside the map')
                return b if name == 'first' else self.ord_val(m, keys[int(i)])
            if name in ('first', 'second') and not self.class_of_type(cls(tystr(ks[0]))):
                return b.sub('_0' if name == 'first' else '_1')
            return b.sub(name)
        return self.unsup('member of unknown', n)

    def e_ArraySubscriptExpr(self, n):
        a, b = kids(n)
        if not is_ptr_t(tystr(a)) and is_ptr_t(tystr(b)):
            a, b = b, a
        p = self.rv(a)
        i = self.num(b)
        if isinstance(p, Loc):
            p = self.data(p)
        if isinstance(p, Ptr):
            return p.at(i)
        return self.unsup('subscript of unknown', n)

    def e_ParenExpr(self, n):
        return self.ev(kids(n)[0])

    # ------------------------------------------------------------ casts
    def cast(self, n):
        ck = n.get('castKind')
        c = kids(n)[0]
        t = tystr(n)
        if ck == 'LValueToRValue':
            v = self.ev(c)
            if isinstance(v, Loc):
                if is_scalar_t(t) or is_ptr_t(t) or not (is_vec_t(t) or is_span_t(t) or is_tuple_t(t)):
                    if not is_scalar_t(t) and not is_ptr_t(t):
                        if v.path or v.root not in self.st.cells:
                            if self.class_of_type(cls(t)) or is_uptr_t(t) or is_map_t(t):
                                return v
                    return self.load(v, t)
            return v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UncheckedDerivedToBase', 'DerivedToBase',
                  'BitCast', 'BaseToDerived', 'UserDefinedConversion', 'Dependent', 'BuiltinFnToFnPtr', 'LValueBitCast'):
            return self.ev(c)
        if ck in ('IntegralCast', 'IntegralToFloating'):
            if is_bool_t(t):
                return boolify(self.num(c))
            v = self.rv(c)
            return v
        if ck == 'FloatingCast':
            v = self.num(c)
            if cls(t) == 'float' and cls(tystr(c)) != 'float':
                k = v.const()
                if k is not None and Fraction(k).denominator & (Fraction(k).denominator - 1) == 0 and abs(k) < 2 ** 20:
                    return v
                return poly(Atom('f32', v))
            return v
        if ck == 'FloatingToIntegral':
            return trunc_(self.num(c))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return boolify(self.num(c))
        if ck == 'PointerToBoolean':
            v = self.rv(c)
            if isinstance(v, Ptr):
                if v.root == '%null':
                    return ZERO
                return poly(Atom('bvar', 'nonnull(%s)' % v.root))
            return self.unsup('pointer test', n)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(c)
            if isinstance(v, Str):
                return v
            if isinstance(v, Tup):
                r = self.tmp()
                self.init_array(r, v, tystr(c))
                v = r
            return self.data(v)
        if ck == 'NullToPointer':
            return Ptr('%null', (), ZERO, obj=True)
        if ck == 'ToVoid':
            self.ev(c)
            return None
        return self.unsup('cast ' + str(ck), n)

    e_ImplicitCastExpr = cast
    e_CXXStaticCastExpr = cast
    e_CXXFunctionalCastExpr = cast
    e_CStyleCastExpr = cast
    e_CXXConstCastExpr = cast
    e_CXXReinterpretCastExpr = cast
    e_CXXDynamicCastExpr = cast

    # ------------------------------------------------------------ operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        c = kids(n)[0]
        if op in ('++', '--'):
            l = self.ev(c)
            d = ONE if op == '++' else poly(-1)
            if not isinstance(l, Loc):
                return self.unsup('increment', n)
            old = self.load(l, tystr(c))
            new = self.binop('+', old, d)
            if l.path:
                self.store(l, d, 'add', n)
            else:
                self.store(l, new, node=n)
            return old if n.get('isPostfix') else l
        if op == '-':
            return -self.num(c)
        if op == '+':
            return self.num(c)
        if op == '!':
            return ONE - boolify(self.num(c))
        if op == '*':
            p = self.rv(c)
            if isinstance(p, Loc):
                return p
            if isinstance(p, Ptr):
                return p.at()
            return self.unsup('dereference', n)
        if op == '&':
            v = self.ev(c)
            return self.addr(v, n)
        if op == '__extension__':
            return self.ev(c)
        return self.unsup('unary ' + op, n)

    def addr(self, v, n=None):
        if isinstance(v, Loc):
            if v.path and not isinstance(v.path[-1], str):
                return Ptr(v.root, v.path[:-1], v.path[-1])
            return Ptr(v.root, v.path, ZERO, obj=True)
        if isinstance(v, FnRef):
            return v
        return self.unsup('address of value', n)

    def binop(self, op, a, b, is_int=False, node=None):
        if isinstance(a, Ptr) and isinstance(b, Poly):
            if op == '+':
                return a.plus(b)
            if op == '-':
                return a.plus(-b)
        if isinstance(b, Ptr) and isinstance(a, Poly) and op == '+':
            return b.plus(a)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op in ('==', '!=') and '%null' in (a.root, b.root):
                o = b if a.root == '%null' else a
                if o.root == '%null':
                    r = ONE
                elif self.block(o):
                    r = ZERO
                else:
                    r = ONE - poly(Atom('bvar', 'nonnull(%s)' % o.root))
                return r if op == '==' else ONE - r
            if a.root == b.root and a.path == b.path:
                if op == '-':
                    return a.off - b.off
                return self.binop(op, a.off, b.off, True, node)
            if op in ('==', '!=') and a.root != b.root and self.block(a) and self.block(b):
                return ZERO if op == '==' else ONE
            return self.unsup('pointer arithmetic between objects', node)
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(a, Str) and isinstance(b, Str) and op in ('==', '!='):
                if not any(x.s == '?' or x.s.startswith('<') or 'str(' in x.s for x in (a, b)):
                    r = ONE if a.s == b.s else ZERO
                    return r if op == '==' else ONE - r
            ka = a.s if isinstance(a, Str) else repr(a)
            kb = b.s if isinstance(b, Str) else repr(b)
            if op in ('==', '!='):
                ka, kb = sorted((ka, kb))
                r = poly(Atom('bvar', 'same(%s,%s)' % (ka, kb)))
                return r if op == '==' else ONE - r
            if op == '+':
                return Str('?')
            return self.unsup('string operator', node)
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            return self.unsup('operator %s on objects' % op, node)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if is_int:
                if b.is_zero():
                    return self.unsup('division by zero', node)
                from interp import idiv_s
                return idiv_s(a, b) if not self.discover else idiv(a, b)
            if b.is_zero():
                return self.unsup('division by zero', node)
            return a / b
        if op == '%':
            if b.is_zero():
                return self.unsup('division by zero', node)
            from interp import idiv_s
            return a - b * idiv_s(a, b)
        if op == '<':
            return lt0(a - b, is_int)
        if op == '>':
            return lt0(b - a, is_int)
        if op == '<=':
            return le0(a - b, is_int)
        if op == '>=':
            return le0(b - a, is_int)
        if op == '==':
            return eq0(a - b)
        if op == '!=':
            return ONE - eq0(a - b)
        if op == '<<':
            k = b.const()
            if k is not None:
                return a * poly(2 ** int(k))
        if op in ('&', '|', '^', '>>'):
            x, y = a.const(), b.const()
            if x is not None and y is not None and x == int(x) and y == int(y):
                x, y = int(x), int(y)
                return poly({'&': x & y, '|': x | y, '^': x ^ y, '>>': x >> y if op == '>>' and y >= 0 else 0}[op])
        if op == '&' and T.is_boolean(a) and T.is_boolean(b):
            return a * b
        if op == '|' and T.is_boolean(a) and T.is_boolean(b):
            return a + b - a * b
        return self.unsup('operator ' + op, node)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = kids(n)
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op == '=':
            v = self.rv(b)
            l = self.ev(a)
            return self.assign(l, v, tystr(a), n)
        if op in ('&&', '||'):
            x = boolify(self.num(a))
            if not self.discover:
                x = self.simp(x)
            if x.is_zero() and op == '&&':
                return ZERO
            if x == ONE and op == '||':
                return ONE
            y = boolify(self.num(b))
            if not self.discover:
                y = self.simp(y)
            return x * y if op == '&&' else x + y - x * y
        x, y = self.rv(a), self.rv(b)
        ints = is_int_t(tystr(a)) and is_int_t(tystr(b))
        r = self.binop(op, x, y, ints, n)
        if ints and not self.discover and op in CMPOPS and isinstance(r, Poly):
            self.threshold(n, a, b, x, y, r)
        elif ints and op in ('/', '%', '>>', '&'):
            self.step_size(n, op, x, b, y)
        return r

    def threshold(self, n, a, b, x, y, r):
        """comparison of a size of the configuration with a number of the program"""
        k = self.number_in(a, b)
        if k:
            c = r.const()
            seen(n, 'cmp %d' % k[0], 2 if c is None else int(c))

    def number_in(self, *ns):
        """the largest number of the program inside the operands, unless they are all numbers"""
        tu = self.frames[-1].tu
        if all(literal(a, tu) for a in ns):
            return None
        out = []
        for a in ns:
            out += literals(a, tu)
        return [max(out)] if out else None

    def step_size(self, n, op, x, b, y):
        """division or shift of a size of the configuration by a number of the program"""
        if self.discover or not isinstance(x, Poly) or not isinstance(y, Poly) or not literal(b, self.frames[-1].tu):
            return
        c, k = x.const(), y.const()
        if c is None or k is None:
            return
        k = 2 ** int(k) if op == '>>' else int(k)
        if op == '&':
            k = k + 1
        seen(n, 'cmp %d' % k, 1 if c >= k else 0)

    def e_CXXRewrittenBinaryOperator(self, n):
        return self.ev(kids(n)[0])

    def assign(self, l, v, ty, n):
        if not isinstance(l, Loc):
            return self.unsup('assignment target', n)
        if isinstance(v, Loc):
            self.copy_object(l, v)
            return l
        if l.root.startswith('%k') or l.root.startswith('%oob') or isinstance(v, (Vw, KObj)):
            self.store(l, v, node=n)
            return l
        if isinstance(v, Poly) and l.path and not self.discover:
            old = self.load(l, ty)
            if isinstance(old, Poly) and len(old.t) == 1:
                (m, c), = old.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and v.t.get(m) == 1 and m[0][0].kind in ('defer', 'read', 'cur'):
                    d = v - old
                    if not mentions(d, m[0][0]):
                        self.store(l, d, 'add', n)
                        return l
        self.store(l, v, node=n)
        return l

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = kids(n)
        v = self.rv(b)
        l = self.ev(a)
        if isinstance(l, Ptr) and l.obj:
            l = l.at()
        if not isinstance(l, Loc):
            return self.unsup('compound assignment target', n)
        if l.path and op in ('+', '-') and isinstance(v, Poly) and not is_ptr_t(tystr(a)):
            self.store(l, v if op == '+' else -v, 'add', n)
            return l
        old = self.load(l, tystr(a))
        ints = is_int_t(tystr(a)) and is_int_t(tystr(b))
        if op == '|' and isinstance(old, Poly) and isinstance(v, Poly):
            new = self.binop(op, old, v, ints, n)
        else:
            new = self.binop(op, old, v, ints, n)
            if is_int_t(tystr(a)) and not ints and isinstance(new, Poly):
                new = trunc_(new)
        self.store(l, new, node=n)
        return l

    # ------------------------------------------------------------ aggregates
    def e_InitListExpr(self, n):
        t = tystr(n)
        ks = kids(n)
        if n.get('array_filler'):
            af = [c for c in n['array_filler'] if isinstance(c, dict) and c and c.get('kind') != 'ImplicitValueInitExpr']
            ks = af if not ks else ks
        vals = []
        for c in ks:
            v = self.ev(c)
            if is_scalar_t(tystr(c)) or is_ptr_t(tystr(c)):
                v = self.val(v, tystr(c))
            vals.append(v)
        if is_scalar_t(t):
            return vals[0] if vals else ZERO
        # std::array<T,N>{{...}} : strip the inner brace level
        if re.match(r'(std::)?array<', cls(t)) and len(vals) == 1 and isinstance(vals[0], Tup):
            return vals[0]
        return Tup(vals)

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(kids(n)[0])

    def e_CXXConstructExpr(self, n):
        t = tystr(n)
        ct = n.get('ctorType', {}).get('qualType', '')
        ks = [c for c in kids(n) if c.get('kind') != 'CXXDefaultArgExpr']
        return self.construct(t, ct, ks, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXInheritedCtorInitExpr(self, n):
        return None

    def construct(self, t, ct, ks, n):
        c = cls(t)
        if c.startswith('Kokkos') or is_view_t(c):
            v = self.k_construct(c, ct, ks, n)
            if v is not NotImplemented:
                return v
        if is_span_t(c) or (not is_vec_t(c) and re.match(r'(std::)?span<', targ(c) or '') and False):
            if not ks:
                return Ptr('%null', (), ZERO, size=ZERO)
            v = self.ev(ks[0])
            if len(ks) == 1:
                return self.to_span(v)
            p = self.val(v, tystr(ks[0])) if not isinstance(v, Ptr) else v
            q = self.rv(ks[1])
            if isinstance(p, Loc):
                p = self.data(p)
            if isinstance(q, Ptr):
                q = q.off - p.off
            if isinstance(p, Ptr) and isinstance(q, Poly):
                return Ptr(p.root, p.path, p.off, size=q)
            return self.unsup('span construction', n)
        if is_tuple_t(c):
            if len(ks) == 1 and ('tuple<' in ct or 'pair<' in ct) and is_tuple_t(tystr(ks[0])):
                v = self.ev(ks[0])
                if isinstance(v, Loc) and not v.path and isinstance(self.st.cells.get(v.root), Tup):
                    return self.detach(v)
                return v
            vals = []
            for k in ks:
                v = self.ev(k)
                if is_scalar_t(tystr(k)) or is_ptr_t(tystr(k)):
                    v = self.val(v, tystr(k))
                vals.append(self.detach(v))
            return Tup(vals)
        if c.startswith('__gnu_cxx::__normal_iterator') or is_iter_t(c) and not is_vec_t(c):
            if ks:
                return self.rv(ks[0])
        if re.match(r'(std::)?(basic_)?string\b', c) or c in ('std::string', 'string'):
            if not ks:
                return Str('')
            v = self.ev(ks[0])
            if isinstance(v, Loc):
                sv = self.st.cells.get(v.root) if not v.path else None
                return sv if isinstance(sv, Str) else (v if self.is_entry_root(v.root) else Str('?'))
            return v if isinstance(v, Str) else Str('?')
        if is_vec_t(c):
            return self.construct_vec(c, ct, ks, n)
        if is_map_t(c) and self.unroll >= 50 and not self.discover and not (ks and 'json' in tystr(ks[0])):
            if not (len(ks) == 1 and is_map_t(tystr(ks[0]))):
                return self.ord_new(c, self.tmp(), ks, n)
        if is_uptr_t(c) or is_map_t(c):
            if not ks:
                r = self.tmp()
                if is_map_t(c):
                    self.set_size(r, ZERO)
                return r
            v = self.ev(ks[0])
            if is_uptr_t(c) and is_ptr_t(tystr(ks[0])):
                v = self.val(v, tystr(ks[0]))
                if isinstance(v, Ptr) and v.obj:
                    return v.at()
            return v
        # a class of the repository
        k = self.class_of_type(c)
        if k is not None:
            if len(ks) == 1 and cls(tystr(ks[0])) == c:
                return self.ev(ks[0])          # copy / move
            args = [self.ev(x) for x in ks]
            args = [self.val(a, tystr(x)) if is_scalar_t(tystr(x)) or is_ptr_t(tystr(x)) else a for a, x in zip(args, ks)]
            return self.construct_class(c, ct, args, n)
        if c.startswith('(lambda'):
            return self.ev(ks[0]) if ks else None
        if 'function<' in c and ks:
            return self.ev(ks[0])
        if not ks:
            return self.tmp()
        if re.match(r'(std::)?(basic_)?[io]?f?stream', c):
            return self.tmp()
        q = 'ctor ' + c
        for k in ks:
            self.ev(k)
        return self.unsup('construction of ' + c, n)

    def construct_class(self, c, ct, args, n):
        q = c + '::' + c.split('::')[-1]
        if q in self.models:
            return self.models[q](self, None, args, n)
        if q not in self.prog.byqual and '<' in c:
            q = c + '::' + re.sub(r'<.*', '', c).split('::')[-1]
        cands = [x for x in self.prog.byqual.get(q, []) if x[1].get('kind') == 'CXXConstructorDecl']
        c2 = [x for x in cands if x[1]['type']['qualType'] == ct]
        if not c2:
            c2 = [x for x in cands if len(params(x[1])) == len(args)]
        r = self.tmp()
        if not c2:
            if not args:
                return r
            return self.unsup('constructor of ' + c, n)
        self.calls.append((q, where(n)))
        self.call_function(c2[0][0], c2[0][1], args, Ptr(r.root, (), ZERO, obj=True), n)
        return r

    def construct_vec(self, c, ct, ks, n):
        et = targ(c)
        r = self.tmp()
        isarr = bool(re.match(r'(std::)?array<', c))
        if isarr:
            m = re.search(r',\s*(\d+)[UuLl]*\s*>$', c)
            if ks:
                return self.ev(ks[0])
            if m:
                self.set_size(r, poly(int(m.group(1))))
            return r
        if not ks:
            self.set_size(r, ZERO)
            return r
        a0 = self.ev(ks[0])
        if isinstance(a0, Tup):
            self.init_vec(r, a0)
            return r
        if len(ks) == 1:
            if 'vector<' in tystr(ks[0]) or is_vec_t(tystr(ks[0])):
                if isinstance(a0, Loc):
                    if self.is_temp(a0):
                        return a0
                    self.copy_object(r, a0)
                    return r
            a0 = self.val(a0, 'int')
            if isinstance(a0, Poly):
                self.set_size(r, a0)
                if is_scalar_t(et):
                    self.defaults[r.root] = ('fill', ZERO)
                else:
                    self.defaults[r.root] = ('fill', ZERO)
                return r
            return self.unsup('vector construction', n)
        a0 = self.val(a0, tystr(ks[0]))
        a1 = self.ev(ks[1])
        if isinstance(a0, Poly):
            self.set_size(r, a0)
            if is_scalar_t(et):
                v = self.val(a1, et)
                if isinstance(v, Poly):
                    self.fill_root(r, v)
                    return r
            elif isinstance(a1, Loc):
                if self.discover:
                    return r
                b = fresh()
                RANGE[b] = a0
                snap = Snap(a1.root, a1.path, self.st.fork())
                self.nloop += 1
                self.push(r.root, Rec('copy', ((b, a0, 'asc', 'P%d' % self.nloop),), self.st.guard, (bvar(b),), None, snap, where(n)))
                return r
            return self.unsup('vector construction', n)
        a1 = self.val(a1, tystr(ks[1]))
        if isinstance(a0, Ptr) and isinstance(a1, Ptr) and a0.root == a1.root and a0.path == a1.path:
            cnt = a1.off - a0.off
            self.set_size(r, cnt)
            if is_scalar_t(et) and a0.root in self.kmem and cnt.const() is not None:
                for i, v in enumerate([self.load(a0.at(poly(i)), et) for i in range(int(cnt.const()))]):
                    self.muted(self.store, r.sub(poly(i)), v, node=n)
                return r
            if is_scalar_t(et):
                self.par([cnt], lambda i: (r.root, r.path + (i,), self.elem(a0, i)), node=n)
                return r
            if cnt.const() is not None and cnt.const() <= 4 * self.unroll:
                for i in range(int(cnt.const())):
                    self.copy_object(r.sub(poly(i)), a0.at(poly(i)))
                return r
        return self.unsup('vector construction', n)

    def fill_root(self, r, v):
        if v.is_const() and not r.path:
            self.defaults[r.root] = ('fill', v)
        else:
            if r.path:
                self.push(r.root, Rec('fill', (), self.st.guard, r.path, v, None, None))
            else:
                self.push(r.root, Rec('fill', (), self.st.guard, (), v, None, None))

    def muted(self, f, *a, **k):
        """a library operation that grows a container writes beyond its old size"""
        self.mute += 1
        try:
            return f(*a, **k)
        finally:
            self.mute -= 1

    def init_vec(self, r, tup):
        self.muted(self.init_vec_, r, tup)

    def init_vec_(self, r, tup):
        for i, x in enumerate(tup.v):
            e = r.sub(poly(i))
            if isinstance(x, Tup):
                self.init_vec(e, x)
            elif isinstance(x, Loc):
                self.copy_object(e, x)
            else:
                self.store(e, x)
        self.set_size(r, poly(len(tup.v)))

    # ------------------------------------------------------------ constructors
    def ctor_init(self, c, fr):
        ai = c.get('anyInit')
        if not ai:
            if c.get('delegatingInit') or c.get('baseInit'):
                ks = kids(c)
                if c.get('delegatingInit') and ks:
                    self.delegate(ks[0], fr)
            return
        ks = kids(c)
        if not ks:
            return
        name = ai.get('name')
        this = fr.this.at()
        ft = ai.get('type', {}).get('desugaredQualType') or ai.get('type', {}).get('qualType', '')
        e = ks[0]
        if skip(e).get('kind') == 'CXXDefaultInitExpr' and not kids(skip(e)):
            f = fr.tu.byid.get(ai.get('id'))
            e2 = [x for x in kids(f) if not x.get('kind', '').endswith('Attr')] if f else []
            if not e2:
                return
            e = e2[0]
        v = self.ev(e)
        self.assign_into(this.sub(name), v, ft)

    def delegate(self, e, fr):
        e = skip(e)
        if e.get('kind') != 'CXXConstructExpr':
            self.unsup('delegating constructor', e)
            return
        c = cls(tystr(e))
        ct = e.get('ctorType', {}).get('qualType', '')
        ks = [x for x in kids(e) if x.get('kind') != 'CXXDefaultArgExpr']
        args = [self.ev(x) for x in ks]
        args = [self.val(a, tystr(x)) if is_scalar_t(tystr(x)) or is_ptr_t(tystr(x)) else a for a, x in zip(args, ks)]
        q = c + '::' + c.split('::')[-1]
        cands = [x for x in self.prog.byqual.get(q, []) if x[1]['type']['qualType'] == ct]
        if cands:
            self.call_function(cands[0][0], cands[0][1], args, fr.this, e)
        else:
            self.unsup('delegating constructor', e)

    def default_member_inits(self, fr):
        pass

    def assign_into(self, loc, v, ty):
        if isinstance(v, Loc):
            if is_scalar_t(ty) or is_ptr_t(ty):
                self.store(loc, self.load(v, ty))
                return
            sv = self.st.cells.get(v.root) if not v.path else None
            if isinstance(sv, (Ptr, Str, Tup, Clo, Vw, KObj)):
                self.store(loc, sv)
                return
            self.copy_object(loc, v)
            return
        if isinstance(v, Tup):
            self.init_array(loc, v, ty)
            return
        if v is None:
            return
        self.store(loc, v)

    # ------------------------------------------------------------ throw / new / lambda
    def e_CXXThrowExpr(self, n):
        ks = kids(n)
        t = cls(tystr(ks[0])) if ks else 'rethrow'
        self.record_throw(t, n)
        return None

    def record_throw(self, t, n):
        if not self.discover:
            self.throws.append([self.st.guard, (), t, where(n)])
        s = self.st.fork()
        s.alive = False
        self.st = s

    def e_CXXNewExpr(self, n):
        c = cls(tystr(n)).rstrip('*').strip()
        ks = [skip(k) for k in kids(n)]
        if not n.get('isArray') and self.class_of_type(c) and len(ks) == 1 and ks[0].get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            r = self.ev(ks[0])
            if isinstance(r, Loc):
                return self.addr(r)
        return self.unsup('new', n)

    def e_CXXDeleteExpr(self, n):
        return None

    def e_LambdaExpr(self, n):
        fr = self.frames[-1]
        rec = [c for c in kids(n) if c.get('kind') == 'CXXRecordDecl'][0]
        op = None
        for c in kids(rec):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
            if c.get('kind') == 'FunctionTemplateDecl':
                op = op or c
        return Clo(fr.tu, op, fr.env, fr.this)

    def call_closure(self, clo, args, node, decl=None):
        op = clo.node
        if op.get('kind') == 'FunctionTemplateDecl':
            op2 = clo.tu.byid.get(decl) if decl else None
            if op2 is None or fbody(op2) is None:
                cands = [c for c in kids(op) if c.get('kind') == 'CXXMethodDecl' and fbody(c) is not None]
                op2 = cands[-1] if cands else None
            if op2 is None:
                return self.unsup('generic lambda', node)
            op = op2
        if len(self.frames) >= self.depth:
            return self.unsup('call depth', node)
        return self.call_function(clo.tu, op, args, clo.this, node, env=clo.env)

    # ------------------------------------------------------------ calls
    def args_of(self, nodes):
        out = []
        for a in nodes:
            v = self.ev(a)
            t = tystr(a)
            # scalar lvalues stay locations when bound to references
            out.append(v)
        return out

    def lookup_def(self, decl_id):
        fr = self.frames[-1]
        d = fr.tu.byid.get(decl_id)
        if d is None:
            return None
        m = d.get('mangledName') or d.get('id')
        x = self.prog.defs.get(m)
        if x is not None:
            return x
        if fbody(d) is not None:
            return (fr.tu, d)
        return None

    def qual_of(self, tu, d):
        return tu.qual.get(d.get('id'), d.get('name', ''))

    def e_CallExpr(self, n):
        ks = kids(n)
        cal = skip(ks[0])
        an = [a for a in ks[1:]]
        if cal.get('kind') == 'DeclRefExpr':
            d = cal['referencedDecl']
            fr = self.frames[-1]
            if d.get('kind') in ('VarDecl', 'ParmVarDecl'):
                f = self.ev(cal)
                f = self.val(f)
                return self.call_value(f, an, n)
            node = fr.tu.byid.get(d['id'])
            q = self.qual_of(fr.tu, node) if node is not None else d.get('name', '')
            if q in self.models:
                return self.models[q](self, None, self.args_of(an), n)
            x = self.lookup_def(d['id'])
            if x is not None and not self.opaque(q):
                self.calls.append((q, where(n)))
                return self.call_function(x[0], x[1], self.args_of(an), None, n)
            if q.startswith('cblas_'):
                return self.std_call(q, d, an, n, cal)
            if node is not None and (x is None or self.opaque(q)):
                return self.opaque_call(q, None, an, n)
            return self.std_call(d.get('name', ''), d, an, n, cal)
        if cal.get('kind') == 'UnresolvedLookupExpr':
            return self.unsup('unresolved call', n)
        v = self.val(self.ev(ks[0]))
        return self.call_value(v, an, n)

    def call_value(self, f, an, n, decl=None):
        if isinstance(f, Clo):
            return self.call_closure(f, self.args_of(an), n, decl)
        if isinstance(f, FnRef):
            d = f.tu.byid.get(f.decl['id'])
            if d is not None:
                m = self.prog.defs.get(d.get('mangledName'))
                if m:
                    return self.call_function(m[0], m[1], self.args_of(an), None, n)
            return self.std_call(f.decl.get('name', ''), f.decl, an, n, None)
        return self.unsup('call through value', n)

    def opaque_call(self, q, this, an, n):
        args = []
        for a in an:
            v = self.ev(a)
            t = tystr(a)
            if is_scalar_t(t) or is_ptr_t(t):
                v = self.val(v, t)
            args.append(v)
        self.calls.append((q, where(n)))
        tt = tystr(n)
        ps = []
        for a in args:
            if isinstance(a, Poly):
                ps.append(a)
            elif isinstance(a, Str):
                ps.append(a.s)
            elif isinstance(a, Ptr):
                ps.append('%s' % a.root)
            elif isinstance(a, Loc):
                ps.append(a.root)
        if cls(tt) == 'void':
            return self.unsup('call to %s' % q, n)
        if is_scalar_t(tt):
            pre = ((this.root,) if this is not None else ())
            return poly(Atom('fn', q, *(pre + tuple(ps))))
        return self.unsup('call to %s' % q, n)

    def e_CXXMemberCallExpr(self, n):
        ks = kids(n)
        me = skip(ks[0])
        an = [a for a in ks[1:]]
        if me.get('kind') != 'MemberExpr':
            return self.unsup('member call', n)
        base = kids(me)[0]
        name = me.get('name', '')
        fr = self.frames[-1]
        bt = tystr(base)
        b = self.ev(base)
        if me.get('isArrow'):
            if isinstance(b, Loc) and is_ptr_t(bt):
                b = self.load(b, bt)
            if isinstance(b, Ptr):
                b = b.at()
        elif isinstance(b, Ptr) and b.obj:
            b = b.at()
        if isinstance(b, Loc) and not b.path:
            sv = self.st.cells.get(b.root)
            if isinstance(sv, Ptr) and sv.obj and sv.size is None and not is_iter_t(bt):
                b = sv.at()
        did = me.get('referencedMemberDecl')
        node = fr.tu.byid.get(did)
        if node is not None:
            q = self.qual_of(fr.tu, node)
            if q in self.models:
                return self.models[q](self, b, self.args_of(an), n)
            x = self.lookup_def(did)
            if x is not None and not self.opaque(q):
                if isinstance(b, Loc):
                    self.calls.append((q, where(n)))
                    return self.call_function(x[0], x[1], self.args_of(an), Ptr(b.root, b.path, ZERO, obj=True), n)
                return self.unsup('method on unknown object', n)
            return self.opaque_call(q, b if isinstance(b, Loc) else None, an, n)
        return self.std_method(name, b, bt, an, n)

    def std_method(self, name, b, bt, an, n):
        if 'Kokkos' in bt or is_view_t(bt):
            v = self.k_method(name, b, bt, an, n)
            if v is not NotImplemented:
                return v
        t = bt[:-1].strip() if is_ptr_t(bt) else bt
        mk = 'std.' + name
        if name.startswith('operator'):
            # conversion operator
            return b
        if isinstance(b, Str):
            if name in ('c_str', 'data'):
                return b
            return Str('?') if not is_scalar_t(tystr(n)) else self.unsup('string method', n)
        ol = self.ord_of(b)
        if ol is not None:
            return self.ord_method(name, b, ol, an, n)
        if 'basic_json' in t and isinstance(b, Loc):
            if name == 'get' or name.startswith('operator '):
                return self.load(b, tystr(n)) if is_scalar_t(tystr(n)) else b
            if name == 'at':
                return self.map_at(b, an, n)
            if name == 'get_to' and len(an) == 1:
                d = self.ev(an[0])
                if isinstance(d, Loc):
                    if is_scalar_t(tystr(an[0])):
                        self.store(d, self.load(b, tystr(an[0])), node=n)
                    else:
                        self.copy_object(d, b)
                    return d
            if name in ('contains', 'is_null', 'is_object', 'is_array'):
                return poly(1 if name != 'is_null' else 0)
        if re.match(r'(std::)?(basic_)?[io]?f?stream', cls(t)):
            if name in ('close', 'open', 'good', 'is_open', 'fail'):
                return poly(0 if name == 'fail' else 1)
        if name in ('size', 'length', 'ssize'):
            return self.container_size(b)
        if name == 'empty':
            return eq0(self.container_size(b))
        if name in ('data', 'begin', 'cbegin'):
            if isinstance(b, Loc) and not b.path and isinstance(self.st.cells.get(b.root), Str):
                return self.st.cells[b.root]
            return self.data(b)
        if name in ('end', 'cend'):
            return self.data(b).plus(self.container_size(b))
        if name in ('front',):
            return self.data(b).at(ZERO)
        if name == 'back':
            return self.data(b).at(self.container_size(b) - 1)
        if name == 'at':
            if is_map_t(t):
                return self.map_at(b, an, n)
            return self.data(b).at(self.num(an[0]))
        if name == 'get' and is_uptr_t(t):
            return self.addr(b) if isinstance(b, Loc) else b
        if name in ('value', 'operator*'):
            return b
        if name in ('subspan', 'first', 'last'):
            s = self.to_span(b)
            off = self.num(an[0])
            if name == 'first':
                return Ptr(s.root, s.path, s.off, size=off)
            if name == 'last':
                return Ptr(s.root, s.path, s.off + s.size - off, size=off)
            cnt = s.size - off
            if len(an) > 1 and skip(an[1]).get('kind') != 'CXXDefaultArgExpr':
                cnt = self.num(an[1])
            return Ptr(s.root, s.path, s.off + off, size=cnt)
        if name == 'reserve' and isinstance(b, Loc) and not self.discover:
            self.grow(b, self.num(an[0]))
            return None
        if name == 'shrink_to_fit' and isinstance(b, Loc) and not self.discover:
            k = b.sub('#n')
            self.caps.pop((k.root, k.path), None)
        if name == 'reserve' or name == 'shrink_to_fit':
            return None
        if name == 'capacity' and isinstance(b, Loc):
            k = b.sub('#n')
            z = self.container_size(b)
            m = self.caps.get((k.root, k.path), 0)
            if m is None or z.const() is None:
                return self.unsup('method capacity', n)
            return poly(max(m, int(z.const())))
        if not isinstance(b, Loc):
            return self.unsup('method ' + name, n)
        if name == 'clear':
            self.set_size(b, ZERO)
            return None
        if name == 'resize':
            new = self.num(an[0])
            fill = ZERO
            if len(an) > 1:
                fv = self.rv(an[1])
                if isinstance(fv, Poly):
                    fill = fv
            old = self.container_size(b)
            et = targ(t)
            if len(an) > 1 and skip(an[1]).get('kind') != 'CXXDefaultArgExpr' and not is_scalar_t(et):
                fv = self.ev(an[1])
                if self.discover or not isinstance(fv, Loc) or old.const() is None or new.const() is None:
                    return self.unsup('resize with a value', n)
                for i in range(int(old.const()), int(new.const())):
                    self.muted(self.copy_object, b.sub(poly(i)), fv)
            if is_scalar_t(et):
                self.muted(self.resize_scalar, b, old, new, fill, n)
            self.set_size(b, new)
            return None
        if name == 'assign':
            if len(an) == 2 and is_scalar_t(tystr(an[0])):
                cnt = self.num(an[0])
                v = self.rv(an[1])
                self.set_size(b, cnt)
                if isinstance(v, Poly):
                    self.par([cnt], lambda i: (b.sub(i).root, b.sub(i).path, v), node=n)
                    return None
            elif len(an) == 2:
                p, q = self.rv(an[0]), self.rv(an[1])
                if isinstance(p, Ptr) and isinstance(q, Ptr):
                    cnt = q.off - p.off
                    self.set_size(b, cnt)
                    self.par([cnt], lambda i: (b.sub(i).root, b.sub(i).path, self.elem(p, i)), node=n)
                    return None
            return self.unsup('assign', n)
        if name in ('push_back', 'emplace_back'):
            sz = self.container_size(b)
            et = targ(t)
            e = b.sub(sz)
            if is_uptr_t(et) and len(an) == 1 and is_ptr_t(tystr(an[0])):
                v = self.rv(an[0])
                if isinstance(v, Ptr) and v.obj:
                    self.muted(self.copy_object, e, v.at())
                else:
                    self.unsup('owning pointer', n)
            elif name == 'emplace_back' and (len(an) != 1 or self.class_of_type(cls(et))):
                args = self.args_of(an)
                if len(an) == 1 and cls(tystr(an[0])) == cls(et):
                    self.muted(self.copy_object, e, args[0])
                elif self.class_of_type(cls(et)):
                    args = [self.val(a, tystr(x)) if is_scalar_t(tystr(x)) or is_ptr_t(tystr(x)) else a for a, x in zip(args, an)]
                    r = self.construct_class(cls(et), '', args, n)
                    if isinstance(r, Loc):
                        self.muted(self.copy_object, e, r)
                    else:
                        self.unsup('emplace_back', n)
                elif is_scalar_t(et) and not an:
                    self.muted(self.store, e, ZERO, node=n)
                elif not an:
                    self.set_size(e, ZERO)
                elif is_vec_t(et):
                    self.muted(self.copy_object, e, self.construct_vec(cls(et), '', an, n))
                else:
                    self.unsup('emplace_back', n)
            else:
                v = self.ev(an[0])
                if is_scalar_t(et) or is_ptr_t(et):
                    self.muted(self.store, e, self.val(v, et), node=n)
                elif isinstance(v, Tup):
                    self.muted(self.init_vec, e, v)
                elif isinstance(v, Loc):
                    self.muted(self.copy_object, e, v)
                elif isinstance(v, Poly) and is_vec_t(et):
                    self.set_size(e, v)
                else:
                    self.unsup('push_back', n)
            self.set_size(b, sz + 1)
            return None
        if name == 'pop_back':
            self.set_size(b, self.container_size(b) - 1)
            return None
        if name in ('erase', 'insert') and not self.discover and is_vec_t(t):
            r = self.splice(name, b, t, an, n)
            if r is not NotImplemented:
                return r
        if name == 'reset' and is_uptr_t(t) and len(an) == 1:
            v = self.rv(an[0])
            if isinstance(v, Ptr) and v.obj:
                self.copy_object(b, v.at())
                return None
        if name == 'swap':
            o = self.ev(an[0])
            if isinstance(o, Loc):
                r = self.tmp()
                self.copy_object(r, b)
                self.copy_object(b, o)
                self.copy_object(o, r)
                return None
        if name == 'fill':
            v = self.num(an[0])
            cnt = self.container_size(b)
            d = self.data(b)
            self.par([cnt], lambda i: (d.at(i).root, d.at(i).path, v), node=n)
            return None
        if name in ('contains', 'count') and is_map_t(t):
            k = self.map_key(an[0])
            return poly(Atom('bvar', 'contains(%s,%s)' % (b.root, k if isinstance(k, str) else k.key)))
        if name in ('c_str',):
            return b
        for a in an:
            self.ev(a)
        return self.unsup('method ' + name, n)

    def splice(self, name, b, t, an, n):
        d = self.data(b)
        size = self.container_size(b).const()
        p = self.rv_it(an[0])
        if not isinstance(p, Ptr) or (p.root, p.path) != (d.root, d.path):
            return NotImplemented
        at = (p.off - d.off).const()
        if name == 'insert' and at is None and len(an) == 3 and (p.off - d.off - self.container_size(b)).is_zero():
            r = self.rng(an[1], an[2])
            if r is None or not is_scalar_t(targ(t)):
                return NotImplemented
            q, cnt = r
            old = self.container_size(b)
            self.par([cnt], lambda i: (b.sub(old + i).root, b.sub(old + i).path, self.elem(q, i)), node=n)
            self.set_size(b, old + cnt)
            return p
        if size is None or at is None or size > 1200:
            return NotImplemented
        size, at = int(size), int(at)
        if name == 'erase':
            to = at + 1
            if len(an) == 2:
                q = self.rv_it(an[1])
                to = (q.off - d.off).const() if isinstance(q, Ptr) and (q.root, q.path) == (d.root, d.path) else None
                if to is None:
                    return NotImplemented
                to = int(to)
            keep = list(range(at)) + list(range(to, size))
            self.permuted(b, poly(size), keep, n)
            self.set_size(b, poly(len(keep)))
            return p
        new = []
        if len(an) == 3 and not is_scalar_t(tystr(an[1])):
            r = self.rng(an[1], an[2])
            if r is None or r[1].const() is None:
                return NotImplemented
            new = [r[0].at(poly(i)) for i in range(int(r[1].const()))]
        elif len(an) == 2:
            new = [self.ev(an[1])]
        else:
            return NotImplemented
        et = targ(t)
        vals = []
        for v in new:
            if is_scalar_t(et):
                vals.append(self.val(v, et))
            elif isinstance(v, Loc):
                w = self.tmp()
                self.copy_object(w, v)
                vals.append(w)
            else:
                return NotImplemented
        r = self.tmp()
        self.copy_object(r, b)
        for i, v in enumerate(vals):
            e = b.sub(poly(at + i))
            (self.muted(self.copy_object, e, v) if isinstance(v, Loc) else self.muted(self.store, e, v, node=n))
        for i in range(at, size):
            self.copy_object(b.sub(poly(i + len(vals))), r.sub(poly(i)))
        self.set_size(b, poly(size + len(vals)))
        return p

    def resize_scalar(self, b, old, new, fill, n):
        if self.discover:
            for li in self.dstack:
                li.roots.add(b.root)
            return
        cnt = new - old
        k = cnt.const()
        if k is not None and k <= 0:
            return
        if old.is_zero():
            old = ZERO
        d = self.data(b)
        self.par([cnt], lambda i: (d.at(old + i).root, d.at(old + i).path, fill), node=n)

    def map_key(self, a):
        v = self.rv(a)
        if isinstance(v, Poly):
            return v
        if isinstance(v, Str):
            return 'k:' + v.s
        return 'k:?'

    def map_at(self, b, an, n):
        if isinstance(b, Loc):
            k = self.map_key(an[0])
            return b.sub(k)
        return self.unsup('map access', n)

    def e_CXXOperatorCallExpr(self, n):
        ks = kids(n)
        cal = skip(ks[0])
        d = cal.get('referencedDecl', {}) if cal.get('kind') == 'DeclRefExpr' else {}
        op = d.get('name', '')
        an = ks[1:]
        fr = self.frames[-1]
        node = fr.tu.byid.get(d.get('id'))
        bt = tystr(an[0])
        if op == 'operator()':
            b = self.ev(an[0])
            f = self.val(b) if isinstance(b, Loc) and not b.path else b
            if isinstance(f, Clo):
                return self.call_closure(f, self.args_of(an[1:]), n, d.get('id'))
            if is_view_t(bt):
                return self.kelem(self.kview(b, bt), [self.kint(self.ev(a), tystr(a)) for a in an[1:]], n)
            if 'operator()' in self.models:
                return self.models['operator()'](self, b, self.args_of(an[1:]), n)
            if node is not None:
                x = self.lookup_def(d['id'])
                if x is not None and isinstance(b, Loc):
                    return self.call_function(x[0], x[1], self.args_of(an[1:]), Ptr(b.root, b.path, ZERO, obj=True), n)
            return self.unsup('operator()', n)
        if node is not None and op != 'operator=':
            q = self.qual_of(fr.tu, node)
            x = self.lookup_def(d['id'])
            if x is not None:
                b = self.ev(an[0])
                if x[1].get('kind') == 'CXXMethodDecl' and isinstance(b, Loc):
                    return self.call_function(x[0], x[1], self.args_of(an[1:]), Ptr(b.root, b.path, ZERO, obj=True), n)
                return self.call_function(x[0], x[1], self.args_of(an), None, n)
        if op == 'operator[]' and is_view_t(bt):
            return self.kelem(self.kview(self.ev(an[0]), bt), [self.kint(self.ev(a), tystr(a)) for a in an[1:]], n)
        if op == 'operator[]':
            b = self.ev(an[0])
            if self.ord_of(b) is not None:
                return self.ord_index(b, self.ord_of(b), self.ev(an[1]), n)
            if is_map_t(bt):
                return self.map_at(b, an[1:], n)
            if isinstance(b, Str):
                return Str('?')
            i = self.rv(an[1])
            if isinstance(i, Str):
                if isinstance(b, Loc):
                    return b.sub('k:' + i.s)
                return self.unsup('keyed access', n)
            if not isinstance(i, Poly):
                return self.unsup('index', n)
            s = self.span_of(b)
            if s is not None:
                return s.at(i)
            if isinstance(b, Loc):
                if is_iter_t(bt) or not b.path and isinstance(self.st.cells.get(b.root), Ptr):
                    b = self.load(b, 'int *') if b.path else self.st.cells.get(b.root, b)
            if isinstance(b, Ptr):
                return b.at(i)
            if isinstance(b, Loc):
                return b.sub(i)
            return self.unsup('operator[]', n)
        if op == 'operator*' and len(an) == 1:
            b = self.ev(an[0])
            if isinstance(b, Loc) and (is_iter_t(bt)):
                b = self.val(b, 'int *')
            if isinstance(b, Ptr):
                return b.at()
            return b
        if op == 'operator->':
            b = self.ev(an[0])
            if isinstance(b, Loc) and is_iter_t(bt):
                b = self.val(b, 'int *')
            if isinstance(b, Ptr):
                return Ptr(b.root, b.path + (b.off,), ZERO, obj=True)
            if isinstance(b, Loc):
                return Ptr(b.root, b.path, ZERO, obj=True)
            return self.unsup('operator->', n)
        if op in ('operator++', 'operator--'):
            l = self.ev(an[0])
            if isinstance(l, Loc):
                old = self.val(l, 'int *')
                if isinstance(old, Ptr):
                    self.store(l, old.plus(ONE if op == 'operator++' else poly(-1)))
                    return old if len(an) > 1 else l
            return self.unsup(op, n)
        if op in ('operator+=', 'operator-='):
            l = self.ev(an[0])
            v = self.rv(an[1])
            if isinstance(l, Loc):
                old = self.val(l, 'int *' if is_iter_t(bt) else '')
                if isinstance(old, Ptr) and isinstance(v, Poly):
                    self.store(l, old.plus(v if op == 'operator+=' else -v))
                    return l
                if isinstance(old, Str):
                    return l
            return self.unsup(op, n)
        if op == 'operator=':
            v = self.ev(an[1])
            l = self.ev(an[0])
            if isinstance(l, Tup):
                # std::tie(a, b) = tuple
                if isinstance(v, Loc) and not v.path:
                    v = self.st.cells.get(v.root, v)
                if isinstance(v, Tup):
                    for dst, x in zip(l.v, v.v):
                        if isinstance(dst, Loc):
                            self.assign_into(dst, x, '')
                    return l
                return self.unsup('tie', n)
            if isinstance(v, Loc):
                sv = self.st.cells.get(v.root) if not v.path else None
                if isinstance(sv, (Ptr, Str, Tup, Clo, Vw, KObj)):
                    v = sv
            if not isinstance(l, Loc):
                return self.unsup('operator=', n)
            if isinstance(v, Loc):
                self.copy_object(l, v)
                return l
            if isinstance(v, Tup) and is_vec_t(bt):
                self.kill(l) if not l.path and self.st.guard == ONE else None
                self.init_vec(l, v)
                return l
            if v is None:
                return l
            self.store(l, v, node=n)
            return l
        if op == 'operator<=>' and not self.discover:
            x, y = [self.const_key(self.ev(a), cls(tystr(a))) for a in an]
            return poly((x > y) - (x < y))
        if len(an) == 2 and re.search(r'(strong|weak|partial)_ordering|__cmp_cat', tystr(an[0]) + tystr(an[1])):
            x, y = [ZERO if '__unspec' in tystr(a) else self.rv(a) for a in an]
            import operator as _o
            if isinstance(x, Poly) and isinstance(y, Poly) and x.const() is not None and y.const() is not None:
                return poly(int({'==': _o.eq, '!=': _o.ne, '<': _o.lt, '>': _o.gt, '<=': _o.le, '>=': _o.ge}[op[8:]](x.const(), y.const())))
        if op in ('operator+', 'operator-', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            if len(an) == 2:
                a, b = self.ev(an[0]), self.ev(an[1])
                if is_vec_t(tystr(an[0])) and is_vec_t(tystr(an[1])) and op not in ('operator+', 'operator-') and not self.discover \
                        and not re.match(r'(std::)?(basic_)?string', cls(tystr(an[0]))):
                    x, y = self.const_key(a, cls(tystr(an[0]))), self.const_key(b, cls(tystr(an[1])))
                    import operator as _o
                    return poly(int({'==': _o.eq, '!=': _o.ne, '<': _o.lt, '>': _o.gt, '<=': _o.le, '>=': _o.ge}[op[8:]](x, y)))
                ty = lambda x: ('int *' if is_iter_t(tystr(x)) else tystr(x))
                a = self.strval(a, an[0]) if not is_iter_t(tystr(an[0])) else self.val(a, 'int *')
                b = self.strval(b, an[1]) if not is_iter_t(tystr(an[1])) else self.val(b, 'int *')
                return self.binop(op[8:], a, b, True, n)
        if op == 'operator<<' or op == 'operator>>':
            for a in an:
                self.ev(a)
            return Str('?')
        if op in ('operator!', 'operator bool'):
            return self.unsup(op, n)
        if op == 'operator&&':
            pass
        return self.unsup('operator call ' + op, n)

    def strval(self, v, n):
        t = tystr(n)
        if isinstance(v, Loc):
            if is_scalar_t(t) or is_ptr_t(t):
                return self.load(v, t)
            sv = self.st.cells.get(v.root) if not v.path else None
            if sv is not None:
                return sv
            if 'string' in t:
                if v.path and not self.discover:
                    sv = self.load(v, 'std::string')
                    if isinstance(sv, Str):
                        return sv
                return Str('<%s%s>' % (v.root, ''.join('[%s]' % (p if isinstance(p, str) else p.key) for p in v.path)))
        return v

    # ------------------------------------------------------------ library functions
    def std_call(self, name, d, an, n, cal):
        if self.prog.kind == 'kokkos':
            v = self.k_call(name, d, an, n)
            if v is not NotImplemented:
                return v
        if name.startswith('cblas_'):
            return self.cblas(name, an, n)
        t = tystr(n)
        if name in ('move', 'forward', 'ref', 'cref', 'as_const') and len(an) == 1:
            return self.ev(an[0])
        if name == 'exp':
            return exp_(self.num(an[0]))
        if name == 'sqrt':
            return sqrt_(self.num(an[0]))
        if name == 'pow':
            return pow_(self.num(an[0]), self.num(an[1]))
        if name in ('abs', 'fabs'):
            x = self.num(an[0])
            c = x.const()
            if c is not None:
                return poly(abs(c))
            return ite(lt0(x, is_int_t(t)), -x, x)
        if name in ('min', 'max', 'fmin', 'fmax') and len(an) == 2:
            a, b = self.num(an[0]), self.num(an[1])
            c = lt0(a - b, is_int_t(tystr(an[0])))
            if not self.discover:
                c = self.simp(c)
                k = self.number_in(*an) if is_int_t(tystr(an[0])) else None
                if k:
                    seen(n, 'cmp %d' % k[0], 2 if c.const() is None else int(c.const()))
            return ite(c, a, b) if name.endswith('min') else ite(c, b, a)
        if name in ('fma',):
            a, b, c = [self.num(x) for x in an]
            return a * b + c
        if name == 'hypot':
            r = ZERO
            for x in an:
                y = self.num(x)
                r = r + y * y
            return sqrt_(r)
        if name in MATH1:
            return fn(name, self.num(an[0]))
        if name in ('atan2', 'fmod'):
            return fn(name, self.num(an[0]), self.num(an[1]))
        if name in ('floor', 'ceil', 'round', 'lround', 'nearbyint', 'rint'):
            return fn(name, self.num(an[0]))
        if name == 'trunc':
            return trunc_(self.num(an[0]))
        if name == 'to_string':
            self.ev(an[0])
            v = self.val(self.ev(an[0]), 'int')
            if isinstance(v, Poly) and v.const() is not None and v.const() == int(v.const()):
                return Str('%d' % v.const())
            return Str('str(%s)' % (v.key if isinstance(v, Poly) else '?'))
        if name in ('make_tuple', 'make_pair', 'tie', 'forward_as_tuple'):
            vals = []
            for a in an:
                v = self.ev(a)
                if name.startswith('make'):
                    if is_scalar_t(tystr(a)) or is_ptr_t(tystr(a)):
                        v = self.val(v, tystr(a))
                    v = self.detach(v)
                vals.append(v)
            return Tup(vals)
        if name == 'get':
            v = self.ev(an[0])
            m = re.search(r'(?:tuple_element|tuple_element_t|__tuple_element_t)<(\d+)', (cal or {}).get('type', {}).get('qualType', '') + t)
            if isinstance(v, Loc) and not v.path and isinstance(self.st.cells.get(v.root), Tup):
                v = self.st.cells[v.root]
            if m:
                i = int(m.group(1))
                if isinstance(v, Tup):
                    return v.v[i]
                if isinstance(v, Loc):
                    return v.sub('_%d' % i)
            return self.unsup('get', n)
        if name in ('make_unique', 'make_shared'):
            m = cls(t)
            et = targ(m) if '<' in m else ''
            args = self.args_of(an)
            args = [self.val(a, tystr(x)) if is_scalar_t(tystr(x)) or is_ptr_t(tystr(x)) else a for a, x in zip(args, an)]
            if self.class_of_type(cls(et)):
                return self.construct_class(cls(et), '', args, n)
            return self.unsup('make_unique', n)
        if name in ('size', 'ssize') and len(an) == 1:
            return self.container_size(self.ev(an[0]))
        if name in ('data', 'begin', 'cbegin') and len(an) == 1:
            return self.data(self.ev(an[0]))
        if name in ('end', 'cend') and len(an) == 1:
            v = self.ev(an[0])
            return self.data(v).plus(self.container_size(v))
        if name == 'empty' and len(an) == 1:
            return eq0(self.container_size(self.ev(an[0])))
        if name in ('next', 'prev'):
            p = self.rv_it(an[0])
            k = self.num(an[1]) if len(an) > 1 and skip(an[1]).get('kind') != 'CXXDefaultArgExpr' else ONE
            if isinstance(p, Ptr):
                return p.plus(k if name == 'next' else -k)
        if name == 'distance':
            p, q = self.rv_it(an[0]), self.rv_it(an[1])
            if isinstance(p, Ptr) and isinstance(q, Ptr) and p.root == q.root and p.path == q.path:
                return q.off - p.off
        if name == 'advance':
            l = self.ev(an[0])
            k = self.num(an[1])
            if isinstance(l, Loc):
                p = self.val(l, 'int *')
                if isinstance(p, Ptr):
                    self.store(l, p.plus(k))
                    return None
        if name == 'swap' and len(an) == 2:
            a, b = self.ev(an[0]), self.ev(an[1])
            if isinstance(a, Loc) and isinstance(b, Loc):
                if is_scalar_t(tystr(an[0])) or is_ptr_t(tystr(an[0])):
                    x, y = self.load(a, tystr(an[0])), self.load(b, tystr(an[0]))
                    self.store(a, y, node=n)
                    self.store(b, x, node=n)
                    return None
                r = self.tmp()
                self.copy_object(r, a)
                self.copy_object(a, b)
                self.copy_object(b, r)
                return None
        r = self.algorithm(name, an, n)
        if r is not NotImplemented:
            return r
        if name == 'parse' and 'basic_json' in tystr(n):
            return Loc('file')
        if name in ('printf', 'fprintf', 'puts', 'flush', 'endl'):
            return None
        if name in ('abort', 'exit', 'terminate', 'quick_exit'):
            self.record_throw(name, n)
            return None
        if name in self.models:
            return self.models[name](self, None, self.args_of(an), n)
        for a in an:
            self.ev(a)
        return self.unsup('call to ' + name, n)

    def rv_it(self, a):
        v = self.ev(a)
        if isinstance(v, Loc):
            v = self.val(v, 'int *')
        return v

    def rng(self, a, b):
        p, q = self.rv_it(a), self.rv_it(b)
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.root == q.root and p.path == q.path:
            return p, q.off - p.off
        return None

    def permuted(self, base, cnt, order, n):
        """container elements base[0..cnt) become those at the given old positions"""
        r = self.tmp()
        self.copy_object(r, base)
        for i, o in enumerate(order):
            if i != o:
                self.copy_object(base.sub(poly(i)), r.sub(poly(o)))

    def algorithm(self, name, an, n):
        if name in ('find', 'count') and len(an) == 3 and not self.discover:
            r = self.rng(an[0], an[1])
            if r is None or r[1].const() is None:
                return NotImplemented
            p, cnt = r
            v = self.ev(an[2])
            vt = cls(tystr(an[2]))
            if 'char' in vt and (is_ptr_t(vt) or '[' in vt):
                v, vt = self.rv(an[2]), 'std::string'
            k = self.const_key(v, vt)
            hits = [i for i in range(int(cnt.const())) if self.const_key(p.at(poly(i)), vt) == k]
            if name == 'count':
                return poly(len(hits))
            return p.plus(poly(hits[0] if hits else int(cnt.const())))
        if name == 'distance' and len(an) == 2:
            r = self.rng(an[0], an[1])
            return r[1] if r is not None else NotImplemented
        if name in ('next', 'prev') and len(an) in (1, 2):
            p = self.rv_it(an[0])
            k = self.num(an[1]) if len(an) == 2 and skip(an[1]).get('kind') != 'CXXDefaultArgExpr' else ONE
            if isinstance(p, Ptr):
                return p.plus(k if name == 'next' else -k)
            return NotImplemented
        if name in ('sort', 'stable_sort') and len(an) == 2 and not self.discover:
            r = self.rng(an[0], an[1])
            if r is None or not isinstance(r[0], Ptr) or r[1].const() is None or not r[0].off.is_zero():
                return NotImplemented
            p, cnt = r
            m = re.search(r'__normal_iterator<\s*(.*?)\s*\*', tystr(an[0]))
            if m is None:
                return NotImplemented
            et = cls(m.group(1))
            base = Loc(p.root, p.path)
            ks = [self.const_key(base.sub(poly(i)), et) for i in range(int(cnt.const()))]
            self.permuted(base, cnt, sorted(range(len(ks)), key=lambda i: ks[i]), n)
            return None
        if name in ('next_permutation', 'prev_permutation') and len(an) == 2 and not self.discover:
            r = self.rng(an[0], an[1])
            if r is None or not isinstance(r[0], Ptr) or r[1].const() is None or not r[0].off.is_zero():
                return NotImplemented
            p, cnt = r
            base = Loc(p.root, p.path)
            ks = []
            for i in range(int(cnt.const())):
                v = self.load(base.sub(poly(i)), 'int')
                if not isinstance(v, Poly) or v.const() is None:
                    return NotImplemented
                ks.append(v.const() if name[0] == 'n' else -v.const())
            order = list(range(len(ks)))
            i = len(ks) - 2
            while i >= 0 and ks[i] >= ks[i + 1]:
                i -= 1
            if i < 0:
                order.reverse()
            else:
                j = len(ks) - 1
                while ks[j] <= ks[i]:
                    j -= 1
                order[i], order[j] = order[j], order[i]
                order[i + 1:] = order[:i:-1]
            self.permuted(base, cnt, order, n)
            return poly(1 if i >= 0 else 0)
        if name in ('sort', 'stable_sort') and len(an) == 3 and not self.discover:
            r = self.rng(an[0], an[1])
            cmp = self.fnval(an[2])
            if r is None or not isinstance(r[0], Ptr) or not isinstance(cmp, Clo) or r[1].const() is None or r[1].const() > 12000:
                return NotImplemented
            p, cnt = r
            base = Loc(p.root, p.path)
            if not p.off.is_zero():
                return NotImplemented
            order = []
            for i in range(int(cnt.const())):
                at = len(order)
                while at > 0:
                    c = self.val(self.call_closure(cmp, [base.sub(poly(i)), base.sub(poly(order[at - 1]))], n), 'bool')
                    if not isinstance(c, Poly) or c.const() is None:
                        return NotImplemented
                    if not c.const():
                        break
                    at -= 1
                order.insert(at, i)
            self.permuted(base, cnt, order, n)
            return None
        if name in ('remove_if', 'stable_partition', 'partition') and len(an) == 3 and not self.discover:
            r = self.rng(an[0], an[1])
            f = self.fnval(an[2])
            if r is None or r[1].const() is None or r[1].const() > 12000 or not isinstance(f, Clo):
                return NotImplemented
            p, cnt = r
            flags = []
            for i in range(int(cnt.const())):
                c = self.val(self.call_closure(f, [p.at(poly(i))], n), 'bool')
                if not isinstance(c, Poly) or c.const() is None:
                    return NotImplemented
                flags.append(bool(c.const()) != (name == 'remove_if'))
            order = [i for i, k in enumerate(flags) if k]
            keep = len(order)
            if name != 'remove_if':
                order += [i for i, k in enumerate(flags) if not k]
            if not p.off.is_zero():
                return NotImplemented
            self.permuted(Loc(p.root, p.path), cnt, order, n)
            return p.plus(poly(keep))
        if name == 'erase_if' and len(an) == 2 and not self.discover:
            b = self.ev(an[0])
            f = self.fnval(an[1])
            if not isinstance(b, Loc) or not isinstance(f, Clo):
                return NotImplemented
            cnt = self.container_size(b)
            if cnt.const() is None or cnt.const() > 12000:
                return NotImplemented
            keep = []
            for i in range(int(cnt.const())):
                c = self.val(self.call_closure(f, [b.sub(poly(i))], n), 'bool')
                if not isinstance(c, Poly) or c.const() is None:
                    return NotImplemented
                if not c.const():
                    keep.append(i)
            self.permuted(b, cnt, keep, n)
            self.set_size(b, poly(len(keep)))
            return cnt - len(keep)
        if name in ('copy', 'transform', 'copy_n', 'fill', 'fill_n', 'accumulate', 'reduce', 'inner_product', 'transform_reduce', 'iota', 'for_each', 'partial_sum', 'exclusive_scan', 'inclusive_scan', 'memset', 'memcpy'):
            # execution policy argument
            if an and 'execution' in tystr(an[0]):
                an = an[1:]
        if name in ('copy', 'copy_n', 'move') and len(an) == 3:
            if name == 'copy_n':
                p, cnt, o = self.rv_it(an[0]), self.num(an[1]), self.rv_it(an[2])
            else:
                r = self.rng(an[0], an[1])
                if r is None:
                    return NotImplemented
                p, cnt = r
                o = self.rv_it(an[2])
            if not (isinstance(p, Ptr) and isinstance(o, Ptr)):
                return NotImplemented
            st = self.st
            self.par([cnt], lambda i: (o.at(i).root, o.at(i).path, self.elem(p, i)), node=n)
            return o.plus(cnt)
        if name in ('fill', 'fill_n') and len(an) == 3:
            if name == 'fill_n':
                p, cnt = self.rv_it(an[0]), self.num(an[1])
            else:
                r = self.rng(an[0], an[1])
                if r is None:
                    return NotImplemented
                p, cnt = r
            v = self.rv(an[2])
            if not isinstance(p, Ptr) or not isinstance(v, Poly):
                return NotImplemented
            self.par([cnt], lambda i: (p.at(i).root, p.at(i).path, v), node=n)
            return None
        if name == 'transform' and len(an) in (4, 5):
            r = self.rng(an[0], an[1])
            if r is None:
                return NotImplemented
            p, cnt = r
            if len(an) == 4:
                o = self.rv_it(an[2])
                f = self.fnval(an[3])
                if not isinstance(o, Ptr):
                    return NotImplemented
                self.par([cnt], lambda i: (o.at(i).root, o.at(i).path, self.apply(f, [self.elem(p, i)], n)), node=n)
                return None
            q = self.rv_it(an[2])
            o = self.rv_it(an[3])
            f = self.fnval(an[4])
            if not isinstance(o, Ptr) or not isinstance(q, Ptr):
                return NotImplemented
            self.par([cnt], lambda i: (o.at(i).root, o.at(i).path, self.apply(f, [self.elem(p, i), self.elem(q, i)], n)), node=n)
            return None
        if name in ('accumulate', 'reduce') and len(an) in (2, 3, 4):
            r = self.rng(an[0], an[1])
            if r is None:
                return NotImplemented
            p, cnt = r
            init = self.num(an[2]) if len(an) > 2 else ZERO
            if len(an) == 4:
                f = self.fnval(an[3])
                if f != '+':
                    return NotImplemented
            return init + self.ssum(cnt, lambda i: self.elem(p, i))
        if name in ('inner_product', 'transform_reduce') and len(an) == 4:
            r = self.rng(an[0], an[1])
            q = self.rv_it(an[2])
            if r is None or not isinstance(q, Ptr):
                return NotImplemented
            p, cnt = r
            init = self.num(an[3])
            return init + self.ssum(cnt, lambda i: self.elem(p, i) * self.elem(q, i))
        if name == 'iota' and len(an) == 3:
            r = self.rng(an[0], an[1])
            if r is None:
                return NotImplemented
            p, cnt = r
            v = self.num(an[2])
            self.par([cnt], lambda i: (p.at(i).root, p.at(i).path, v + i), node=n)
            return None
        return NotImplemented

    def fnval(self, a):
        t = tystr(a)
        for nm, op in (('plus<', '+'), ('multiplies<', '*'), ('minus<', '-'), ('divides<', '/'), ('negate<', 'neg')):
            if nm in t:
                return op
        v = self.ev(a)
        return self.val(v) if isinstance(v, Loc) else v

    def apply(self, f, args, n):
        if isinstance(f, str):
            if f == 'neg':
                return -args[0]
            return self.binop(f, args[0], args[1])
        if isinstance(f, Clo):
            v = self.call_closure(f, args, n)
            v = self.val(v, 'double')
            return v if isinstance(v, Poly) else self.unsup('closure result', n)
        return self.unsup('algorithm functor', n)

    # ------------------------------------------------------------ CBLAS
    def cblas(self, name, an, n):
        a = [self.rv(x) for x in an]

        def P(i):
            v = a[i]
            if isinstance(v, Loc):
                v = self.data(v)
            if not isinstance(v, Ptr):
                raise Unsupported(name + ': pointer argument')
            return v

        def N(i):
            if not isinstance(a[i], Poly):
                raise Unsupported(name + ': numeric argument')
            return a[i]

        def E(i):
            if isinstance(a[i], Str):
                return a[i].s
            raise Unsupported(name + ': enumerator')
        base = name[6:]
        if base in ('ddot', 'sdot'):
            x, ix, y, iy = P(1), N(2), P(3), N(4)
            return self.ssum(N(0), lambda i: self.elem(x, i * ix) * self.elem(y, i * iy))
        if base in ('dcopy', 'scopy'):
            x, ix, y, iy = P(1), N(2), P(3), N(4)
            self.par([N(0)], lambda i: (y.root, y.path + (y.off + i * iy,), self.elem(x, i * ix)), node=n)
            return None
        if base in ('daxpy', 'saxpy'):
            al, x, ix, y, iy = N(1), P(2), N(3), P(4), N(5)
            self.par([N(0)], lambda i: (y.root, y.path + (y.off + i * iy,), al * self.elem(x, i * ix)), kind='add', node=n)
            return None
        if base in ('dscal', 'sscal'):
            al, x, ix = N(1), P(2), N(3)
            self.par([N(0)], lambda i: (x.root, x.path + (x.off + i * ix,), al * self.elem(x, i * ix)), node=n)
            return None
        if base in ('dgemv', 'sgemv'):
            order, tr = E(0), E(1)
            m, k, al, A, lda, x, ix, be, y, iy = N(2), N(3), N(4), P(5), N(6), P(7), N(8), N(9), P(10), N(11)
            row = 'Row' in order
            t = tr != 'CblasNoTrans'

            def Ael(i, j):
                if t:
                    i, j = j, i
                return self.elem(A, (i * lda + j) if row else (i + j * lda))
            rows, cols = (k, m) if t else (m, k)
            self.gem([rows], lambda i: y.path + (y.off + i * iy,), y, al, be, cols, lambda i, kk: Ael(i, kk) * self.elem(x, kk * ix), n)
            return None
        if base in ('dgemm', 'sgemm'):
            order, ta, tb = E(0), E(1), E(2)
            M, Nn, K, al, A, lda, B, ldb, be, C, ldc = N(3), N(4), N(5), N(6), P(7), N(8), P(9), N(10), N(11), P(12), N(13)
            row = 'Row' in order
            ta = ta != 'CblasNoTrans'
            tb = tb != 'CblasNoTrans'

            def ix(i, j, ld, t):
                if t:
                    i, j = j, i
                return (i * ld + j) if row else (i + j * ld)
            self.gem([M, Nn], lambda i, j: C.path + (C.off + ((i * ldc + j) if row else (i + j * ldc)),), C, al, be, K,
                     lambda i, j, kk: self.elem(A, ix(i, kk, lda, ta)) * self.elem(B, ix(kk, j, ldb, tb)), n)
            return None
        if base in ('dger', 'sger'):
            order = E(0)
            row = 'Row' in order
            M, Nn, al, x, ixx, y, iy, A, lda = N(1), N(2), N(3), P(4), N(5), P(6), N(7), P(8), N(9)
            self.par([M, Nn], lambda i, j: (A.root, A.path + (A.off + ((i * lda + j) if row else (i + j * lda)),), al * self.elem(x, i * ixx) * self.elem(y, j * iy)), kind='add', node=n)
            return None
        return self.unsup('call to ' + name, n)

    def gem(self, counts, outpath, C, al, be, K, term, n):
        b = be.const()
        if b == 0:
            self.par(counts, lambda *ij: (C.root, outpath(*ij), al * self.ssum(K, lambda k: term(*(ij + (k,))))), node=n)
        elif b == 1:
            self.par(counts, lambda *ij: (C.root, outpath(*ij), al * self.ssum(K, lambda k: term(*(ij + (k,))))), kind='add', node=n)
        else:
            self.par(counts, lambda *ij: (C.root, outpath(*ij),
                     al * self.ssum(K, lambda k: term(*(ij + (k,)))) + be * self.load(Loc(C.root, outpath(*ij)), 'double')), node=n)
