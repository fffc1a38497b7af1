"""P15: the Python names reach the C++ entry points they are named after."""
import re

from cpp import program, body, params, where, AnalysisBroken, BIND
import ast
import os
from common import REPO

FILES = ['cubic_spline.cpp', 'cubic_spline_set.cpp', 'mace.cpp', 'multilayer_perceptron.cpp', 'multivariate_polynomial.cpp', 'spherical_harmonic.cpp', 'tools.cpp', 'zbl.cpp', 'symmetrix.cpp']
# what Python users are given: class -> names ('' = module functions)
API = {
    'CubicSpline': ['__init__', 'evaluate', 'evaluate_deriv', 'evaluate_deriv_divided'],
    'CubicSplineSet': ['__init__', 'evaluate', 'evaluate_derivs'],
    'MultilayerPerceptron': ['__init__', 'evaluate', 'evaluate_gradient', 'evaluate_batch', 'evaluate_gradient_batch'],
    'MultivariatePolynomial': ['__init__', 'evaluate', 'evaluate_simple', 'evaluate_gradient', 'evaluate_gradient_simple', 'evaluate_batch'],
    'ZBL': ['__init__', 'compute', 'compute_gradient', 'compute_envelope', 'compute_envelope_gradient'],
    'MACE': ['__init__', 'atomic_numbers', 'r_cut', 'node_energies', 'node_forces', 'compute_node_energies_forces'],
    '': ['_sum', '_binomial_coefficient', '_partitions', '_two_part_partitions', '_permutations', '_combinations', '_product_repeat', '_generate_indices'],
}
RENAMED = {('MACE', 'Phi1_adj'): 'dPhi1'}
SKIP = {'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'ParenExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr'}


class Unknown(Exception):
    pass


def peel(n):
    while n.get('kind') in SKIP and n.get('inner'):
        n = n['inner'][-1] if n['kind'] != 'CXXFunctionalCastExpr' else n['inner'][0]
    return n


def kids(n):
    return [c for c in n.get('inner', []) or [] if isinstance(c, dict) and c.get('kind')]


def walk(n):
    yield n
    for c in kids(n):
        if n.get('kind') == 'LambdaExpr' and c.get('kind') == 'CXXRecordDecl':
            continue
        yield from walk(c)


def text(n):
    return ast.literal_eval(n['value']) if n.get('value', '').startswith('"') else None


class Binding:
    def __init__(self, cls, cppcls, name, kind, target, node, tu, fn):
        self.cls, self.cppcls, self.name, self.kind, self.target, self.node, self.tu, self.fn = cls, cppcls, name, kind, target, node, tu, fn


def class_arg(t):
    m = re.search(r'class_<\s*([\w:]+)', t or '')
    return m.group(1).split('::')[-1] if m else None


def collect(p):
    out, classes, homes = [], {}, {}
    for rel, tu in p.tus.items():
        for fn in list(tu.funcs.values()):
            if not (where(fn).startswith(BIND)):
                continue
            b = body(fn)
            if b is None or fn.get('name') in ('operator()', '__invoke'):
                continue
            for n in walk(b):
                if n.get('kind') in ('CXXTemporaryObjectExpr', 'CXXConstructExpr', 'CXXFunctionalCastExpr'):
                    c = class_arg(n.get('type', {}).get('qualType'))
                    s = [x for x in walk(n) if x.get('kind') == 'StringLiteral']
                    if c and s and text(s[0]) and n['kind'] != 'CXXFunctionalCastExpr' and len(kids(n)) >= 2:
                        classes.setdefault(c, (text(s[0]), where(n)))
                if n.get('kind') != 'CXXMemberCallExpr':
                    continue
                ks = kids(n)
                me = ks[0]
                if me.get('kind') != 'MemberExpr' or me.get('name') not in ('def', 'def_readwrite', 'def_readonly', 'def_static', 'def_property', 'def_property_readonly', 'attr'):
                    continue
                if me['name'] == 'attr':
                    continue
                ot = peel(me['inner'][0]).get('type', {}).get('qualType', '') if me.get('inner') else ''
                c = class_arg(n.get('type', {}).get('qualType')) or class_arg(ot)
                args = ks[1:]
                nm = peel(args[0])
                if nm.get('kind') == 'StringLiteral':
                    out.append(Binding(c, c, text(nm), me['name'], args[1:], n, tu, fn))
                else:
                    t = ' '.join(x.get('type', {}).get('qualType', '') for x in walk(args[0]))
                    if 'initimpl' in t or 'init' in t:
                        out.append(Binding(c, c, '__init__', 'init', args, n, tu, fn))
                homes.setdefault(fn['name'], []).append(rel)
    return out, classes, homes


def decl_of(n):
    """method, function or field a '&C::f' expression names"""
    for x in walk(n):
        if x.get('kind') == 'DeclRefExpr':
            d = x.get('referencedDecl') or {}
            if d.get('kind') in ('CXXMethodDecl', 'FunctionDecl', 'FieldDecl'):
                return d
    return None


class Eval:
    """where the arguments of a wrapper go"""

    def __init__(self, tu, free=None):
        self.tu = tu
        self.free = free        # library function a module-level wrapper stands for
        self.calls = []
        self.depth = 0

    def run(self, fn_body, env):
        for s in kids(fn_body):
            r = self.stmt(s, env)
            if r is not None:
                return r
        return None

    def stmt(self, s, env):
        k = s['kind']
        if k == 'DeclStmt':
            for v in kids(s):
                if v['kind'] == 'VarDecl':
                    i = kids(v)
                    env[v['id']] = self.ev(i[-1], env) if i else ('none',)
                elif v['kind'] not in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl'):
                    raise Unknown('declaration ' + v['kind'])
            return None
        if k == 'ReturnStmt':
            ks = kids(s)
            return ('ret', self.ev(ks[0], env) if ks else ('none',))
        if k == 'CompoundStmt':
            return self.run(s, env)
        if k == 'NullStmt':
            return None
        if k.endswith('Expr') or k.endswith('Operator') or k == 'ExprWithCleanups':
            self.ev(s, env)
            return None
        raise Unknown('statement ' + k)

    def ev(self, n, env):
        n = peel(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            d = n.get('referencedDecl') or {}
            if d.get('id') in env:
                return env[d['id']]
            return ('other', d.get('name'))
        if k in ('CXXTemporaryObjectExpr', 'CXXConstructExpr', 'InitListExpr', 'CXXUnresolvedConstructExpr'):
            a = [self.ev(c, env) for c in kids(n) if c['kind'] != 'CXXDefaultArgExpr']
            t = n.get('type', {}).get('qualType', '')
            if len(a) == 1 and not a[0][0] == 'lit':
                x = a[0]
                if x[0] == 'param' and 'span' in t:
                    return ('whole', x[1])
                return x
            if len(a) == 2 and ('span' in t or 'vector' in t):
                d, s = a
                if d[0] == 'data' and s == ('size', d[1]):
                    return ('whole', d[1])
                if d[0] == 'data' and s == ('end', d[1]):
                    return ('whole', d[1])
                if d[0] == 'data':
                    return ('part', d[1], 'the pointer of argument %d is paired with the length %s' % (d[1], show(s)))
            return ('build', t, tuple(a))
        if k == 'CXXMemberCallExpr':
            ks = kids(n)
            me = peel(ks[0])
            if me['kind'] != 'MemberExpr':
                raise Unknown('member call')
            o = self.ev(me['inner'][0], env)
            a = [self.ev(c, env) for c in ks[1:] if c['kind'] != 'CXXDefaultArgExpr']
            m = me.get('name')
            if o == ('param', 0) and self.free is None:
                self.calls.append((m, a, n))
                return ('result', m)
            if o[0] == 'param' and not a:
                if m in ('data', 'mutable_data'):
                    return ('data', o[1])
                if m == 'size':
                    return ('size', o[1])
            if o[0] == 'param':
                return ('of', m, o[1], tuple(a))
            if o[0] == 'whole' and m in ('data', 'begin') and not a:
                return ('data', o[1])
            if o[0] == 'whole' and m == 'size' and not a:
                return ('size', o[1])
            return ('expr', m, o, tuple(a))
        if k == 'BinaryOperator' and n.get('opcode') == '+':
            a, b = (self.ev(c, env) for c in kids(n))
            if a[0] == 'data' and b == ('size', a[1]):
                return ('end', a[1])
            return ('expr', '+', a, b)
        if k == 'CallExpr':
            ks = kids(n)
            d = peel(ks[0])
            d = (d.get('referencedDecl') or {}) if d['kind'] == 'DeclRefExpr' else {}
            f = self.tu.byid.get(d.get('id'))
            a = [self.ev(c, env) for c in ks[1:] if c['kind'] != 'CXXDefaultArgExpr']
            if self.free is not None and d.get('kind') == 'FunctionDecl' and (d.get('name') == self.free or d.get('name') in API['']):
                self.calls.append((d['name'], a, n))
                return ('result', d['name'])
            if f is not None and body(f) is not None and self.depth < 4:
                e = {}
                for q, v in zip(params(f), a):
                    e[q['id']] = v
                self.depth += 1
                r = self.run(body(f), e)
                self.depth -= 1
                return r[1] if r else ('none',)
            return ('expr', d.get('name'), tuple(a))
        if k in ('IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr', 'StringLiteral'):
            return ('lit', n.get('value'))
        if k == 'UnaryOperator' and n.get('opcode') in ('*', '&'):
            return self.ev(kids(n)[0], env)
        ks = kids(n)
        if k.endswith('CastExpr') and len(ks) == 1:
            return self.ev(ks[0], env)
        return ('expr', k, tuple(self.ev(c, env) for c in ks if not c['kind'].endswith('Decl')))


def show(v):
    if v[0] == 'param':
        return 'argument %d' % v[1]
    if v[0] == 'whole':
        return 'argument %d' % v[1]
    if v[0] in ('data', 'size'):
        return '%s of argument %d' % (v[0], v[1])
    if v[0] == 'lit':
        return str(v[1])
    return v[0]


def uses(v):
    """arguments a value is computed from"""
    s = set()
    if isinstance(v, tuple):
        if v and v[0] in ('param', 'whole', 'data', 'size', 'end', 'part') and len(v) > 1 and isinstance(v[1], int):
            s.add(v[1])
        for x in v:
            s |= uses(x)
    return s


def p_bind(ck):
    ck.rule('api', 'Every Python name of the API is bound, on the class or module it belongs to.')
    ck.rule('target', 'A bound name refers to the C++ entry point or member of the same name (the adjoint of Phi1 is stored as dPhi1).')
    ck.rule('forward', 'A wrapper calls that entry point once, on the object itself (not a copy), passing its own arguments in order, arrays with their full length, and returns its result.')
    ck.rule('registered', 'Every binding function is called when the module is initialised.')
    ck.rule('calculator', 'Every evaluator attribute the ASE calculator uses is bound on MACE.')
    p = program(*[BIND + '/' + f for f in FILES])
    bs, classes, homes = collect(p)
    if len(bs) < 20:
        raise AnalysisBroken('only %d bindings found' % len(bs))
    have = {}
    for b in bs:
        if b.cls:
            b.cls = classes.get(b.cls, (b.cls, ''))[0]
        have.setdefault(b.cls or '', {}).setdefault(b.name, []).append(b)
    for c, (nm, wh) in classes.items():
        ck.decide('class/%s' % c, wh, nm == c, 'class %s is exposed under the name %s' % (c, nm))
    for c, names in API.items():
        for n in names:
            ck.decide('api/%s.%s' % (c, n), '%s/' % BIND, n in have.get(c, {}), '%s.%s is not bound' % (c or 'module', n))
    for b in bs:
        ck.analysed('%s:%s' % (where(b.fn), b.fn['name']))
        oid = '%s.%s' % (b.cls or 'module', b.name)
        ck.attempt('target/' + oid, one, ck, b, oid)
    # reachability of the binding functions from module initialisation
    graph = {}
    roots = []
    for rel, tu in p.tus.items():
        for fn in tu.funcs.values():
            if not where(fn).startswith(BIND):
                continue
            cs = set()
            for n in walk(body(fn)):
                if n.get('kind') == 'DeclRefExpr' and (n.get('referencedDecl') or {}).get('kind') == 'FunctionDecl':
                    cs.add(n['referencedDecl']['name'])
            graph.setdefault(fn['name'], set()).update(cs)
            if fn['name'].startswith('pybind11_init') or fn['name'].startswith('PyInit'):
                roots.append(fn['name'])
    if not roots:
        ck.und('registered', BIND + '/symmetrix.cpp', 'module initialisation not found')
    else:
        seen, st = set(), list(roots)
        while st:
            f = st.pop()
            if f not in seen:
                seen.add(f)
                st += [g for g in graph.get(f, ())]
        for h in sorted(homes):
            ck.decide('registered/' + h, BIND + '/symmetrix.cpp', h in seen, 'binding function %s is never called when the module is initialised' % h)
    # names the calculator uses
    src = os.path.join(REPO, 'symmetrix/source/symmetrix/symmetrix_calc.py')
    t = ast.parse(open(src, encoding='utf-8').read())
    for n in ast.walk(t):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr == 'evaluator':
            ck.decide('calculator/%s@%d' % (n.attr, n.lineno), 'symmetrix/source/symmetrix/symmetrix_calc.py:%d' % n.lineno, n.attr in have.get('MACE', {}), 'the evaluator has no attribute %s' % n.attr)


def one(ck, b, oid):
    w = where(b.node)
    try:
        w = where(peel(b.target[0]) if b.target else b.node)
    except Exception:
        pass
    if b.kind == 'init':
        ck.ok('target/' + oid, w)
        return
    want = RENAMED.get((b.cls, b.name), b.name)
    tgt = peel(b.target[0])
    lam = tgt if tgt['kind'] == 'LambdaExpr' else next((x for x in walk(b.target[0]) if x.get('kind') == 'LambdaExpr'), None)
    if b.kind in ('def_property', 'def_property_readonly'):
        ck.und('target/' + oid, w, 'property accessors')
        return
    if lam is None:
        d = decl_of(b.target[0])
        if d is None:
            ck.und('target/' + oid, w, 'bound object not understood')
            return
        q = b.tu.byid.get(d['id'])
        owner = b.tu.qual.get(d['id'], '').split('::')[:-1]
        if d.get('kind') == 'FunctionDecl' and b.cls:
            # free wrapper function bound as a method
            if q is not None and body(q) is not None:
                wrapper(ck, b, oid, w, params(q), body(q), want, q)
                return
        if d.get('kind') == 'FunctionDecl' and not b.cls and q is not None and body(q) is not None and where(q).startswith(BIND):
            wrapper(ck, b, oid, w, params(q), body(q), want, q)
            return
        ck.decide('target/' + oid, w, d['name'] == want and (not b.cls or not owner or owner[-1] == b.cppcls), '%s is bound to %s' % (oid, b.tu.qual.get(d['id'], d['name'])))
        return
    op = None
    for c in kids(lam):
        if c['kind'] == 'CXXRecordDecl':
            for m in kids(c):
                if m['kind'] == 'CXXMethodDecl' and m.get('name') == 'operator()':
                    op = m
    bd = next((c for c in kids(lam) if c['kind'] == 'CompoundStmt'), None)
    if op is None or bd is None:
        ck.und('forward/' + oid, w, 'wrapper not understood')
        return
    wrapper(ck, b, oid, w, params(op), bd, want, op)


def wrapper(ck, b, oid, w, ps, bd, want, op):
    if b.cls and not ps:
        ck.und('forward/' + oid, w, 'wrapper without object')
        return
    off = 1 if b.cls else 0
    t = ps[0].get('type', {}).get('qualType', '') if b.cls else '&'
    if '&' not in t and '*' not in t:
        ck.bad('forward/' + oid, w, 'the wrapper takes the object by value (%s): it works on a copy' % t)
        return
    e = Eval(b.tu, None if b.cls else want)
    env = {q['id']: ('param', i) for i, q in enumerate(ps)}
    try:
        r = e.run(bd, env)
    except Unknown as x:
        ck.und('forward/' + oid, w, 'wrapper not understood: %s' % x)
        return
    mine = [c for c in e.calls if c[0] == want]
    if len(e.calls) != 1:
        if e.calls and not mine:
            ck.bad('forward/' + oid, w, '%s calls %s' % (oid, ', '.join(c[0] for c in e.calls)))
        else:
            ck.und('forward/' + oid, w, '%d calls in the wrapper' % len(e.calls))
        return
    if not mine:
        ck.bad('forward/' + oid, w, '%s calls %s' % (oid, e.calls[0][0]))
        return
    args = mine[0][1]
    n = len(ps) - off
    for i, a in enumerate(args):
        if a[0] in ('param', 'whole') and a[1] == i + off:
            continue
        if a[0] == 'part':
            ck.bad('forward/' + oid, w, 'array %d handed to %s: %s' % (i + 1, want, a[2]))
            return
        if a[0] in ('param', 'whole'):
            ck.bad('forward/' + oid, w, 'parameter %d of %s receives argument %d of the Python call' % (i + 1, want, a[1] + 1 - off))
            return
        if a[0] == 'lit':
            ck.bad('forward/' + oid, w, 'parameter %d of %s receives the constant %s' % (i + 1, want, a[1]))
            return
        if uses(a) and uses(a) != {i + off}:
            ck.bad('forward/' + oid, w, 'parameter %d of %s is built from argument(s) %s of the Python call' % (i + 1, want, sorted(x + 1 - off for x in uses(a))))
            return
        ck.und('forward/' + oid, w, 'parameter %d of %s not understood' % (i + 1, want))
        return
    if len(args) != n:
        ck.bad('forward/' + oid, w, '%s takes %d arguments from Python and passes %d on' % (oid, n, len(args)))
        return
    mt = mine[0][2].get('type', {}).get('qualType', 'void')
    if mt != 'void' and (r is None or r[1][0] == 'none'):
        ck.bad('forward/' + oid, w, 'the result of %s is dropped' % want)
        return
    if mt != 'void' and not has_result(r[1], want):
        (ck.und if uses(r[1]) else ck.bad)('forward/' + oid, w, 'the wrapper returns something else than the result of %s' % want)
        return
    m = b.cls and re.search(r'\((.*)\)', b.tu.byid.get(peel(kids(mine[0][2])[0]).get('referencedMemberDecl'), {}).get('type', {}).get('qualType', ''))
    if m:
        outs = [i for i, x in enumerate(split(m.group(1))) if 'span<' in x and 'const' not in x]
        for i in outs:
            t = ps[i + off].get('type', {}).get('qualType', '') if i + off < len(ps) else ''
            if 'vector<' in t:
                ck.bad('forward/' + oid, w, 'output %d of %s is written to a converted copy (%s) of the array given by Python' % (i + 1, want, t))
                return
    ck.ok('forward/' + oid, w, 'forwards %d arguments to %s' % (n, want))


def has_result(v, want):
    if isinstance(v, tuple):
        return v[:2] == ('result', want) or any(has_result(x, want) for x in v)
    return False


def split(s):
    out, d, cur = [], 0, ''
    for c in s:
        d += c in '<('
        d -= c in '>)'
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur] if cur.strip() else out
