"""std::map / std::set whose keys are constants of the configuration.

Keys are held outside the value domain as nested tuples of integers, ordered by
the container's comparator (evaluated through the interpreter on constants);
mapped values stay ordinary terms."""
import re
from values import *
from terms import *


class KeyList:
    __slots__ = ('k', 'cmp', 'kt', 'vt')

    def __init__(self, k, cmp, kt, vt):
        self.k, self.cmp, self.kt, self.vt = tuple(k), cmp, kt, vt

    def __eq__(self, o):
        return isinstance(o, KeyList) and o.k == self.k

    def __hash__(self):
        return hash(self.k)


def targs(t):
    """all template arguments"""
    i = t.find('<')
    if i < 0:
        return []
    d = 0
    out, cur = [], ''
    for ch in t[i + 1:t.rfind('>')]:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


class OrderedMixin:
    def ord_of(self, b):
        if isinstance(b, Loc) and not b.path:
            v = self.st.cells.get(b.root + '.#keys')
            if isinstance(v, KeyList):
                return v
        return None

    def ord_new(self, c, r, ks, n):
        """c: class string of the container"""
        ta = targs(c)
        ismap = 'map<' in c.split('<')[0] + '<'
        kt = ta[0]
        vt = ta[1] if ismap else None
        rest = ta[2:] if ismap else ta[1:]
        cmp = None
        if rest and not rest[0].startswith('std::allocator'):
            cmp = self.ord_cmp(rest[0])
        init = None
        for k in ks:
            v = self.ev(k)
            if isinstance(v, Loc) and not v.path and isinstance(self.st.cells.get(v.root), Clo):
                v = self.st.cells[v.root]
            if isinstance(v, Clo):
                cmp = v
            elif isinstance(v, (Tup, Loc)) and init is None:
                init = v
            elif isinstance(v, Ptr):
                init = (init or []) + [v] if not isinstance(init, (Tup, Loc)) else init
        self.st.cells[r.root + '.#keys'] = KeyList((), cmp, kt, vt)
        if isinstance(init, Loc) and self.ord_of(init) is not None:
            o = self.ord_of(init)
            self.st.cells[r.root + '.#keys'] = KeyList(o.k, o.cmp or cmp, o.kt, o.vt)
            for k in o.k:
                if o.vt:
                    self.ord_copy_val(r, init, k, o)
        elif isinstance(init, Tup):
            for x in init.v:
                self.ord_insert(r, x, n)
        elif isinstance(init, list) and len(init) == 2 and init[0].root == init[1].root:
            cnt = (init[1].off - init[0].off).const()
            if cnt is None:
                raise Unsupported('container from a range of unknown length')
            for i in range(int(cnt)):
                self.ord_insert(r, init[0].at(poly(i)), n)
        return r

    def ord_copy_val(self, r, src, k, o):
        a, b = self.ord_val(r, k), self.ord_val(src, k)
        if is_scalar_t(o.vt):
            self.store(a, self.load(b, o.vt))
        else:
            self.copy_object(a, b)

    def ord_cmp(self, t):
        t = t.replace('class ', '').replace('struct ', '').strip()
        if re.match(r'(std::)?less<', t):
            return None
        if re.match(r'(std::)?greater<', t):
            return 'greater'
        fr = self.frames[-1]
        m = re.match(r'\(lambda at (.*):(\d+):(\d+)\)', t)
        if m:
            line, col = int(m.group(2)), int(m.group(3))
            for node in fr.tu.byid.values():
                if node.get('kind') == 'LambdaExpr':
                    b = node.get('range', {}).get('begin', {})
                    if b.get('line') == line and b.get('col') == col:
                        return self.e_LambdaExpr(node)
        for node in fr.tu.byid.values():
            if node.get('kind') == 'CXXRecordDecl' and node.get('name') == t.split('::')[-1] and node.get('completeDefinition'):
                for c in kids(node):
                    if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                        return ('method', fr.tu, c)
        raise Unsupported('comparator ' + t)

    def const_key(self, v, t):
        """value -> nested tuple of ints"""
        if isinstance(v, Tup):
            return tuple(self.const_key(x, '') for x in v.v)
        if isinstance(v, Str):
            return v.s
        if isinstance(v, Poly):
            c = v.const()
            if str_of(v) is not None:
                return str_of(v).s
            if c is None:
                raise Unsupported('key is not constant')
            return int(c) if c == int(c) else c
        if isinstance(v, Loc):
            sv = self.st.cells.get(v.root) if not v.path else None
            if isinstance(sv, (Tup, Str)):
                return self.const_key(sv, t)
            if v.path and 'string' in t or is_scalar_t(t) or isinstance(sv, Poly):
                return self.const_key(self.load(v, t or 'int'), t)
            m = re.search(r'array<.*,\s*(\d+)[UuLl]*\s*>$', t)
            n = poly(int(m.group(1))) if m else self.container_size(v)
            if not isinstance(n, Poly) or n.const() is None:
                raise Unsupported('key of unknown length')
            et = targs(t)[0] if '<' in t else 'int'
            return tuple(self.const_key(v.sub(poly(i)), et) for i in range(int(n.const())))
        raise Unsupported('key')

    def mat_key(self, k):
        """nested tuple -> value"""
        if isinstance(k, tuple):
            r = self.tmp()
            self.owned.add(r.root)
            self.mat_into(r, k)
            return r
        if isinstance(k, str):
            return Str(k)
        return poly(k)

    def mat_into(self, r, k):
        for i, x in enumerate(k):
            if isinstance(x, tuple):
                self.mat_into(r.sub(poly(i)), x)
            else:
                self.store(r.sub(poly(i)), poly(x) if not isinstance(x, str) else Str(x))
        self.set_size(r, poly(len(k)))

    def key_less(self, ol, a, b):
        if ol.cmp is None:
            return a < b
        if ol.cmp == 'greater':
            return a > b
        key = (id(ol.cmp.node) if isinstance(ol.cmp, Clo) else id(ol.cmp[2]), a, b)
        if key not in self.cmpmemo:
            save = self.st
            self.st = save.fork()
            g = self.st.guard
            try:
                self.st.guard = ONE
                args = [self.mat_key(a), self.mat_key(b)]
                if isinstance(ol.cmp, Clo):
                    r = self.call_closure(ol.cmp, args, self.curnode or ol.cmp.node)
                else:
                    r = self.call_function(ol.cmp[1], ol.cmp[2], args, Ptr('%cmp', (), ZERO, obj=True), self.curnode or ol.cmp[2])
                r = self.val(r, 'bool')
            finally:
                self.st = save
            if not isinstance(r, Poly) or r.const() is None:
                raise Unsupported('comparator result')
            self.cmpmemo[key] = bool(r.const())
        return self.cmpmemo[key]

    def ord_pos(self, ol, k):
        """(index, found)"""
        for i, x in enumerate(ol.k):
            if x == k:
                return i, True
            if not self.key_less(ol, x, k):
                return i, not self.key_less(ol, k, x)
        return len(ol.k), False

    def ord_val(self, b, k):
        return Loc(b.root + '.@%s' % (k,))

    def ord_set(self, b, ol, keys):
        if self.st.guard != ONE and self.st.guard.const() is None:
            raise Unsupported('container changed under a symbolic condition')
        self.st.cells[b.root + '.#keys'] = KeyList(keys, ol.cmp, ol.kt, ol.vt)

    def ord_insert(self, b, v, n, mapval=None):
        """insert a key (set) or a pair (map); returns found-before"""
        ol = self.ord_of(b)
        val = None
        if ol.vt and mapval is None:
            sv = self.st.cells.get(v.root) if isinstance(v, Loc) and not v.path else None
            if isinstance(sv, Tup):
                v = sv
            if not isinstance(v, Tup) or len(v.v) != 2:
                raise Unsupported('insert into map')
            v, val = v.v
        elif ol.vt:
            val = mapval
        k = self.const_key(v, ol.kt)
        i, found = self.ord_pos(ol, k)
        if not found:
            self.ord_set(b, ol, ol.k[:i] + (k,) + ol.k[i:])
            if ol.vt:
                l = self.ord_val(b, k)
                if is_scalar_t(ol.vt):
                    self.store(l, self.val(val, ol.vt) if val is not None and not isinstance(val, str) else ZERO)
                elif isinstance(val, Loc):
                    self.copy_object(l, val)
                elif isinstance(val, Tup):
                    self.init_vec(l, val)
                else:
                    self.set_size(l, ZERO)
        return k, found

    def ord_snapshot(self, b, ol):
        key = (b.root, ol.k)
        if key not in self.ordsnap:
            r = Loc(self.newroot('ordsnap'))
            self.ordsnap[key] = r
            if ol.vt:
                self.mapsnap[r.root] = (b, ol.k)
        r = self.ordsnap[key]
        if r.root + '.#n' not in self.st.cells and r.root not in self.st.logs:
            for i, k in enumerate(ol.k):
                if isinstance(k, tuple):
                    self.mat_into(r.sub(poly(i)), k)
                else:
                    self.store(r.sub(poly(i)), Str(k) if isinstance(k, str) else poly(k))
            self.set_size(r, poly(len(ol.k)))
        return r

    def ord_method(self, name, b, ol, an, n):
        if self.discover:
            for li in self.dstack:
                li.cells.add(b.root + '.#keys')
            for a in an:
                self.ev(a)
            return poly(Atom('d', 'ord', ())) if name not in ('insert', 'emplace', 'clear', 'erase') else None
        if name in ('size', 'empty'):
            c = poly(len(ol.k))
            return c if name == 'size' else eq0(c)
        if name == 'insert_or_assign' and ol.vt and len(an) == 2:
            v = self.ev(an[0])
            was = ol
            l = self.ord_index(b, ol, v, n)
            self.assign_into(l, self.ev(an[1]), ol.vt)
            ol = self.ord_of(b)
            i, _ = self.ord_pos(ol, self.const_key(v, ol.kt))
            return Tup([self.data(self.ord_snapshot(b, ol)).plus(poly(i)), poly(int(len(ol.k) > len(was.k)))])
        if name in ('insert', 'emplace', 'try_emplace'):
            if name != 'insert' and ol.vt and len(an) == 2:
                k, f = self.ord_insert(b, self.ev(an[0]), n, mapval=self.ev(an[1]))
            elif len(an) == 1:
                k, f = self.ord_insert(b, self.ev(an[0]), n)
            elif len(an) == 2:
                p, q = self.rv_it(an[0]), self.rv_it(an[1])
                if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.root == q.root and (q.off - p.off).const() is not None):
                    raise Unsupported('insert range')
                for i in range(int((q.off - p.off).const())):
                    self.ord_insert(b, p.at(poly(i)), n)
                return None
            else:
                raise Unsupported('insert')
            ol2 = self.ord_of(b)
            it = self.data(self.ord_snapshot(b, ol2)).plus(poly(self.ord_pos(ol2, k)[0]))
            return Tup([it, poly(0 if f else 1)])
        if name == 'clear':
            self.ord_set(b, ol, ())
            return None
        if name in ('contains', 'count'):
            k = self.const_key(self.ev(an[0]), ol.kt)
            return poly(1 if self.ord_pos(ol, k)[1] else 0)
        if name == 'erase' and len(an) == 1 and 'iterator' not in tystr(an[0]):
            k = self.const_key(self.ev(an[0]), ol.kt)
            i, f = self.ord_pos(ol, k)
            if f:
                self.ord_set(b, ol, ol.k[:i] + ol.k[i + 1:])
            return poly(1 if f else 0)
        if name == 'at' and ol.vt:
            v = self.ev(an[0])
            i, f = self.ord_pos(ol, self.const_key(v, ol.kt))
            if not f:
                raise Unsupported('at() with a key that is not in the map')
            return self.ord_val(b, ol.k[i])
        if True:
            if name in ('begin', 'cbegin'):
                return self.data(self.ord_snapshot(b, ol))
            if name in ('end', 'cend'):
                return self.data(self.ord_snapshot(b, ol)).plus(poly(len(ol.k)))
            if name in ('find', 'lower_bound'):
                k = self.const_key(self.ev(an[0]), ol.kt)
                i, f = self.ord_pos(ol, k)
                if not f and name == 'find':
                    i = len(ol.k)
                return self.data(self.ord_snapshot(b, ol)).plus(poly(i))
        raise Unsupported('container method ' + name)

    def ord_index(self, b, ol, v, n):
        if self.discover:
            return Loc(self.newroot('ordv'))
        k, f = self.ord_insert(b, v, n, mapval='default')
        ol = self.ord_of(b)
        # the stored key may be an equivalent one
        i, _ = self.ord_pos(ol, k)
        return self.ord_val(b, ol.k[i])

    def ord_loop(self, v, lv, bod):
        """range-for over an ordered container; insertions during the walk are seen"""
        fr = self.frames[-1]
        cur = None
        count = 0
        breaks = []
        while True:
            ol = self.ord_of(v)
            if cur is None:
                i = 0
            else:
                i = self.ord_pos(ol, cur)
                i = i[0] + (1 if i[1] else 0)
            if i >= len(ol.k):
                break
            cur = ol.k[i]
            count += 1
            if count > 4 * self.unroll:
                raise Unsupported('container walk too long')
            key = self.mat_key(cur)
            if lv.get('kind') == 'DecompositionDecl':
                bs = [c for c in kids(lv) if c.get('kind') == 'BindingDecl']
                vals = [key, self.ord_val(v, cur)]
                isref = tystr(lv).rstrip().endswith('&')
                for q, bd in enumerate(bs):
                    x = vals[q]
                    if isinstance(x, Poly):
                        r = self.newroot('b')
                        self.st.cells[r] = x
                        x = Loc(r)
                    elif q == 1 and not isref:
                        r = self.newroot('b')
                        if is_scalar_t(ol.vt):
                            self.st.cells[r] = self.load(x, ol.vt)
                        else:
                            self.copy_object(Loc(r), x)
                        x = Loc(r)
                    fr.env[bd['id']] = x
            elif ol.vt:
                r = Loc(self.newroot('kv'))
                self.assign_into(r.sub('first'), key, ol.kt)
                self.assign_into(r.sub('second'), self.ord_val(v, cur), ol.vt)
                if tystr(lv).rstrip().endswith('&') and not tystr(lv).startswith('const'):
                    raise Unsupported('reference to map element in a loop')
                fr.env[lv['id']] = r
            else:
                r = Loc(self.newroot(lv.get('name', 'e')))
                if isinstance(key, Poly):
                    self.st.cells[r.root] = key
                else:
                    self.copy_object(r, key)
                fr.env[lv['id']] = r
            if not self.iter_body(bod, breaks):
                break
        self.end_loop(breaks)
