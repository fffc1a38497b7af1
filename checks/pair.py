"""The LAMMPS pair style: construction, set-up and evaluation are interpreted over
a modelled LAMMPS (atoms, ghosts, neighbour lists, communication)."""
import math
from cpp import *
from peval import gradient, h01, CannotEval, Domain
from values import Unsupported, Str, str_of
import mace as M
from mace import FK, Cfg, CG, Objects, models, ref_energy, FNS, DFNS, ZNUM

PSRC = ('pair_symmetrix/pair_symmetrix_mace.cpp',) + M.SRC
NS = 'LAMMPS_NS::'
CLS = NS + 'PairSymmetrixMACE'
RC = 1.0
SYMBOL = {1: 'H', 8: 'O', 14: 'Si', 29: 'Cu'}
MODES = ('no_domain_decomposition', 'mpi_message_passing', 'no_mpi_message_passing')


class System:
    """owned atoms, ghosts (owner, shift) or foreign ghosts (None, position); neighbour lists are
    what LAMMPS builds: every atom within cutoff + skin, special bits on some entries"""

    def __init__(self, label, modes, pos, ltypes, tags, period=None, foreign=(), ilist=None, swaps=None, scaled=False, zbl=False, C=1, l_max=1, L_max=1,
                 paths=((0, 0, 0), (0, 1, 1), (1, 1, 0), (1, 0, 1)), nel=2, mtypes=(1, 0), skin=0.3, remote=False):
        self.label, self.modes = label, modes
        self.nlocal = len(pos)
        self.pos = [tuple(p) for p in pos]
        self.ltype = list(ltypes)
        self.tag = list(tags)
        self.owner = list(range(self.nlocal))
        self.shift = [(0, 0, 0)] * self.nlocal
        self.nel, self.mtypes = nel, mtypes
        self.skin = skin
        self.remote = remote
        reach = 2 * RC + skin
        sw = []
        if period:
            for dirn in (1, -1):
                first = len(self.pos)
                send = []
                for rep in range(1, 8):
                    for i in range(self.nlocal):
                        p = tuple(self.pos[i][a] + dirn * rep * period[a] for a in range(3))
                        if any(math.dist(p, self.pos[j]) < reach for j in range(self.nlocal)):
                            send.append(i)
                            self.pos.append(p)
                            self.ltype.append(self.ltype[i])
                            self.tag.append(self.tag[i])
                            self.owner.append(i)
                            self.shift.append(tuple(dirn * rep * period[a] for a in range(3)))
                sw.append((send, first))
        for p, t, tg in foreign:
            self.owner.append(len(self.pos))
            self.pos.append(tuple(p))
            self.ltype.append(t)
            self.tag.append(tg)
            self.shift.append((0, 0, 0))
        self.n = len(self.pos)
        self.nghost = self.n - self.nlocal
        self.swaps = swaps or sw
        self.ilist = list(ilist or range(self.nlocal))
        self.neigh = []
        self.inside = []
        for i in range(self.n):
            near = [j for j in range(self.n) if j != i and math.dist(self.pos[i], self.pos[j]) < RC + skin]
            near.sort(key=lambda j: h01('order', i, j))
            self.neigh.append(near)
            self.inside.append([j for j in near if math.dist(self.pos[i], self.pos[j]) < RC])
        # reference: every atom (ghosts as well) is a node; only the owned ones count
        self.mtype = [self.mtypes[t - 1] for t in self.ltype]
        if period:
            edges = [[self.owner[j] for j in self.inside[i]] for i in range(self.nlocal)]
            types = self.mtype[:self.nlocal]
        else:
            edges = self.inside
            types = self.mtype
        self.refnodes = len(edges)
        self.refpairs = [(i, j) for i in range(self.refnodes) for j in self.inside[i]]
        self.cfg = Cfg(label, types, edges, nel, C, l_max, L_max, list(paths), CG, scaled=scaled, zbl=zbl)
        self.cfg.ntypes = None

    def bits(self, i, j):
        return (1 << 30) if (3 * i + 5 * j) % 4 == 1 else 0


def geometry(sysm, s):
    """positions at evaluation point s: same neighbours, moved a little"""
    out = []
    for i in range(sysm.n):
        o = sysm.owner[i]
        out.append(tuple(sysm.pos[o][a] + sysm.shift[i][a] + (0.02 * (h01('move', s, o, a) - 0.5)) for a in range(3)))
    for i in range(sysm.n):
        for j in sysm.neigh[i]:
            assert (math.dist(out[i], out[j]) < RC) == (j in sysm.inside[i]), 'configuration too tight'
    return out


class PairPoint(Point):
    pass


def mkpoint(sysm, s):
    X = geometry(sysm, s)
    base = M.mkpt(s, sysm.cfg)

    def reals(kind, name, path):
        if name == 'atom.x':
            if not 0 <= path[0] < len(X):
                raise CannotEval('atom %s' % (path[0],))
            return X[path[0]][path[1]]
        if name == 'atom.f':
            return 2.0 * h01('f0', s, path) - 1
        if name == 'arg.xyz':
            p, a = divmod(path[0], 3)
            i, j = sysm.refpairs[p]
            return X[j][a] - X[i][a]
        if name == 'arg.r':
            i, j = sysm.refpairs[path[0]]
            return math.dist(X[i], X[j])
        if name == FK + 'r_cut':
            return RC
        if name == 'neighbor.skin':
            return sysm.skin
        if name in ('swap.in', 'swap.back'):
            return 0.8 * h01(name, s, path) - 0.3
        return base.reals(kind, name, path)
    return Point(s, None, {}, reals, fns=FNS)


def cfgmodels(sysm, log):
    out = models(sysm.cfg, Objects())

    def ev_init(ip, b, a, n):
        e, v = [int(ip.val(x, 'int').const()) for x in a[:2]]
        for k, x in (('eflag_global', e & 1), ('eflag_atom', (e >> 1) & 1), ('vflag_global', v & 3), ('vflag_atom', v & 4),
                     ('eflag_either', e), ('vflag_either', v), ('evflag', e | v), ('cvflag_atom', 0), ('vflag_fdotr', 0)):
            ip.st.cells['this.' + k] = poly(1 if x else 0)
        ip.st.cells['this.eng_vdwl'] = ZERO
        ip.st.cells['this.eng_coul'] = ZERO
        for i in range(6):
            ip.store(Loc('this.virial', (poly(i),)), ZERO)
        for i in range(sysm.n if e & 2 else 0):
            ip.store(Loc('this.eatom', (poly(i),)), ZERO)

    def amap(ip, b, a, n):
        if ip.discover:
            return var('map')
        t = ip.val(a[0], 'int').const()
        if t is None:
            raise Unsupported('map of unknown tag %s' % ip.val(a[0], 'int'))
        for i in range(sysm.n):
            if sysm.tag[i] == t:
                return poly(i)
        return poly(-1)

    def style(ip, name, *a):
        f = fn_of(ip.prog, CLS + '::' + name)
        ip.calls.append((CLS + '::' + name, where(f[1])))
        return ip.call_function(f[0], f[1], list(a), Ptr('this', (), ZERO, obj=True), f[1])

    def ints(ip, vals):
        r = ip.tmp()
        ip.owned.add(r.root)
        for i, v in enumerate(vals):
            ip.store(r.sub(poly(i)), poly(v))
        ip.set_size(r, poly(len(vals)))
        return Ptr(r.root, (), ZERO)

    def buf(ip, n):
        r = ip.tmp()
        ip.owned.add(r.root)
        ip.set_size(r, n)
        return r

    def swap(ip, n_items, width, pack, unpack, seen, sym):
        b = buf(ip, width * n_items)
        cnt = pack(Ptr(b.root, (), ZERO))
        cnt = cnt.const() if isinstance(cnt, Poly) else None
        w = width.const()
        if cnt is None or w is None:
            raise Unsupported('size of a communicated message')
        if cnt > w * n_items:
            log['overflow'].append('%d values packed for %d atoms, %d announced per atom' % (cnt, n_items, w))
            cnt = w * n_items
        r = buf(ip, width * n_items)
        for k in range(int(cnt)):
            v = ip.load(b.sub(poly(k)), 'double')
            if sysm.remote:
                seen.append(v)
                v = poly(Atom('read', sym, (poly(len(seen) - 1),)))
            ip.store(r.sub(poly(k)), v)
        unpack(Ptr(r.root, (), ZERO))

    def forward(ip, b, a, n):
        if ip.discover:
            return
        w = ip.load(Loc('this.comm_forward'), 'int')
        log['forward'] += 1
        for send, first in sysm.swaps:
            k = len(send)
            null = Ptr('%null', (), ZERO)
            swap(ip, k, w, lambda p: style(ip, 'pack_forward_comm', poly(k), ints(ip, send), p, ZERO, null),
                 lambda p: style(ip, 'unpack_forward_comm', poly(k), poly(first), p), log['sent'], 'swap.in')

    def reverse(ip, b, a, n):
        if ip.discover:
            return
        w = ip.load(Loc('this.comm_reverse'), 'int')
        log['reverse'] += 1
        # the buffer positions of the reverse swap are those of the forward swap
        for send, first in (sysm.swaps if sysm.remote else reversed(sysm.swaps)):
            k = len(send)
            swap(ip, k, w, lambda p: style(ip, 'pack_reverse_comm', poly(k), poly(first), p),
                 lambda p: style(ip, 'unpack_reverse_comm', poly(k), ints(ip, send), p), log['back'], 'swap.back')

    def err(ip, b, a, n):
        ip.record_throw('error->all', n)

    quiet = lambda ip, b, a, n: None

    def to_string(ip, b, a, n):
        v = ip.val(a[0], 'double')
        if not isinstance(v, Poly) or ip.discover:
            return Str('?')
        k = v.const()
        t = str(int(k)) if k is not None and k == int(k) else 'text of %s' % v
        TOTEXT[t] = v
        return Str(t)

    def create(ip, b, a, n):
        return None
    out.update({'to_string': to_string, NS + 'Pair::ev_init': ev_init, NS + 'Atom::map': amap, NS + 'Comm::forward_comm': forward, NS + 'Comm::reverse_comm': reverse,
                NS + 'Error::all': err, NS + 'Error::one': err, NS + 'Error::warning': quiet, NS + 'utils::logmesg': quiet, NS + 'Memory::create': create,
                NS + 'Memory::destroy': quiet,
                NS + 'Neighbor::add_request': lambda ip, b, a, n: log['requests'].append(ip.val(a[1], 'int') if len(a) > 1 else ZERO),
                NS + 'Comm::get_comm_cutoff': lambda ip, b, a, n: var('comm.cutoff'),
                NS + 'Comm::modify_params': lambda ip, b, a, n: log['params'].append(a)})
    return out


def world(ip, sysm):
    """the LAMMPS side of the state"""
    c = ip.st.cells
    for k in ('atom', 'comm', 'force', 'memory', 'error', 'neighbor', 'domain', 'lmp', 'update'):
        c['this.' + k] = Ptr(k, (), ZERO, obj=True)
    c['this.list'] = Ptr('list', (), ZERO, obj=True)
    c['this.allocated'] = ZERO
    c['atom.nlocal'], c['atom.nghost'], c['atom.ntypes'] = poly(sysm.nlocal), poly(sysm.nghost), poly(len(sysm.mtypes))
    c['atom.nmax'] = poly(sysm.n + 3)
    c['atom.map_user'] = c['atom.map_style'] = ONE
    c['force.newton_pair'] = c['force.newton'] = ONE
    c['comm.me'] = ZERO
    c['comm.nprocs'] = poly(2 if sysm.remote else 1)
    c['list.inum'] = poly(sysm.nlocal)
    c['list.gnum'] = poly(sysm.nghost)
    put = lambda root, path, v: ip.store(Loc(root, tuple(poly(x) for x in path)), poly(v))
    for i, t in enumerate(sysm.ltype):
        put('atom.type', (i,), t)
        put('atom.tag', (i,), sysm.tag[i])
    lst = sysm.ilist + list(range(sysm.nlocal, sysm.n))
    for ii, i in enumerate(lst):
        put('list.ilist', (ii,), i)
    for i in range(sysm.n):
        put('list.numneigh', (i,), len(sysm.neigh[i]))
        for q, j in enumerate(sysm.neigh[i]):
            put('list.firstneigh', (i, q), j + sysm.bits(i, j))
    ip.st.cells.update()


GEOM = ('atom.x',)
KNOWN = (FK + 'r_cut', 'neighbor.skin', 'comm.cutoff')


def decider(P):
    """comparisons between geometric quantities are fixed by the configuration: true when they
    hold at every point of it"""
    from terms import all_atoms
    memo = {}

    def given(a):
        if a in memo:
            return memo[a]
        ok = True
        for x in all_atoms(poly(a)):
            if x.kind == 'read' and x.args[0] not in GEOM:
                ok = False
            elif x.kind == 'var' and x.args[0] not in KNOWN:
                ok = False
            elif x.kind in ('fn', 'unk', 'defer', 'phi', 'd', 'cur', 'bvar', 'bound'):
                ok = False
        v = None
        if ok:
            try:
                vs = {bool(pt.atom(a, {})) for pt in P}
                if len(vs) == 1:
                    v = vs.pop()
            except (CannotEval, Domain):
                v = None
        memo[a] = v
        return v
    return given


def strings(ip, vals):
    r = ip.tmp()
    ip.owned.add(r.root)
    for i, v in enumerate(vals):
        ip.store(r.sub(poly(i)), Str(v))
    ip.set_size(r, poly(len(vals)))
    return Ptr(r.root, (), ZERO)


def call(ip, name, *a):
    f = fn_of(ip.prog, CLS + '::' + name)
    return ip.run(f[0], f[1], list(a))


def prepare(sysm, mode, P, bounds=False):
    p = program(*PSRC)
    log = {'overflow': [], 'sent': [], 'back': [], 'requests': [], 'params': [], 'forward': 0, 'reverse': 0}
    ip = Interp(p, models=cfgmodels(sysm, log), unroll=max(200, 4 * sysm.n), cut=True, inline_depth=20, bounds=bounds)
    ip.given = decider(P)
    M.entry(ip, sysm.cfg)
    f = fn_of(p, CLS + '::PairSymmetrixMACE', 1)
    world(ip, sysm)
    ip.run(f[0], f[1], [Ptr('lmp', (), ZERO, obj=True)])
    world(ip, sysm)
    call(ip, 'settings', ONE, strings(ip, [mode]))
    names = [SYMBOL[ZNUM[m]] for m in sysm.mtypes]
    call(ip, 'coeff', poly(3 + len(names)), strings(ip, ['*', '*', 'model.json'] + names))
    return p, ip, log


def read(ip, root, *path):
    return ip.load(Loc(root, tuple(poly(x) for x in path)), 'double')


def evaluate(ck, sysm, mode, flags=(3, 1), stale=False):
    oid = '%s/%s%s/' % (mode, sysm.label, '' if flags == (3, 1) else ' eflag=%d vflag=%d' % flags) + ('used buffers/' if stale else '')

    def one():
        P = [mkpoint(sysm, q) for q in range(3)]
        p, ip, log = prepare(sysm, mode, P)
        if stale:
            for k in ('node_types', 'num_neigh', 'neigh_indices', 'neigh_types', 'xyz', 'r', 'node_i', 'neigh_j', 'is_local', 'is_ghost', 'ghost_indices', 'H1', 'H1_adj'):
                ip.st.cells['this.%s.#n' % k] = poly(5000)
                ip.st.logs.pop('this.' + k, None)
                ip.defaults.pop('this.' + k, None)
            for k in M.BUFFERS:
                ip.st.cells['this.mace.%s.#n' % k] = poly(100000)
                ip.st.logs.pop('this.mace.' + k, None)
                ip.defaults.pop('this.mace.' + k, None)
        f = fn_of(p, CLS + '::compute', 2)
        ip.run(f[0], f[1], [poly(flags[0]), poly(flags[1])])
        for q, _w in ip.calls:
            ck.analysed(q)
        ck.analysed(CLS + '::compute')
        g = p.find(CLS + '::compute_' + mode)
        wh = where(g[0][1]) if g else where(f[1])
        if ip.unsupported:
            ck.und(oid, ip.unsupported[0][1], 'not modelled: ' + ip.unsupported[0][0])
            return
        if ip.throws:
            ck.bad(oid + 'accepted', ip.throws[0][3], 'a valid run ends in an error')
            return
        ck.decide(oid + 'message-size', wh, not log['overflow'], '; '.join(log['overflow'][:1]))
        N = sysm.nlocal
        # energy as a function of the positions: the node energies of the evaluator
        tot = ZERO
        for i in range(N):
            tot = tot + read(ip, 'this.mace.node_energies', i)
        eng = ip.load(Loc('this.eng_vdwl'), 'double')
        try:
            if not sysm.remote:
                refs = [ref_energy(pt, sysm.cfg) for pt in P]
                if flags[0] & 1:
                    M.cmpv(ck, oid + 'eng_vdwl', wh, eng, [sum(r[:N]) for r in refs], P, 'eng_vdwl is not the energy of the owned atoms')
                if flags[0] & 2:
                    for i in range(N):
                        M.cmpv(ck, oid + 'eatom-%d' % i, wh, read(ip, 'this.eatom', i), [r[i] for r in refs], P, 'eatom[%d] is not the energy of that atom' % i)
            lag = tot
            for k, v in enumerate(log['sent']):
                lag = lag + v * poly(Atom('read', 'swap.back', (poly(k),)))
            G = [gradient(pt, lag, DFNS) for pt in P]
            if sysm.remote:
                E = [gradient(pt, tot, DFNS) for pt in P]
                for k, v in enumerate(log['back']):
                    M.cmpv(ck, oid + 'returned-%d' % k, wh, v, [gr.get(('swap.in', (k,)), 0.0) for gr in E], P, 'value %d sent back is not the derivative of the local energy by the value received' % k)
            F = [[read(ip, 'atom.f', i, a) - poly(Atom('read', 'atom.f', (poly(i), poly(a)))) for a in range(3)] for i in range(sysm.n)]
            for i in range(sysm.n):
                if sysm.owner[i] != i:
                    continue
                im = [k for k in range(sysm.n) if sysm.owner[k] == i]
                for a in range(3):
                    t = ZERO
                    for k in im:
                        t = t + F[k][a]
                    M.cmpv(ck, oid + 'force-%d-%s' % (i, 'xyz'[a]), wh, t, [-sum(gr.get(('atom.x', (k, a)), 0.0) for k in im) for gr in G], P,
                           'force on atom %d is not minus the derivative of the energy' % i)
            if flags[1] & 1:
                for q, (a, b) in enumerate(((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))):
                    w = lambda a, b: [-sum(pt.sym('read', 'atom.x', (k, a)) * gr.get(('atom.x', (k, b)), 0.0) for k in range(sysm.n)) for pt, gr in zip(P, G)]
                    x, y = w(a, b), w(b, a)
                    v = read(ip, 'this.virial', q)
                    cand = [x] if a == b else [[0.5 * (s + t) for s, t in zip(x, y)], x, y]
                    good = isinstance(v, Poly) and not taints(v) and any(all(abs(float(pt.poly(v, {})) - c) <= 1e-7 * max(abs(c), 1e-2) for pt, c in zip(P, cs)) for cs in cand)
                    if good:
                        ck.ok(oid + 'virial-%d' % q, wh, 'equal by identity test (%d points)' % len(P))
                    else:
                        M.cmpv(ck, oid + 'virial-%d' % q, wh, v, cand[0], P, 'virial[%d] is not the sum of pair vector times pair force' % q)
        except (CannotEval, Domain) as e:
            ck.und(oid, wh, 'term cannot be compared: %s' % e)
    ck.attempt(oid, one, limit=400)


ALL = MODES
TWO = (MODES[0], MODES[2])
LONG = [(0, 0, 0), (0.7, 0.2, 0.1), (1.5, -0.1, 0.2)]
SYSTEMS = [
    System('3 atoms in a periodic chain', ALL, LONG, [1, 2, 1], [2, 3, 1], period=(2.4, 0, 0), skin=0.35, zbl=True),
    System('2 atoms next to their own images, scaled', ALL, [(0, 0, 0), (0.3, 0.93, -0.1)], [2, 1], [7, 4], period=(0.8, 0.1, 0), skin=0.15, scaled=True, zbl=True, C=2,
           paths=((0, 0, 0), (1, 1, 0), (1, 0, 1))),
    System('isolated atom, no ghosts, list in another order', TWO, [(0, 0, 0), (4, 0, 0), (0.5, 0.5, 0.3), (0.2, -0.6, 0.4)], [1, 2, 2, 1], [1, 2, 3, 4], ilist=[2, 0, 3, 1], skin=0.5,
           scaled=(True, False), mtypes=(0, 2), nel=3),
    System('ghosts owned by other processes', (MODES[2],), [(0, 0, 0), (0.6, 0.3, 0.1)], [1, 2], [5, 9], foreign=[((-0.7, 0.1, 0.2), 2, 3), ((1.2, -0.2, 0.3), 1, 8), ((1.9, 0.2, 0.1), 2, 6), ((1.0, 0.9, 1.0), 2, 11)],
           ilist=[1, 0], skin=0.4),
    System('messages to and from other processes', (MODES[1],), [(0, 0, 0), (0.6, 0.3, 0.1), (0.1, 0.8, 0.3)], [1, 2, 2], [5, 9, 2], foreign=[((-0.7, 0.1, 0.2), 2, 3), ((1.2, -0.2, 0.3), 1, 8), ((0.9, 1.0, 0.1), 2, 6)],
           swaps=[([0, 2], 3), ([0], 5)], remote=True, skin=0.4, C=2),
]
FLAGS = [(0, 0), (1, 0), (2, 2)]


def larger(k):
    """systems with one size beyond k"""
    n = k + 2
    small = dict(L_max=0, paths=((0, 0, 0), (1, 1, 0)))
    pos = [(3.0 * i, 0.1 * (i % 3), 0) for i in range(n - 1)] + [(0.5, 0.3, 0.2)]
    out = [System('%d atoms' % n, ALL, pos, [1 + i % 2 for i in range(n)], [1 + (7 * i) % n if n % 7 else i + 1 for i in range(n)], skin=0.3, **small)]
    if k <= 8:
        small.update(l_max=0, paths=((0, 0, 0),))
        pts_ = [(0, 0, 0)]
        q = 0
        while len(pts_) < n + 1 and q < 4000:
            q += 1
            v = [h01('star', q, a) - 0.5 for a in range(3)]
            l = math.sqrt(sum(x * x for x in v))
            p = tuple(0.75 * x / l for x in v)
            if l > 0.1 and all(abs(math.dist(p, o) - RC) > 0.05 and abs(math.dist(p, o) - RC - 0.6) > 0.03 and math.dist(p, o) > 0.15 for o in pts_):
                pts_.append(p)
        out.append(System('%d neighbours' % (len(pts_) - 1), TWO, pts_, [1 + i % 2 for i in range(len(pts_))], list(range(1, len(pts_) + 1)), skin=0.6, **small))
    return out


def p_pair(ck):
    ck.rule('pair', 'after PairSymmetrixMACE(lmp); settings(mode); coeff(...); compute(eflag, vflag), at each constant system (atoms, images, neighbour lists with a skin and special bits, message swaps): '
            'eng_vdwl and eatom equal the reference MACE energies of the owned atoms; the forces added to an atom and its images equal minus the formal derivative of the energy; virial equals the sum of pair vector times pair force')
    ck.assume('LAMMPS builds full neighbour lists (with ghost lists when asked) of every pair within cutoff + skin, adds ghost forces to their owners, and swaps messages through pack/unpack as announced by comm_forward/comm_reverse')
    ck.assume('ilist holds the owned atoms in index order in mode mpi_message_passing (LAMMPS builds full lists that way); any order in the other modes')
    M.common_notes(ck)
    for sysm in SYSTEMS:
        for mode in sysm.modes:
            evaluate(ck, sysm, mode)
    s = SYSTEMS[0]
    for mode in s.modes:
        evaluate(ck, s, mode, stale=True)
        for fl in FLAGS:
            evaluate(ck, s, mode, fl)
    for k in [k for k in ck.thresholds(100) if k < 2 ** 20][-2:]:
        ck.notes.append('a size is compared with %d: larger systems analysed as well' % k)
        for sysm in larger(k):
            for mode in sysm.modes:
                evaluate(ck, sysm, mode)


# ---------------------------------------------------------------- set-up
def fresh(sysm=None, **cells):
    sysm = sysm or SYSTEMS[0]
    p = program(*PSRC)
    log = {'overflow': [], 'sent': [], 'back': [], 'requests': [], 'params': [], 'forward': 0, 'reverse': 0}
    ip = Interp(p, models=cfgmodels(sysm, log), unroll=200, cut=True, inline_depth=20)
    M.entry(ip, sysm.cfg)
    world(ip, sysm)
    f = fn_of(p, CLS + '::PairSymmetrixMACE', 1)
    ip.run(f[0], f[1], [Ptr('lmp', (), ZERO, obj=True)])
    world(ip, sysm)
    for k, v in cells.items():
        ip.st.cells[k.replace('__', '.')] = poly(v)
    return ip, log


def script(ck, oid, steps, refuse=None, then=None, **cells):
    """run the commands; refuse: index of the step that has to end in an error (None: none may)"""
    def one():
        sysm = cells.pop('sysm', None)
        g = cells.pop('given', None)
        ip, log = fresh(sysm, **cells)
        ip.given = g
        wh = ''
        out = None
        for q, (name, a) in enumerate(steps):
            f = fn_of(ip.prog, CLS + '::' + name)
            wh = where(f[1])
            ck.analysed(CLS + '::' + name)
            a = [strings(ip, x) if isinstance(x, list) else poly(x) for x in a]
            out = ip.run(f[0], f[1], a)
            if ip.unsupported:
                ck.und(oid, ip.unsupported[0][1], 'not modelled: ' + ip.unsupported[0][0])
                return
            t = [x for x in ip.throws if not x[0].is_zero()]
            if t:
                if refuse == q:
                    ck.decide(oid, wh, t[0][0] == ONE, 'the command is refused only under a condition')
                else:
                    ck.bad(oid, t[0][3], '%s ends in an error for valid input' % name)
                return
        if refuse is not None:
            ck.bad(oid, wh, '%s accepts the command' % steps[refuse][0])
            return
        if then:
            then(ip, log, out, wh)
        else:
            ck.ok(oid, wh, 'accepted')
    ck.attempt(oid, one, limit=120)


def cfgname(k):
    return ['*', '*', 'model.json'] + k


def p_setup(ck):
    ck.rule('setup', 'interpretation of the commands pair_style / pair_coeff / initialisation over a modelled LAMMPS, at every listed argument list: what must be refused reaches error->all unconditionally, what is valid does not, and leaves the state the evaluation needs')
    ck.assume('error->all does not return')
    st = lambda m: ('settings', [1, [m]])
    co = lambda *e: ('coeff', [3 + len(e), cfgname(list(e))])
    s0 = SYSTEMS[0]           # two LAMMPS types, model elements H, O

    def mode_is(m):
        def then(ip, log, out, wh):
            v = ip.st.cells.get('this.mode')
            ck.decide('settings/default-mode-%s' % m, wh, isinstance(v, Str) and v.s == m, 'mode is %r, not %s' % (v, m))
        return then
    script(ck, 'settings/default-mode-no_domain_decomposition', [('settings', [0, []])], then=mode_is(MODES[0]), comm__nprocs=1)
    script(ck, 'settings/default-mode-mpi_message_passing', [('settings', [0, []])], then=mode_is(MODES[1]), comm__nprocs=4)
    for m in MODES:
        for n in (1, 3):
            bad = m == MODES[0] and n > 1
            script(ck, 'settings/%s/%d processes' % (m, n), [st(m)], refuse=0 if bad else None, comm__nprocs=n)
    for m in ('nonsense', 'no_domain', 'MPI_message_passing', ''):
        script(ck, 'settings/unknown mode %r' % m, [st(m)], refuse=0)
    script(ck, 'settings/two arguments', [('settings', [2, [MODES[0], MODES[1]]])], refuse=0)

    zn = ZNUM[:2]
    for m in MODES:
        for names, want in ((['H', 'O'], [0, 1]), (['O', 'H'], [1, 0]), (['O', 'O'], [1, 1])):
            def types(ip, log, out, wh, names=names, want=want, m=m):
                n = ip.load(Loc('this.mace_types.#n'), 'int').const()
                got = [ip.load(Loc('this.mace_types', (poly(i),)), 'int') for i in range(2)]
                ck.decide('coeff/%s/%s/types' % (m, ' '.join(names)), wh, n == 2 and got == [poly(w) for w in want], 'atom types are mapped to model elements %s, not %s' % (got, want))
                sz = s0.cfg.num_LM * s0.cfg.C
                for k in ('comm_forward', 'comm_reverse'):
                    v = ip.load(Loc('this.' + k), 'int').const()
                    ck.decide('coeff/%s/%s/%s' % (m, ' '.join(names), k), wh, v is not None and (m != MODES[1] or v >= sz), '%s is %s; a message holds %d values per atom' % (k, v, sz))
                for i in (1, 2):
                    for j in range(i, 3):
                        v = ip.load(Loc('this.setflag', (poly(i), poly(j))), 'int')
                        ck.decide('coeff/%s/%s/setflag-%d-%d' % (m, ' '.join(names), i, j), wh, v == ONE, 'setflag[%d][%d] is %s' % (i, j, v))
            script(ck, 'coeff/%s/%s' % (m, ' '.join(names)), [st(m), co(*names)], then=types)
    script(ck, 'coeff/unknown element', [st(MODES[0]), co('H', 'Xx')], refuse=1)
    script(ck, 'coeff/lower case', [st(MODES[0]), co('H', 'o')], refuse=1)
    script(ck, 'coeff/element not in the model', [st(MODES[0]), co('H', 'Si')], refuse=1)
    script(ck, 'coeff/too few elements', [st(MODES[0]), co('H')], refuse=1)
    script(ck, 'coeff/no model file', [st(MODES[0]), ('coeff', [2, ['*', '*']])], refuse=1)
    # every element of the periodic table
    table(ck)

    good = [st(MODES[1]), co('H', 'O')]
    script(ck, 'init_style/no atom map', good + [('init_style', [])], refuse=2, atom__map_user=0, atom__map_style=0)
    script(ck, 'init_style/newton off', good + [('init_style', [])], refuse=2, force__newton_pair=0, force__newton=0)
    for m in MODES:
        for cutoff in (1.0, 2.25, 2.34, 2.36, 9.0):
            P = [Point(q, None, {}, lambda k, name, path, c=cutoff: {FK + 'r_cut': RC, 'neighbor.skin': 0.35, 'comm.cutoff': c}.get(name)) for q in range(1)]

            def requests(ip, log, out, wh, m=m, cutoff=cutoff, P=P):
                o = 'init_style/%s/communication cutoff %g/' % (m, cutoff)
                fl = [x.const() for x in log['requests']]
                ck.decide(o + 'neighbour-list', wh, len(fl) == 1 and fl[0] is not None and int(fl[0]) & 1 == 1 and (m != MODES[2] or int(fl[0]) & 2 == 2),
                          'the neighbour list requested has flags %s' % fl)
                if m != MODES[2] or cutoff >= 2.35:
                    return
                if not log['params']:
                    ck.bad(o + 'communication', wh, 'ghosts are only known out to %g while two model cutoffs plus the skin are 2.35' % cutoff)
                    return
                a = log['params'][-1]
                key = ip.load(a[1].at(ZERO), 'char *') if isinstance(a[1], Ptr) else None
                val = ip.load(a[1].at(ONE), 'char *') if isinstance(a[1], Ptr) else None
                ok = isinstance(key, Str) and key.s == 'cutoff'
                num = numtext(val)
                if num is None:
                    ck.und(o + 'communication', wh, 'value of the communication cutoff')
                    return
                x = float(P[0].poly(num, {}))
                ck.decide(o + 'communication', wh, ok and x >= 2.35 - 1e-9, 'the communication cutoff becomes %g; two model cutoffs plus the skin are 2.35' % x)
            script(ck, 'init_style/%s/communication cutoff %g' % (m, cutoff), [st(m), co('H', 'O'), ('init_style', [])], then=requests, given=decider(P))

    def rcut(ip, log, out, wh):
        ck.decide('init_one/cutoff', wh, isinstance(out, Poly) and out == var(FK + 'r_cut'), 'init_one returns %s, not the cutoff of the model' % out)
    script(ck, 'init_one/cutoff', good + [('init_one', [1, 2])], then=rcut)
    script(ck, 'compute/per-atom virials', good + [('compute', [3, 4])], refuse=2, given=decider([mkpoint(s0, 0)]))


TOTEXT = {}


def numtext(v):
    """number a text was made from"""
    if isinstance(v, Str) and v.s in TOTEXT:
        return TOTEXT[v.s]
    return None


ELEMENTS = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd '
            'Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()


def table(ck):
    """a model holding a single element is found by that element's symbol only"""
    def one():
        for q in range(0, 118, 59):
            ip, log = fresh(None, atom__ntypes=59)
            names = ELEMENTS[q:q + 59]
            M.put_int(ip, FK + 'atomic_numbers', list(range(q + 1, q + 60)))
            ip.st.cells[FK + 'num_elements'] = poly(2)
            call(ip, 'settings', ONE, strings(ip, [MODES[0]]))
            f = fn_of(ip.prog, CLS + '::coeff')
            ip.run(f[0], f[1], [poly(3 + 59), strings(ip, cfgname(names))])
            if ip.unsupported:
                ck.und('coeff/periodic table', ip.unsupported[0][1], 'not modelled: ' + ip.unsupported[0][0])
                return
            if ip.throws:
                ck.bad('coeff/periodic table', ip.throws[0][3], 'a symbol of the periodic table is refused')
                return
            for i in range(59):
                v = ip.load(Loc('this.mace_types', (poly(i),)), 'int')
                ck.decide('coeff/periodic table/' + names[i], where(f[1]), v == poly(i), 'symbol %s is taken for atomic number %s, not %d' % (names[i], v + q + 1 if isinstance(v, Poly) else v, q + i + 1))
    ck.attempt('coeff/periodic table', one, limit=200)
