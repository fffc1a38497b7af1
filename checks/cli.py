"""The command line of the extractor (part of P21): main() of cli/extract_mace.py, interpreted for
enumerated command lines; argparse, pathlib, json and open are given by their meaning."""
import ast
import os

from common import AnalysisBroken, REPO
from values import Unsupported
from pyval import PyInterp, PyRaise, Obj, Opaque, Model, NSpace, Fn
from pathlib import PurePosixPath

FILE = 'symmetrix/source/symmetrix/cli/extract_mace.py'
MISSING = object()


class Run:
    def __init__(self, argv):
        self.argv, self.extracted, self.files, self.order = argv, None, {}, []
        sig = None
        for n in ast.parse(open(os.path.join(REPO, 'symmetrix/source/symmetrix/extract_mace_data.py'), encoding='utf-8').read()).body:
            if isinstance(n, ast.FunctionDef) and n.name == 'extract_mace_data':
                sig = n.args
        if sig is None:
            raise AnalysisBroken('extract_mace_data')
        self.sig = sig
        path = os.path.join(REPO, FILE)
        if not os.path.exists(path):
            raise AnalysisBroken(FILE)
        ex = Model(self.extract)
        parser = Model(self.parser)
        mods = {'argparse': NSpace('argparse', ArgumentParser=parser), 'argparse.ArgumentParser': parser,
                'json': NSpace('json', dumps=Model(self.dumps), dump=Model(self.dump)), 'json.dump': Model(self.dump), 'json.dumps': Model(self.dumps),
                'pathlib': NSpace('pathlib', Path=Model(lambda ip, a, k: self.path(*a))), 'pathlib.Path': Model(lambda ip, a, k: self.path(*a)),
                'os': NSpace('os', path=NSpace('os.path', splitext=Model(lambda ip, a, k: os.path.splitext(self.text(a[0]))), basename=Model(lambda ip, a, k: os.path.basename(self.text(a[0]))))),
                '..extract_mace_data.extract_mace_data': ex, '..extract_mace_data': NSpace('extract_mace_data', extract_mace_data=ex),
                'symmetrix.extract_mace_data.extract_mace_data': ex, 'symmetrix.extract_mace_data': NSpace('extract_mace_data', extract_mace_data=ex)}
        self.ip = PyInterp(path, FILE, mods, {'open': Model(self.open), 'print': Model(lambda ip, a, k: None)})
        self.ip.load_module()
        self.fn = self.ip.globals.get('main')
        if not isinstance(self.fn, Fn):
            raise AnalysisBroken('main in ' + FILE)

    def text(self, x):
        if isinstance(x, Obj) and 'path' in x.attrs:
            return str(x.attrs['path'])
        if not isinstance(x, str):
            raise Unsupported('path')
        return x

    def path(self, x):
        p = PurePosixPath(self.text(x))
        o = Obj('Path', path=p, suffix=p.suffix, stem=p.stem)
        o.attrs['name'] = p.name
        o.attrs['with_suffix'] = Model(lambda ip, a, k: self.path(str(p.with_suffix(a[0]))))
        o.attrs['open'] = Model(lambda ip, a, k: self.open(ip, [o] + list(a), k))
        o.attrs['write_text'] = Model(lambda ip, a, k: self.files.__setitem__(str(p), a[0]))
        return o

    def extract(self, ip, a, k):
        names = [x.arg for x in self.sig.args]
        got = dict(zip(names, a))
        for q, v in k.items():
            if q not in names or q in got:
                raise PyRaise('TypeError', 'unexpected argument %s of extract_mace_data' % q)
            got[q] = v
        if len(a) > len(names):
            raise PyRaise('TypeError', 'too many arguments to extract_mace_data')
        for n, d in zip(names[len(names) - len(self.sig.defaults):], self.sig.defaults):
            got.setdefault(n, ast.literal_eval(d))
        if self.extracted is not None:
            raise Unsupported('second extraction')
        self.extracted = got
        return Obj('data')

    def dumps(self, ip, a, k):
        if isinstance(a[0], Obj) and a[0].objname == 'data':
            return 'json(data)'
        raise Unsupported('json of something else')

    def dump(self, ip, a, k):
        f = a[1] if len(a) > 1 else k['fp']
        ip.call(ip.attr(f, 'write'), [self.dumps(ip, a[:1], k)], {})

    def open(self, ip, a, k):
        name = self.text(a[0])
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if mode not in ('w', 'wt', 'x'):
            raise Unsupported('open mode %s' % mode)
        self.files[name] = ''
        st = {'open': True}

        def write(ip, a, k):
            if not st['open']:
                raise PyRaise('ValueError', 'I/O operation on closed file.')
            self.files[name] += a[0]

        def close(ip, a, k):
            st['open'] = False
        f = Obj('file', write=Model(write), close=Model(close), __exit__=Model(close), flush=Model(lambda ip, a, k: None))
        f.attrs['name'] = name
        f.attrs['__enter__'] = Model(lambda ip, a, k: f)
        self.open_files = getattr(self, 'open_files', []) + [(name, st)]
        return f

    def parser(self, ip, a, k):
        opts = []

        def add(group):
            def f(ip, a, k):
                flags = list(a)
                if any(x not in ('required', 'help', 'nargs', 'default', 'dest', 'metavar', 'type', 'action', 'choices') for x in k):
                    raise Unsupported('add_argument option')
                if k.get('action', 'store') != 'store' or k.get('choices') is not None or k.get('type') not in (None,) or k.get('nargs') not in (None, '+', '*', '?'):
                    if not (callable(k.get('type')) or isinstance(k.get('type'), (Model, Fn, Obj))):
                        raise Unsupported('add_argument option')
                long = [x for x in flags if x.startswith('--')]
                pos = not flags[0].startswith('-')
                dest = k.get('dest') or (long[0][2:] if long else flags[0].lstrip('-')).replace('-', '_')
                opts.append(dict(flags=flags, pos=pos, dest=dest, nargs=k.get('nargs'), default=k.get('default'), required=bool(k.get('required', False)) or (pos and k.get('nargs') in (None, '+')), group=group, type=k.get('type')))
            return Model(f)

        def group(ip, a, k):
            g = Obj('group')
            g.attrs['add_argument'] = add(g)
            return g

        def plain_group(ip, a, k):
            return Obj('group', add_argument=add(None))

        def conv(ip, o, x):
            return ip.call(o['type'], [x], {}) if o['type'] is not None else x

        def parse(ip, a, k):
            if a or k:
                raise Unsupported('parse_args with arguments')
            vals, used = {}, {}
            av = list(self.argv)
            i = 0
            free = [o for o in opts if o['pos']]
            while i < len(av):
                t = av[i]
                if t.startswith('-') and len(t) > 1:
                    hit = [o for o in opts if t in o['flags']] or [o for o in opts if t.startswith('--') and any(f.startswith(t) for f in o['flags'])]
                    if not hit:
                        raise PyRaise('SystemExit', 'unrecognised option ' + t)
                    o = hit[0]
                    i += 1
                else:
                    if not free:
                        raise PyRaise('SystemExit', 'unrecognised argument ' + t)
                    o = free.pop(0)
                xs = []
                while i < len(av) and not av[i].startswith('-') and (o['nargs'] in ('+', '*') or not xs):
                    xs.append(conv(ip, o, av[i]))
                    i += 1
                if not xs and o['nargs'] not in ('*', '?'):
                    raise PyRaise('SystemExit', 'expected an argument')
                if o['group'] is not None and used.setdefault(id(o['group']), o) is not o:
                    raise PyRaise('SystemExit', 'not allowed together')
                vals[o['dest']] = xs if o['nargs'] in ('+', '*') else xs[0]
            for o in opts:
                if o['required'] and o['dest'] not in vals:
                    raise PyRaise('SystemExit', 'required argument ' + o['dest'])
                if o['dest'] not in vals:
                    vals[o['dest']] = o['default']
            r = Obj('args', **vals)
            r.attrs['@closed'] = True
            return r
        p = Obj('parser', add_argument=add(None), parse_args=Model(parse), add_mutually_exclusive_group=Model(group), add_argument_group=Model(plain_group))
        p.attrs['error'] = Model(lambda ip, a, k: self.stop())
        return p

    def stop(self):
        raise PyRaise('SystemExit', 'error')

    def run(self):
        self.ip.call_fn(self.fn, [], {})


LINES = [
    ('all species', ['--model', 'dir/a.model'], [], None, None),
    ('atomic numbers', ['--model', 'a.model', '--atomic-numbers', '8', '1', '--output', 'out/x.json'], ['8', '1'], None, 'out/x.json'),
    ('symbols and head', ['-m', 'a', '-s', 'H', 'O', '-H', 'second', '-o', 'y'], ['H', 'O'], 'second', 'y'),
    ('long forms', ['--chemical-symbols', 'Zr', 'H', '--head', 'h', '--model', 'b.pt'], ['Zr', 'H'], 'h', None),
    ('short numbers', ['-Z', '40', '-m', 'c.model', '-o', 'z.json'], ['40'], None, 'z.json'),
]


def p_cli(ck):
    ck.rule('command', 'the command extracts the given model for the given species and head and writes exactly the returned data to the given file')
    for label, argv, species, head, outp in LINES:
        def go():
            w = Run(argv)
            wh = w.ip.where(w.fn.node)
            oid = 'command/' + label
            try:
                w.run()
            except PyRaise as e:
                if e.kind == 'NameError':
                    raise Unsupported('name %s' % e.text)
                ck.bad(oid, w.ip.where(e.node) if e.node is not None else wh, 'the command line %r stops with %s: %s' % (' '.join(argv), e.kind, e.text))
                return
            ck.analysed('main')
            g = w.extracted
            if g is None:
                ck.bad(oid, wh, 'nothing is extracted')
                return
            model = argv[[i for i, x in enumerate(argv) if x in ('-m', '--model')][0] + 1]
            sp = g.get('species')
            have = [str(x) for x in sp] if isinstance(sp, (list, tuple)) else [] if sp is None else sp
            bad = ''
            if w.text(g.get('model')) != model:
                bad = 'model %r asked for, %r extracted' % (model, w.text(g.get('model')))
            elif not isinstance(have, list) or sorted(have) != sorted(species):
                bad = 'species %r asked for, %r extracted' % (species, have)
            elif g.get('head') != head:
                bad = 'head %r asked for, %r kept' % (head, g.get('head'))
            elif outp is not None and set(w.files) != {outp}:
                bad = 'output %r asked for, %r written' % (outp, sorted(w.files))
            elif len(w.files) != 1 or any(v.strip() != 'json(data)' for v in w.files.values()):
                bad = 'the file written does not hold exactly the extracted data'
            ck.decide(oid, wh, not bad, bad)
        ck.attempt('command/' + label, go, limit=30)

    def both():
        for label, argv in (('no model', ['-Z', '1']), ('numbers and symbols', ['-m', 'a.pt', '-Z', '1', '-s', 'H'])):
            w = Run(argv)
            try:
                w.run()
            except PyRaise as e:
                ck.ok('command/' + label, FILE, 'refused')
                continue
            ck.bad('command/' + label, w.ip.where(w.fn.node), 'the command line %r is accepted' % ' '.join(argv))
    ck.attempt('command/refused', both, limit=30)
