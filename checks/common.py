"""Obligation bookkeeping shared by all checks."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, HERE)

from frontend import AnalysisBroken, REPO  # noqa: E402
from terms import Clock, TimeLimit  # noqa: E402
from values import LIVE, COV, lost  # noqa: E402

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Check:
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = []          # (status, id, where, text)
        self.functions = set()
        self.rules = {}
        self.assumptions = []
        self.notes = []
        self.level = 'other'
        self.budget = 600 if tier == 'quick' else 3000      # seconds for the whole check
        self.per_group = 150 if tier == 'quick' else 900

    # ---- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, oid, where='', text=''):
        if self.given_up(oid, where):
            return
        self.obl.append(('ok', oid, where, text))

    def bad(self, oid, where, text):
        if self.given_up(oid, where):
            return
        self.obl.append(('violated', oid, where, text))

    def given_up(self, oid, where):
        """a summary built over a construct the engine does not model decides nothing"""
        u = lost()
        if u:
            self.und(oid, u[1] or where, 'not modelled: %s' % (u[0],))
        return bool(u)

    def und(self, oid, where, text):
        self.obl.append(('undecided', oid, where, text))

    def decide(self, oid, where, cond, text_bad, text_ok=''):
        (self.ok(oid, where, text_ok) if cond else self.bad(oid, where, text_bad))

    def analysed(self, fn):
        self.functions.add(fn)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def attempt(self, oid, f, *a, limit=None, **k):
        """run one group of obligations; an engine limit leaves it undecided"""
        left = self.budget - (time.time() - self.t0)
        if left < 5:
            self.und(oid, '', 'time budget of the check used up')
            return None
        try:
            Clock.set(min(left, limit or self.per_group))
            LIVE.clear()
            return f(*a, **k)
        except TimeLimit:
            self.und(oid, '', 'analysis limit: time')
        except AnalysisBroken as e:
            self.und(oid, '', 'anchor not found: %s' % e)
        except Exception as e:       # noqa: BLE001  (engine limits are not verdicts)
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.und(oid, '', 'analysis limit: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:160], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        finally:
            Clock.set(None)
            LIVE.clear()
        return None

    def thresholds(self, cap, before=()):
        """numbers of the program that a size of every configuration so far was on the same side of"""
        out = set()
        for (kind, wh), v in COV.items():
            if kind.startswith('cmp ') and len(v - {2}) == 1 and (kind, wh) not in before:
                k = int(kind[4:])
                if 3 <= k <= cap:
                    out.add(k)
        return sorted(out)

    def beyond(self, group, cap, more, before=()):
        """more(K): (label, function) pairs deciding the same obligations with sizes beyond K"""
        for k in self.thresholds(cap, before)[-3:]:
            self.notes.append('%s: a size is compared with %d; sizes beyond it analysed as well' % (group, k))
            for label, fn in more(k):
                saved, self.obl = self.obl, []
                self.attempt(group, fn, limit=120)
                got, self.obl = self.obl, saved
                self.obl += [(s, o, w, '[sizes %s] %s' % (label, t)) for s, o, w, t in got]

    def staged(self, group, symbolic, configs, more=None, cap=200):
        """decide a group of obligations for symbolic sizes; whatever stays
        undecided is decided again with the sizes fixed to each configuration"""
        before = set(COV)
        self.staged1(group, symbolic, configs)
        if more is not None:
            self.beyond(group, cap, more, before)

    def staged1(self, group, symbolic, configs):
        saved, self.obl = self.obl, []
        self.attempt(group, symbolic, limit=60 if self.tier == 'quick' else 600)
        first, self.obl = self.obl, saved
        und = {o[1] for o in first if o[0] == 'undecided'}
        if not und:
            self.obl += first
            return
        why = next(o[3] for o in first if o[0] == 'undecided')
        self.obl += [o for o in first if o[0] != 'undecided']
        have = {o[1] for o in first if o[0] != 'undecided'}
        res = {}
        for label, fn in configs:
            saved, self.obl = self.obl, []
            self.attempt(group, fn, limit=60)
            got, self.obl = self.obl, saved
            for o in got:
                res.setdefault(o[1], []).append((label, o))
        if not res:
            self.obl += [o for o in first if o[0] == 'undecided']
            return
        n = len(configs)
        anyres = False
        for oid, rs in res.items():
            if oid in have or (oid == group and len(res) > 1 and all(o[0] == 'undecided' for _, o in rs) and False):
                continue
            bad = [(l, o) for l, o in rs if o[0] == 'violated']
            un = [(l, o) for l, o in rs if o[0] == 'undecided']
            wh = rs[0][1][2]
            anyres = True
            if bad:
                self.bad(oid, bad[0][1][2], '[sizes %s] %s' % (bad[0][0], bad[0][1][3]))
            elif un:
                self.und(oid, wh, '[sizes %s] %s; symbolic: %s' % (un[0][0], un[0][1][3], why))
            else:
                self.ok(oid, wh, 'decided at %d size configurations (%s)' % (len(rs), ', '.join(l for l, _ in rs)))
        if not anyres:
            self.obl += [o for o in first if o[0] == 'undecided']

    # ---- reporting
    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN)).get('findings', []) if k['property'] == self.pid and k.get('status') == 'known']
        dec = [o for o in self.obl if o[0] != 'undecided']
        okn = [o for o in self.obl if o[0] == 'ok']
        viol, kn = [], []
        for o in self.obl:
            if o[0] != 'violated':
                continue
            k = [x for x in known if x['obligation'] == o[1]]
            (kn if k else viol).append(o)
        und = [o for o in self.obl if o[0] == 'undecided']
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': self.level,
            'coverage': {
                'explanation': 'static analysis of %s: %d functions summarised, %d obligations, %d hold, %d violated, %d undecided' % (
                    REPO, len(self.functions), len(self.obl), len(okn), len(viol) + len(kn), len(und)),
                'obligations': len(self.obl), 'discharged': len(okn),
                'functions_analysed': sorted(self.functions),
                'rules': self.rules,
                'held': [{'obligation': o[1], 'where': o[2], 'note': o[3]} for o in okn],
                'notes': self.notes,
                'undecided': [{'obligation': o[1], 'where': o[2], 'why': o[3]} for o in und],
                'violated': [{'obligation': o[1], 'where': o[2], 'what': o[3]} for o in viol],
                'known_findings': [{'obligation': o[1], 'where': o[2], 'what': o[3]} for o in kn],
                'checker_cmd': 'python3 checks/run.py %s --tier %s' % (self.pid, self.tier),
                'trusted_base': ['clang 18 front end (JSON AST)', 'engine/*.py value-graph construction and normaliser', 'models of std:: containers/algorithms and CBLAS in engine/exprs.py'],
            },
            'assumptions': self.assumptions,
            'violations': len(viol),
            'wall_s': round(time.time() - self.t0, 3),
        }
        evd = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        path = os.path.join(evd, self.pid + '.json')
        json.dump(ev, open(path, 'w'), indent=1)
        print('%s: %d functions analysed, %d obligations: %d hold, %d violated, %d known, %d undecided (%.1fs)' % (
            self.pid, len(self.functions), len(self.obl), len(okn), len(viol), len(kn), len(und), ev['wall_s']))
        if os.environ.get('VERIF_COV'):
            for k, v in sorted(COV.items()):
                if len(v) == 1 and 2 not in v:
                    print('ONE-SIDED', k, v)
        for o in und:
            print('UNDECIDED %s %s %s' % (o[1], o[2], o[3][:300]))
        for o in kn:
            print('KNOWN-FINDING: property=%s %s %s: %s' % (self.pid, o[1], o[2], o[3][:300]))
        for o in viol:
            print('  %s at %s: %s' % (o[1], o[2], o[3][:600]))
        if viol:
            rp = os.path.join(evd, self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                f.write('property %s violated; re-run: cd /verif && python3 checks/run.py %s\n' % (self.pid, self.pid))
                for o in viol:
                    f.write('%s\n  at %s\n  %s\n' % (o[1], o[2], o[3]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if not okn and not kn:
            print('ANALYSIS-BROKEN property=%s: no obligation could be decided' % self.pid)
            return 2
        return 0
