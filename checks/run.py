#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    import registry
    mod, fn = registry.CHECKS[pid]
    ck = common.Check(pid, tier)
    try:
        getattr(importlib.import_module(mod), fn)(ck)
    except common.AnalysisBroken as e:
        ck.und('front-end', '', str(e))
    return ck.finish()


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
