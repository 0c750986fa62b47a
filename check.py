#!/usr/bin/env python3
"""check.py <property id>: decide one property from the current sources of /repo.
Exit 0: it holds; 1: violated (VIOLATION line); 2: the analysis gives no answer."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'rules')]
sys.setrecursionlimit(20000)

import facts            # noqa: E402
from report import Ctx  # noqa: E402
from registry import CHECKS  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a.startswith('--tier='):
            tier = a[7:]
    ctx = Ctx(pid, tier)
    try:
        todo = CHECKS[pid]
        for mod, fn in [todo] if isinstance(todo, tuple) else todo:
            getattr(importlib.import_module(mod), fn)(ctx)
    except facts.AnalysisBroken as e:
        if ctx.viol:
            return ctx.finish()
        print('%s: no answer: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return ctx.finish()


sys.exit(main())
