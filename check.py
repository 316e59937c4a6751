#!/usr/bin/env python3
"""python3 check.py ID...   decides properties on the current source of /repo (VERIF_REPO overrides the tree, for development)."""
import os, sys, signal, resource, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.program import Program, AnalysisBroken
from sa.mod import Modular
from sa.effects import Effects
from sa.rep import Ctx
from sa import checks


class Analysis:
    def __init__(self, root):
        self.p = Program(root)
        self.M = Modular(self.p)
        self.E = Effects(self.M)
        self._roots = None

    def roots(self):
        if self._roots is None:
            self._roots = self.E.roots()
        return self._roots


class OutOfTime(Exception):
    pass


def limits(n):
    """an analysis that explodes is undecided, it does not hang: 12 minutes and 24 GB"""
    def late(*_):
        signal.alarm(60)
        raise OutOfTime('the analysis did not end in time')
    signal.signal(signal.SIGALRM, late)
    if n == 1:
        signal.alarm(720)
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))


def main():
    root = os.environ.get('VERIF_REPO', '/repo')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if not ids or ids == ['all']:
        ids = sorted(checks.ALL)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    rc = 0
    limits(len(ids))
    try:
        A = Analysis(root)
        for i in ids:
            ctx = Ctx(i, A.p, tier, seed)
            try:
                checks.ALL[i](ctx, A)
                r = ctx.finish()
            except AnalysisBroken as e:
                if not ctx.violations:
                    raise
                r = ctx.finish()
            except Exception as e:
                signal.alarm(0)
                # a construct this analysis does not handle: the rest of the property is undecided, and said to be
                if os.environ.get('VERIF_DEV'):
                    raise
                traceback.print_exc()
                ctx.inc('the analysis does not handle this code: %s: %s' % (type(e).__name__, str(e)[:200]))
                r = ctx.finish()
            rc = max(rc, r) if 1 not in (rc, r) else 1
    except AnalysisBroken as e:
        print('analysis broken: %s' % e)
        return 2
    except (OutOfTime, MemoryError) as e:
        print('no answer: %s' % e)
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
