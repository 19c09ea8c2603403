#!/usr/bin/env python3
"""check.py <property>: decide one property of the crates in /repo from their source."""
import importlib
import os
import sys
import traceback
import time
import signal

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vlib import facts, spec          # noqa
from vlib import eval as E            # noqa


LIMIT = 780     # seconds: an analysis that takes longer is not completed


def out_of_time(*_):
    raise TimeoutError('no result after %d s' % LIMIT)


def main():
    signal.signal(signal.SIGALRM, out_of_time)
    signal.alarm(LIMIT)
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    mod = importlib.import_module('rules.' + prop.lower())
    ctx = None
    try:
        F = facts.load()
        ctx = spec.Ctx(prop, E.Program(F))
        ctx.t0 = t0
        mod.run(ctx)
    except facts.BuildError as ex:
        if ctx is None:
            ctx = spec.Ctx(prop, None)
        ctx.bad('build', 'the crates do not compile: %s' % str(ex)[-1500:])
    except Exception as ex:                      # noqa
        if os.environ.get('VERIF_DEBUG'):
            raise
        traceback.print_exc()
        if ctx is None:
            ctx = spec.Ctx(prop, None)
        ctx.bad('analysis', 'the analysis could not be completed: %s: %s' % (type(ex).__name__, ex))
    signal.alarm(0)
    sys.exit(spec.finish(ctx, getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION, 'thorough' if tier == 'thorough' else 'quick'))


main()
