#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property from the current source of /repo."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(run()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(out[0] if out else 3)


def run():
    from sa.loader import AnalysisBroken
    from sa.report import Ctx
    from checks import REGISTRY
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    try:
        ctx = Ctx(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
        mod, fn = REGISTRY[pid]
        try:
            getattr(importlib.import_module('checks.' + mod), fn)(ctx)
        except AnalysisBroken as ex:
            if not ctx.fresh():
                raise
            print(f'the analysis stopped early: {ex}')
        return ctx.finish()
    except AnalysisBroken as ex:
        print(f'ANALYSIS-BROKEN property={pid}: {ex}')
        return 3
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == '__main__':
    main()
