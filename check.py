#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]    decide one property on /repo's current tree
   check.py --replay <file>                       run a recorded counterexample on the real build"""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'checks'))


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        import replay
        return replay.main(sys.argv[2])
    pid = sys.argv[1]
    import common
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else common.TIER
    ctx = common.Ctx(pid, tier)
    try:
        if pid in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10', 'C14'):
            import props_acc as m
        else:
            import importlib
            m = importlib.import_module('prop_' + pid.lower())
        m.run(ctx)
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main())
