#!/usr/bin/env python3
"""Runs the check of one property: run.py <PROPERTY> [--tier quick|thorough]"""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))

import core  # noqa: E402
import checks  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = core.Ctx(prop, tier, seed)
    try:
        checks.CHECKS[prop](ctx)
        while ctx.again():
            checks.CHECKS[prop](ctx)
        return ctx.finish('model_checking')
    except core.MachineryError as e:
        print('MACHINERY property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main())
