#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -- decide one property (see DESIGN.md)."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import vlib


sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def load(prop):
    return importlib.import_module('checks.' + prop)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    m = load(prop)
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        ctx.build()
        m.run(ctx)
        return vlib.finish(ctx, dict(level=getattr(m, 'LEVEL', 'model_checking'), assumptions=getattr(m, 'ASSUMPTIONS', [])))
    except vlib.Machinery as e:
        print('MACHINERY ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main())
