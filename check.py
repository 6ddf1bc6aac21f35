#!/opt/venv/bin/python
"""check.py <property> [quick|thorough] [--replay FILE]"""
import importlib, os, sys, traceback
from pathlib import Path
sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent / 'harness'))
import vlib
import registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED') or 1)
    mod = importlib.import_module(registry.CHECKS[pid])
    ctx = vlib.Ctx(pid, tier, seed, keep_out='--replay' in sys.argv)
    rc = 2
    try:
        if '--replay' in sys.argv:
            rc = ctx.replay(sys.argv[sys.argv.index('--replay') + 1])
        else:
            getattr(mod, 'check_' + pid)(ctx)
            rc = ctx.finish()
    except vlib.MachineryError as e:
        print(f'MACHINERY-ERROR {pid}: {e}')
    except Exception:
        traceback.print_exc()
        print(f'MACHINERY-ERROR {pid}')
    finally:
        ctx.cleanup()
    sys.exit(rc)


if __name__ == '__main__':
    main()
