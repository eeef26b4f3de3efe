"""Entry point: python main.py <property> [--tier T] [--replay FILE]."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    ctx = common.Ctx(pid, tier, seed)
    ctx.replay_file = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module('check_' + pid.lower())
    try:
        mod.run(ctx)
    except common.Machinery as e:
        print('MACHINERY-ERROR %s: %s' % (pid, e))
        ctx.evidence()
        return 1 if ctx.violations else 2
    ctx.evidence()
    if ctx.violations:
        return 1
    print('OK property=%s states=%d replayed=%d wall=%.1fs' % (
        pid, ctx.states, ctx.validated, __import__('time').time() - ctx.t0))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
