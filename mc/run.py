"""Entry point: ``run.py ID [quick|thorough] [--replay FILE]``."""

import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main(argv):
    from mc import core
    args = list(argv[1:])
    replay_path = None
    if '--replay' in args:
        i = args.index('--replay')
        replay_path = args[i + 1]
        del args[i:i + 2]
    if args and args[0] == '--selftest':
        return selftest()
    check_id = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('mc.checks.' + check_id.lower())
    if replay_path:
        return core.replay(mod, tier, replay_path)
    return core.run_check(mod, tier)


def selftest():
    """Set-up command: nothing is built (pure Python); check the machinery."""
    from mc import core
    core.setup_import()
    here = os.path.join(core.VERIF, 'mc', 'checks')
    for name in sorted(os.listdir(here)):
        if name.startswith('c') and name.endswith('.py'):
            with open(os.path.join(here, name)) as f:
                compile(f.read(), name, 'exec')
    print('selftest ok: python %s' % sys.version.split()[0])
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv)
    except Exception:       # pylint: disable=broad-except
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
