#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys

VENV = '/opt/venv/bin/python'


def self_test():
    """Everything imports and every registered check has a module."""
    import importlib
    import json
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'MANIFEST.json')) as f:
        checks = json.load(f)['checks']
    for c in checks:
        m = importlib.import_module('omtv.props.' + c['property'].lower())
        assert m.PID == c['property']
    print('ok: %d checks' % len(checks))
    return 0


def main():
    # fixed hash seed: set iteration order is perturbed by the harness itself
    if os.environ.get('PYTHONHASHSEED') != '0' or \
            (os.path.realpath(sys.prefix) != '/opt/venv' and
             os.path.exists(VENV)):
        os.environ['PYTHONHASHSEED'] = '0'
        if not os.environ.get('OMTV_REEXEC'):
            os.environ['OMTV_REEXEC'] = '1'
            exe = VENV if os.path.exists(VENV) else sys.executable
            os.execv(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])
    here = os.path.dirname(os.path.abspath(__file__))
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--self-test', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--nproc', type=int)
    ap.add_argument('--limit', type=int)
    a = ap.parse_args()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    sys.path.insert(0, here)
    sys.dont_write_bytecode = True
    from omtv import env
    env.prepare()
    try:
        env.import_target()
    except Exception as e:
        print('ERROR cannot import the code under test: %r' % e)
        return 2
    if a.self_test:
        return self_test()
    import importlib
    mod = importlib.import_module('omtv.props.' + a.pid.lower())
    from omtv import core
    return core.main(mod, a.tier, a.seed, a.replay, a.nproc, a.limit)


if __name__ == '__main__':
    sys.exit(main())
