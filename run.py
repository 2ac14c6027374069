"""Runs the check of one property: run.py ID [quick|thorough]

exit 0: held on everything explored; 1: VIOLATION; 2: error of the check
run.py ID --replay PATH shows and re-runs the part of a recorded violation
"""
import os
import sys

ENV = {'TZ': 'UTC', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
       'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'HOME': '/root'}
PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def main():
    if os.environ.get('_VERIF_CHILD') != '1':
        env = dict(os.environ)
        env.update(ENV)
        env['_VERIF_CHILD'] = '1'
        env['PYTHONPATH'] = REPO + os.pathsep + HERE
        # ignore any byte code cached beside the sources
        env['PYTHONPYCACHEPREFIX'] = os.path.join(HERE, '.nopyc')
        os.execve(PY, [PY, '-W', 'ignore', os.path.abspath(__file__)] +
                  sys.argv[1:], env)
    sys.path[:] = [REPO, HERE] + [p for p in sys.path
                                  if p not in (REPO, HERE)]
    import importlib
    import logging
    logging.disable(logging.CRITICAL)
    from mc import core
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for a in args:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--part='):
            only = a[7:]
    if '--replay' in args:
        import json
        with open(args[args.index('--replay') + 1]) as f:
            d = json.load(f)
        print(json.dumps(d, indent=1))
        tier = d['tier']
        only = d['part']
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import pyslet
    assert os.path.dirname(os.path.abspath(pyslet.__file__)) == \
        os.path.join(REPO, 'pyslet'), pyslet.__file__
    mod = importlib.import_module('checks.' + pid.lower())
    ck = core.Check(pid, tier, seed, mod.LEVEL, mod.RULE)
    if only:
        orig = ck.part

        def part(name, *a, **k):
            if name == only:
                return orig(name, *a, **k)
        ck.part = part
    try:
        mod.run(ck)
    except SystemExit:
        raise
    except Exception:
        import traceback
        ck.errors.append(('main', None, traceback.format_exc()))
    sys.exit(ck.finish())


if __name__ == '__main__':
    main()
