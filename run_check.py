"""run_check.py <ID> [--thorough] [-v]   |   run_check.py --replay FILE"""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
REPO = os.environ.get('VERIF_REPO', '/repo')


def replay(path):
    d = json.load(open(path))
    sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings('ignore')
    mod = importlib.import_module('checks.' + d['module'])
    try:
        bad, msg = mod.replay(d['case'])
    except Exception as e:      # the replay itself failed
        import traceback
        traceback.print_exc()
        print('replay error', repr(e))
        return 3
    print(('VIOLATED: ' if bad else 'holds: ') + msg)
    return 1 if bad else 0


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    mod = importlib.import_module('checks.' + pid.lower())
    chk = mod.build()
    return chk.run()


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
