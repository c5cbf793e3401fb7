#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import os, sys, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
from facts import CheckError
from report import Report


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    rep = Report(prop, 'thorough' if tier == 'thorough' else 'quick')
    try:
        mod = importlib.import_module(prop.lower())
        mod.run(rep)
        return rep.finish()
    except CheckError as e:
        print('ERROR: the check for %s could not be carried out: %s' % (prop, e))
    except Exception:
        print('ERROR: the check for %s failed' % prop)
        traceback.print_exc()
    # what was already established stands
    if rep.viol:
        return rep.finish()
    return 3


res = []
t = threading.Thread(target=lambda: res.append(main()))
t.start()
t.join()
sys.stdout.flush()
os._exit(res[0] if res else 3)
