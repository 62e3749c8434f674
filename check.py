#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current sources."""
import os, sys, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and not os.environ.get('VP_NOVENV'):
    os.environ['VP_NOVENV'] = '1'
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(6000)
import build, report


def main():
    rc = 0
    for pid in sys.argv[1:]:
        try:
            mod = importlib.import_module(pid.lower())
            rc = max(rc, report.finish(mod.run()))
        except build.AnalysisBroken as e:
            print('ANALYSIS-BROKEN %s: %s' % (pid, e))
            rc = max(rc, 2)
        except Exception:
            traceback.print_exc(limit=-8)
            print('ANALYSIS-BROKEN %s' % pid)
            rc = max(rc, 2)
    sys.exit(rc)


main()
