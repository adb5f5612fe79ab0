#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from env import *
import runner


def main():
    prop = sys.argv[1]
    import checks, checks_wire, checks_sys, checks_start, checks_lib
    if prop == 'setup':
        bins()
        checks_lib.sessions_bin()
        checks_lib.codec_bin()
        return 0
    ev = runner.Evidence(prop)
    try:
        checks.CHECKS[prop](ev)
    except runner.Violation as v:
        ev.write(1)
        print(v.text)
        print('VIOLATION property=%s replay=%s' % (prop, v.replay), flush=True)
        return 1
    except ToolError as e:
        print('TOOL ERROR: %s' % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    ev.write(0)
    log('%s holds on everything explored' % prop)
    return 0


sys.exit(main())
