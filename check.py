#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: exit 0 held, 1 VIOLATION, 2 error."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
sys.dont_write_bytecode = True
import vlib
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        mod = importlib.import_module('props.' + pid)
        c = vlib.Check(pid, tier)
        mod.run(c)
        return c.finish()
    except vlib.CheckError as e:
        print('check error: %s' % e, file=sys.stderr); return 2
    except Exception:
        traceback.print_exc(); return 2
sys.exit(main())
