#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N]: decide one property."""
import argparse, importlib, os, sys, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
ap.add_argument('pid')
ap.add_argument('--tier')
ap.add_argument('--seed', type=int)
a = ap.parse_args()
import chk  # noqa: E402
c = chk.Check(a.pid, a.tier, a.seed)
try:
    level = importlib.import_module(a.pid.lower()).check(c)
    rc = c.finish(level)
except Exception as e:
    traceback.print_exc()
    if type(e).__name__ in ('Fault', 'Exit'):   # the library, on its machine, where a check needs it to work at all (lib/tacsim.py)
        c.violation('library', 'the library does not come up: %s %s' % (type(e).__name__, e), {'trace.txt': traceback.format_exc()})
    rc = 1 if c.nviol else 3
    c.clean()
sys.stdout.flush()
os._exit(rc)
