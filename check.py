#!/usr/bin/env python3
"""check.py <property id> : decides one property on /repo's current tree"""
import sys, os, time, importlib
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
import vf
from registry import REG


def main():
    rc = 0
    for pid in sys.argv[1:]:
        mod, fn = REG[pid]
        t0 = time.time()
        m = importlib.import_module(mod)
        out = vf.Outcome()
        expl = getattr(m, fn)(out)
        rc = max(rc, vf.finish(pid, out, t0, expl))
    return rc


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        print('NO ANSWER: the analysis failed')
        rc = 2
    sys.exit(rc)
