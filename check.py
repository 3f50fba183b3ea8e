#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: run one static check on /repo's current source."""
import argparse, importlib, os, sys, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
try:
    import mpmath  # noqa: F401
except ImportError:  # pure-Python packages of the tooling venv (python3-vt)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    from hv import report, program
    mod = importlib.import_module("checks." + a.prop)
    L = report.Ledger(a.prop, a.tier, a.seed, mod.LEVEL, mod.RULE)
    L.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    try:
        mod.run(L)
        return L.finish()
    except program.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (a.prop, e))
        if L.viol:
            return L.finish()
        return 3


rc = [4]


def wrap():
    try:
        rc[0] = main()
    except SystemExit as e:
        rc[0] = e.code
    except BaseException:
        traceback.print_exc()


t = threading.Thread(target=wrap)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
