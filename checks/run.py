#!/usr/bin/env python3
"""run.py <property id>: decide one property; see DESIGN.md."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib

MODULES = {"P01": "value", "P02": "value", "P04": "value", "P05": "value", "P06": "value", "P07": "value",
           "P11": "p09", "P23": "p10"}

def main():
    pid = sys.argv[1]
    c = vlib.Check(pid)
    try:
        rc = importlib.import_module("c_" + MODULES.get(pid, pid.lower())).run(c)
    except Exception:
        traceback.print_exc()
        if c.viol:
            rc = c.finish()
        else:
            print("ERROR: the check could not be completed")
            rc = 2
    c.pool.shutdown(cancel_futures=True)
    return rc

sys.exit(main())
