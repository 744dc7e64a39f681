#!/usr/bin/python3
"""Entry point: run.py <property> [--tier quick|thorough] [--replay group:case]"""
import os; os.environ['HDF5_USE_FILE_LOCKING'] = 'FALSE'      # child processes started meanwhile inherit open files and their locks
import sys, os, importlib, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(here), "lib"))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
if __name__ == "__main__":
    import vf
    prop = sys.argv[1]
    try:
        mod = importlib.import_module(prop.lower())
        c = vf.Check(prop)
        mod.run(c)
        print("check did not reach a verdict"); sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(4)
