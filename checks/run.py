"""checks/run.py ID quick|thorough"""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(here), "lib")); sys.path.insert(0, here)
if __name__ == "__main__":
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    try: sys.exit(importlib.import_module(pid.lower()).main(tier))
    except SystemExit: raise
    except BaseException: traceback.print_exc(); sys.exit(2)
