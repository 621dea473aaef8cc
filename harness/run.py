import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("LIPS_REPO", "/repo"))
sys.setrecursionlimit(10000)
import warnings
warnings.simplefilter("ignore")
import core

if __name__ == "__main__":
    try:
        mod = importlib.import_module("checks." + sys.argv[1].lower())
        rc = core.main(mod, sys.argv[2:])
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2   # the machinery failed: no verdict
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
