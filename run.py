#!/opt/venv/bin/python
import os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
if os.getcwd() not in sys.path:
    sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from vlib import runner
if __name__ == "__main__":
    # the module must be one object for checks that import vlib.runner
    rc = runner.main()
    sys.stdout.flush()
    os._exit(rc or 0)
