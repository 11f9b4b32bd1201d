#!/opt/venv/bin/python
"""Setup: nothing to build; verifies that hypothesis is importable next to the repo's interpreter."""
import sys
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, ipyparallel
print("hypothesis", hypothesis.__version__, "ipyparallel", ipyparallel.__version__, ipyparallel.__file__)
