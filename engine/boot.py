"""Make z3 importable next to the venv's numpy/toml/Cython."""
import sys
P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if P not in sys.path:
    sys.path.append(P)
