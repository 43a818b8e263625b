import sys as _sys

# z3 lives in the tooling venv (same Python version); only append, so that
# everything else is taken from the interpreter that runs /repo.
_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _P not in _sys.path:
    _sys.path.append(_P)
