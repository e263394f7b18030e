"""pyvc: a small deductive verifier for the numpy-style Python of /repo.

The functions are taken from /repo's current source on every run (ast of the file, globals of the imported
module), executed symbolically for arbitrary sizes and values, and the obligations that contracts state are
discharged by z3 (cvc5 as second opinion).
"""
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
