"""
Solver-based symbolic execution of the real ade source.

values.py   symbolic floats / ints / booleans / strings backed by z3 terms
engine.py   path exploration by re-execution, solver queries, assertions
npshim.py   numpy seen by the code under test while it runs symbolically
world.py    loads /repo/ade/*.py afresh, with environment stubs
runner.py   runs the harnesses of one property, replays counterexamples,
            writes evidence
"""
import sys

# z3 lives in the verification tools' environment, ade's dependencies
# in the build's environment. Both are the same CPython, so the z3
# package is borrowed by adding its directory last on the path.
Z3_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if Z3_SITE not in sys.path:
    sys.path.append(Z3_SITE)
