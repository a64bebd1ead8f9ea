"""
Verifies that the tools which the checks need are present. Nothing to
build: the checks compile /repo's source themselves on every run.
"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import symx
import z3, numpy, twisted, asynqueue
print("z3", z3.get_version_string(), "numpy", numpy.__version__,
      "twisted", twisted.__version__)
