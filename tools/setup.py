"""Nothing is compiled: checks that the verifier and both solvers start."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import z3, cvc5  # noqa
from vc import interp, lib, prover  # noqa
print('z3', z3.get_version_string(), 'ok')
