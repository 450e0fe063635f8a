"""C08 on the real code."""
from oracle.bandits import *

CASES = cases(c08, ("lucb",), 600)
