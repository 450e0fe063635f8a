"""C05 on the real code."""
from oracle.bandits import *

CASES = cases(c05, ("uniform", "lucb"), 400)
