"""C07 on the real code."""
from oracle.bandits import *

CASES = cases(c07, ("se",), 600)
