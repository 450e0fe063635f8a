"""C02 on the real code."""
from oracle.bandits import *

CASES = cases(c02)
