"""C25 on the real code."""
from oracle import scm

CASES = [('effect', scm.effect, 250)]
LIMIT = {"quick": 60, "thorough": 400}
