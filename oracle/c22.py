"""C22 on the real code."""
from oracle import params

CASES = [('histories', params.enough, 120)]
LIMIT = {"quick": 60, "thorough": 400}
