"""C21 on the real code."""
from oracle import params

CASES = [('scores', params.front, 80)]
LIMIT = {"quick": 60, "thorough": 400}
