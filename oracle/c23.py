"""C23 on the real code."""
from oracle import params

CASES = [('binary', params.linbin, 80), ('regression', params.linreg, 80)]
LIMIT = {"quick": 60, "thorough": 400}
