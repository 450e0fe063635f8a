"""C32 on the real code."""
from oracle import params

CASES = [('AIPW', params.width('aipw'), 100), ('front-door', params.width('front'), 100)]
LIMIT = {"quick": 60, "thorough": 400}
