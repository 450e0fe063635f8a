"""C20 on the real code."""
from oracle import params

CASES = [('given', params.aipw_scores(False), 60), ('bundled', params.aipw_scores(True), 25)]
LIMIT = {"quick": 60, "thorough": 400}
