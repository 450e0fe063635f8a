"""C24 on the real code."""
from oracle import scm

CASES = [('sampling', scm.generate, 200), ('shared distributions', scm.shared, 80), ('orders', scm.order, 150), ('construction', scm.malformed, 120)]
LIMIT = {"quick": 60, "thorough": 400}
