"""C26 on the real code."""
from oracle import scm

CASES = [('linear', scm.linear, 150), ('added noise', scm.added, 120), ('structural', scm.structural, 100), ('logistic', scm.logistic, 100),
         ('categorical', scm.categorical, 150)]
LIMIT = {"quick": 60, "thorough": 400}
