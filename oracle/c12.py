"""C12 on the real code."""
from oracle import arms

CASES = [("histories", arms.c12, 400)]
