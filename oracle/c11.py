"""C11 on the real code."""
from oracle import arms

CASES = [("histories", arms.c11, 400)]
