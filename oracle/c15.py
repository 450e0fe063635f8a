"""C15 on the real code."""
from oracle import arms

CASES = [("histories", arms.c15, 400)]
