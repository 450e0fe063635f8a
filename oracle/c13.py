"""C13 on the real code."""
from oracle import arms

CASES = [("histories", arms.c13, 400)]
