"""C14 on the real code."""
from oracle import arms

CASES = [("histories", arms.c14, 400)]
