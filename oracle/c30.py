"""C30 on the real code."""
import math
from fractions import Fraction
from oracle.common import *
from causal_effect_bandits import nonlinear_utils, paper_utils


def one(r):
  f = (nonlinear_utils.softmax, paper_utils.softmax)[r.integers(2)]
  n = size(r, 1, 12)
  scale = 10.0 ** r.integers(-3, 5)
  x = r.standard_normal(n) * scale + [0, 0, 1000, -1000, 1e6, -1e6, 700, -750][r.integers(8)]
  if r.random() < .15:
    x = np.round(x)
  if r.random() < .1:
    x[:] = x[0]
  if r.random() < .05:
    x = x / (1 + np.max(np.abs(x))) * 1e300
  x0 = x.copy()
  with np.errstate(over='raise', invalid='raise', divide='raise'):
    try:
      y = f(x)
    except FloatingPointError as e:
      raise Fail(f'softmax of {short(x0)}: {e}')
  what = f'{f.__module__}.softmax({short(x0)})'
  eqx(x, x0, what + ' modified its input')
  m = max(x0)
  ref = [math.exp(v - m) for v in x0]
  t = math.fsum(ref)
  check(np.shape(y) == (n,), what + ': shape')
  eq(y, [v / t for v in ref], what)
  check(np.all(np.asarray(y) >= 0) and abs(np.sum(y) - 1) < 1e-9, what + ': not a probability vector')
  return what


CASES = [('softmax', one, 1500)]
