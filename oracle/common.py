"""Shared by the oracles: failures, comparisons, generators."""
import copy
import math

import numpy as np


class Fail(Exception):
  pass


class Skip(Exception):
  pass


def check(cond, msg):
  if not cond:
    raise Fail(msg() if callable(msg) else msg)


def same(a, b, rtol=1e-9, atol=1e-12):
  """Equal up to rounding, NaN equal to NaN, shapes equal."""
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    return False
  if a.dtype == object or b.dtype == object:
    return all(x is y or x == y for x, y in zip(a.ravel(), b.ravel()))
  return bool(np.allclose(a.astype(float), b.astype(float), rtol=rtol, atol=atol, equal_nan=True))


def exact(a, b):
  a, b = np.asarray(a), np.asarray(b)
  return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f' and b.dtype.kind == 'f'))


def eq(a, b, what, rtol=1e-9, atol=1e-12):
  check(same(a, b, rtol, atol), lambda: f'{what}: got {short(a)}, expected {short(b)}')


def eqx(a, b, what):
  check(exact(a, b), lambda: f'{what}: got {short(a)}, expected {short(b)}')


def short(a):
  s = repr(a).replace('\n', ' ')
  return s if len(s) < 260 else s[:250] + '...'


def raises(fn, what, exc=ValueError):
  try:
    fn()
  except exc:
    return
  except Exception as e:  # pylint: disable=broad-except
    raise Fail(f'{what}: raised {type(e).__name__} ({e}) instead of {exc.__name__}')
  raise Fail(f'{what}: did not raise {exc.__name__}')


def snap(*xs):
  return copy.deepcopy(xs)


def size(r, lo=1, hi=12):
  """Sizes with small ones and the boundaries more frequent."""
  if r.random() < 0.3:
    return int(lo + r.integers(0, 2)) if lo + 1 <= hi else lo
  return int(r.integers(lo, hi + 1))


def tagged(r, n, nf, exp=True, rsp=True, ndim=2):
  """cov, exp, rsp in which every unit is recognisable in all arrays."""
  ids = r.permutation(n) + 1
  cov = (ids[:, None] * 1000.0 + np.arange(nf)[None, :]) if ndim == 2 else ids * 1000.0
  e = ids * 1.0 + 0.25 if exp else None
  y = ids * -1.0 - 0.5 if rsp else None
  return cov, e, y
