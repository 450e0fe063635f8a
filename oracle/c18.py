"""C18 on the real code."""
from oracle.common import *
from causal_effect_bandits import data


def common(d, c0, p, what):
  for k, a in zip(('exp', 'rsp'), c0[1:]):
    v = getattr(p, k)
    check((v is None) == (a is None) and (a is None or exact(v, a)), f'{what}: {k} not kept')
  for k, a in zip(('cov', 'exp', 'rsp'), c0):
    v = getattr(d, k)
    check((v is None) == (a is None) and (a is None or exact(v, a)), f'{what}: input {k} modified')
  check(len(p) == len(c0[0]), what + ': unit count')


def mk(r, nf):
  n = size(r, 0, 8)
  c = tagged(r, n, nf, r.random() < .7, r.random() < .7)
  return data.ExpData(*c), snap(*c), n


def remove(r):
  nf = size(r, 1, 6)
  j = int(r.integers(-nf, nf))
  f = data.get_remove_coordinates_fn(j)
  for _ in range(2):
    d, c0, n = mk(r, nf)
    p = f(d)
    what = f'remove {j} of {nf} columns, {n} units'
    eqx(p.cov, c0[0][:, [q for q in range(nf) if q != j % nf]], what)
    check(p.n_features == nf - 1, f'{what}: n_features {p.n_features}')
    common(d, c0, p, what)
  return what


def mask(r):
  nf = size(r, 1, 6)
  m = size(r, 1, 6)
  idx = [int(i) for i in r.integers(0, nf, size=m)]
  if r.random() < .4:
    idx = [int(i) for i in r.permutation(nf)]
  keep = list(idx)
  arg = np.array(idx) if r.random() < .2 else idx
  f = data.get_coordinate_mask_fn(arg)
  for _ in range(2):
    d, c0, n = mk(r, nf)
    p = f(d)
    what = f'mask {keep} of {nf} columns, {n} units'
    check(np.shape(p.cov) == (n, len(keep)), f'{what}: shape {np.shape(p.cov)}')
    for a, q in enumerate(keep):
      eqx(p.cov[:, a], c0[0][:, q], f'{what} column {a}')
    check(p.n_features == len(keep), f'{what}: n_features {p.n_features}')
    common(d, c0, p, what)
    check(list(arg) == keep, what + ': index list modified')
  return what


def ident(r):
  d, c0, n = mk(r, size(r, 1, 5))
  p = data.get_identity_fn()(d)
  check(p is d, 'identity returns something else')
  eqx(p.cov, c0[0], 'identity cov')
  common(d, c0, p, 'identity')
  return n


CASES = [('remove', remove, 400), ('mask', mask, 400), ('identity', ident, 30)]
