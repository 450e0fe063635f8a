"""C16 on the real code."""
from oracle.common import *
from causal_effect_bandits import data


def check_parts(d0, parts, what):
  cov, e, y = d0
  n = len(cov)
  seen = []
  for i, p in enumerate(parts):
    pc = np.asarray(p.cov)
    m = len(pc)
    check(len(p) == m, f'{what}: part {i} reports {len(p)} units, holds {m}')
    check((p.exp is None) == (e is None) and (p.rsp is None) == (y is None), f'{what}: part {i} presence of exp/rsp')
    check(pc.shape[1:] == cov.shape[1:], f'{what}: part {i} covariate shape {pc.shape}')
    check(e is None or np.shape(p.exp) == (m,), f'{what}: part {i} exp shape')
    check(y is None or np.shape(p.rsp) == (m,), f'{what}: part {i} rsp shape')
    for u in range(m):
      key = pc[u] if pc.ndim == 1 else pc[u, 0]
      src = np.nonzero((cov if cov.ndim == 1 else cov[:, 0]) == key)[0]
      check(len(src) == 1, f'{what}: part {i} contains a row that is no unit')
      s = src[0]
      check(np.array_equal(pc[u], cov[s]) and (e is None or p.exp[u] == e[s]) and (y is None or p.rsp[u] == y[s]),
            f'{what}: unit {s} torn apart in part {i}')
      seen.append(s)
  check(sorted(seen) == list(range(n)), f'{what}: units distributed as {sorted(seen)} of {n}')


def fold(r):
  n, nf, nd = size(r, 0, 25), size(r, 1, 4), int(r.integers(1, 3))
  e, y = r.random() < .6, r.random() < .6
  k = int(r.integers(-2, 30)) if r.random() < .4 else int(r.integers(1, 6))
  c = tagged(r, n, nf, e, y, nd)
  d = data.ExpData(*c)
  c0 = snap(*c)
  what = f'k_fold({k}) of n={n} nf={nf} ndim={nd} exp={e} rsp={y}'
  if k < 1:
    raises(lambda: d.k_fold(k), what)
  else:
    parts = d.k_fold(k)
    check(len(parts) == k, f'{what}: {len(parts)} folds')
    check_parts(c0, parts, what)
    s = [len(p) for p in parts]
    check(max(s) - min(s) <= 1, f'{what}: sizes {s}')
  for a, b in zip((d.cov, d.exp, d.rsp), c0):
    check((a is None) == (b is None) and (a is None or exact(a, b)), f'{what}: original changed')
  check(len(d) == n, what + ': length changed')
  return what


def sub(r):
  n, nf, nd = size(r, 0, 25), size(r, 1, 4), int(r.integers(1, 3))
  e, y = r.random() < .6, r.random() < .6
  p = [0.0, 1.0, 0, 1, 0.5, -1e-9, 1 + 1e-9, -3, 2, float('nan'), r.random(), r.random()][r.integers(12)]
  c = tagged(r, n, nf, e, y, nd)
  d = data.ExpData(*c)
  c0 = snap(*c)
  what = f'subsample({p}) of n={n} nf={nf} ndim={nd} exp={e} rsp={y}'
  if not 0 <= p <= 1:
    raises(lambda: d.subsample(p), what)
  else:
    parts = d.subsample(p)
    check(len(parts) == 2, what + ': not two parts')
    check_parts(c0, parts, what)
    if p in (0, 1):
      check(len(parts[0]) == n * int(p), f"{what}: first part has {len(parts[0])} units")
  for a, b in zip((d.cov, d.exp, d.rsp), c0):
    check((a is None) == (b is None) and (a is None or exact(a, b)), f'{what}: original changed')
  return what


CASES = [('k_fold', fold, 600), ('subsample', sub, 600)]
