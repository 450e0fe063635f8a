"""C17 on the real code."""
from oracle.common import *
from causal_effect_bandits import data


def state(d):
  return [None if a is None else np.array(a, copy=True) for a in (d.cov, d.exp, d.rsp)] + [d.n_units, d.n_features, len(d)]


def same_state(a, b):
  return all((x is None) == (y is None) and (x is None or exact(x, y)) for x, y in zip(a, b))


def append(r):
  nd = int(r.integers(1, 3))
  nf = size(r, 1, 4)
  nf2 = nf if r.random() < .8 else nf + int(r.integers(1, 3))
  flags = [r.random() < .65 for _ in range(4)]
  d1 = data.ExpData(*tagged(r, size(r, 0, 9), nf, flags[0], flags[1], nd))
  steps = int(r.integers(1, 4))
  alias = r.random() < .15
  what = f'append ndim={nd} nf={nf},{nf2} flags={flags}'
  for _ in range(steps):
    d2 = d1 if alias else data.ExpData(*tagged(r, size(r, 0, 9), nf2, flags[2], flags[3], nd))
    s1, s2 = state(d1), state(d2)
    bad = not alias and d1.n_features != d2.n_features or not alias and ((flags[0] and not flags[2]) or (flags[1] and not flags[3]))
    if bad:
      raises(lambda: d1.append(d2), what)
      check(same_state(state(d1), s1), what + ': rejected append changed the dataset')
      check(same_state(state(d2), s2), what + ': argument changed')
      return what
    d1.append(d2)
    check(alias or same_state(state(d2), s2), what + ': argument changed')
    eqx(d1.cov, np.concatenate([s1[0], s2[0]]), what + ' cov')
    for i, k in ((1, 'exp'), (2, 'rsp')):
      v = getattr(d1, k)
      if s1[i] is None:
        check(v is None, f'{what}: {k} appeared')
      else:
        eqx(v, np.concatenate([s1[i], s2[i]]), f'{what} {k}')
    check(d1.n_units == s1[3] + s2[3] == len(d1), f'{what}: unit count {d1.n_units}')
    check(d1.n_features == s1[4], what + ': feature count')
  return what


def index(r):
  nd, nf, n = int(r.integers(1, 3)), size(r, 1, 4), size(r, 1, 10)
  e, y = r.random() < .6, r.random() < .6
  d = data.ExpData(*tagged(r, n, nf, e, y, nd))
  s = state(d)
  kind = r.integers(5)
  if kind == 0:
    key = slice(*[None if r.random() < .3 else int(r.integers(-n - 2, n + 3)) for _ in range(2)])
  elif kind == 1:
    key = slice(None, None, int(r.choice([-2, -1, 1, 2, 3])))
  elif kind == 2:
    key = r.random(n) < .5
  elif kind == 3:
    key = r.integers(-n, n, size=size(r, 0, 7))
  else:
    key = [int(i) for i in r.integers(0, n, size=size(r, 1, 5))]
  p = d[key]
  what = f'index {key!r} n={n} ndim={nd} exp={e} rsp={y}'
  eqx(p.cov, s[0][key], what + ' cov')
  for i, k in ((1, 'exp'), (2, 'rsp')):
    v = getattr(p, k)
    check((v is None) == (s[i] is None), f'{what}: presence of {k}')
    if v is not None:
      eqx(v, s[i][key], f'{what} {k}')
  check(len(p) == len(s[0][key]) == p.n_units, what + ': length')
  check(same_state(state(d), s), what + ': dataset changed')
  return what


def empty(r):
  d = data.ExpData(None, None, None)
  check(len(d) == 0, 'empty dataset has units')
  n = size(r, 0, 9)
  d = data.ExpData(*tagged(r, n, 2, True, True, int(r.integers(1, 3))))
  check(len(d) == n, f'len {len(d)} of {n} units')
  return n


CASES = [('append', append, 800), ('index', index, 800), ('length', empty, 30)]
