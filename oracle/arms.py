"""C10-C15 on the real arms, with a recording nuisance estimator."""
import math

import scipy.stats

from oracle.common import *
from causal_effect_bandits import arms
from causal_effect_bandits import data

ALGS = [arms.CIAlgorithm.CHI2, arms.CIAlgorithm.CLT, arms.CIAlgorithm.FINITE_SAMPLE]


def ids_of(d):
  return [int(v) for v in np.asarray(d.cov)[:, 0]]


class Eta:
  """Scores are a function of the unit and of the number of fits."""

  def __init__(self, r, mode='finite'):
    self.log, self.tok, self.mode, self.ready = [], 0, mode, True
    self.fitted = False
    self.cs = [0.0, 0.3, 2.0, float('inf')][r.integers(4)] if r.random() < .5 else float(r.random())
    self.scale = float(r.choice([1e-3, 1.0, 30.0]))
    self.const = r.random() < .15
    self.resets = 0

  def fit(self, d):
    self.tok += 1
    self.fitted = self.ready
    self.log.append(('fit', ids_of(d)))

  def values(self, ids):
    i = np.asarray(ids, float)
    v = np.full(len(i), 0.5) if self.const else self.scale * (np.sin(i * 1.7) + 0.1 * np.cos(i + self.tok))
    if self.mode == 'nan' and len(v):
      v[-1] = np.nan
    return v

  def calculate_score(self, d):
    ids = ids_of(d)
    v = self.values(ids)
    self.log.append(('score', ids, v))
    return v.copy()

  def has_enough_samples(self):
    return self.fitted

  def calculate_cs_width(self, delta, sub_g, rho):
    self.log.append(('width', delta, sub_g, rho))
    return self.cs * (1 + sub_g * rho * delta)

  def reset(self):
    self.resets += 1
    self.fitted = False


class Hist:
  """An arm with random hyper-parameters and a random history of updates."""

  def __init__(self, r, kind, mode='finite'):
    self.r, self.kind = r, kind
    self.eta = Eta(r, mode)
    self.nf = int(r.integers(2, 5))
    self.nid = 0
    self.given = []
    self.k = 0
    self.stable = bool(r.random() < .5)
    t = r.integers(3)
    self.tf = [data.get_identity_fn(), data.get_remove_coordinates_fn(self.nf - 1), data.get_coordinate_mask_fn([0])][t]
    self.cost = float(r.choice([1, .5, 7]))
    if kind == 'split':
      self.alg = ALGS[r.integers(3)]
      m = float(r.choice([1.5, 2, 9])) if r.random() < .4 else float(r.integers(2, 16)) + float(r.choice([0, 0, .5]))
      self.p = dict(sub_gscale=float(r.choice([.05, .125, .5, 1, 2])), eta_sub_gscale=float(r.choice([.3, 1, 4])),
                    tau_bound=float(r.choice([.1, 1, 10])), burn_in=m, rho=float(r.choice([.1, 1])))
      self.arm = arms.SampleSplittingArm('a', self.eta, self.tf, ci_algorithm=self.alg, cost=self.cost, stable_splits=self.stable, **self.p)
      self.what = f'{self.alg} stable={self.stable} {self.p}'
    else:
      self.nb = int(r.choice([0, 2, 3, 7, 20]))
      self.arm = arms.BootstrapArm('a', self.eta, self.tf, n_bootstraps=self.nb, stable_splits=self.stable)
      self.what = f'bootstrap n={self.nb} stable={self.stable}'
    self.side = {}

  def batch(self, n):
    ids = np.arange(self.nid, self.nid + n)
    self.nid += n
    cov = np.stack([ids + j * 1e5 for j in range(self.nf)], 1).astype(float)
    return data.ExpData(cov, (ids % 2).astype(float), ids * 0.1), list(ids)

  def step(self, n=None, delta=None):
    """One update; returns (interval or None, log of this update)."""
    r = self.r
    n = n or int(r.integers(4, 14) if not self.given or r.random() < .5 else r.integers(1, 5))
    b, ids = self.batch(n)
    keep = snap(b.cov, b.exp, b.rsp, b.n_units)
    self.delta = delta if delta is not None else float(r.choice([.05, .3, .9, r.uniform(.01, .99)]))
    self.eta.log = []
    self.err = None
    try:
      out = self.arm.update(b, self.delta)
    except Exception as e:  # pylint: disable=broad-except
      self.err, out = e, None
    check(exact(b.cov, keep[0]) and exact(b.exp, keep[1]) and exact(b.rsp, keep[2]) and b.n_units == keep[3],
          f'{self.what}: the data given to the arm was modified')
    if 0 < self.delta < 1:
      self.given += ids
      self.k += 1
    return out

  def first_fit(self):
    return [e[1] for e in self.eta.log if e[0] == 'fit'][0]

  def scored(self):
    return [e for e in self.eta.log if e[0] == 'score']


def state(h):
  a = h.arm
  return (a.ci, a.var_est, a.ate, a.num_pulled, a.get_num_units(), a.name, a.cost, h.eta.tok, h.eta.fitted)


def bad_level(h):
  """A rejected error level changes nothing."""
  r = h.r
  d = [0, 1, 0.0, 1.0, -0.1, 1.5, float('nan'), -1e-9, 1 + 1e-9, float('inf')][r.integers(10)]
  s0, l = state(h), h.k
  b, _ = h.batch(5)
  what = f'{h.what}: update with level {d} after {h.k} updates'
  raises(lambda: h.arm.update(b, d), what)
  s1 = state(h)
  check(repr(s0) == repr(s1), lambda: f'{what}: state changed from {s0} to {s1}')


def c11(r):
  mode = 'nan' if r.random() < .15 else 'finite'
  h = Hist(r, 'split', mode)
  a = h.arm
  for i in range(int(r.integers(1, 5))):
    if r.random() < .25:
      bad_level(h)
    h.eta.ready = bool(r.random() < .8)
    out = h.step()
    what = f'{h.what}: update {h.k} at level {h.delta}'
    if not h.eta.ready:
      check(h.err is None, f'{what} (not enough samples): raised {h.err!r}')
      check(out == (0, math.inf) and a.ci == out and a.var_est == math.inf and math.isnan(a.ate),
            f'{what} without enough samples: {out} {a.ci} {a.var_est} {a.ate}')
      continue
    if mode == 'nan':
      check(isinstance(h.err, ValueError), f'{what} with NaN scores: {h.err!r}, estimate {a.var_est}')
      return what
    check(h.err is None, f'{what}: raised {h.err!r}')
    check(tuple(out) == tuple(a.ci), f'{what}: returned {out}, stored {a.ci}')
    n = len(h.scored()[0][1])
    if h.alg is ALGS[0] and n < 2:
      continue
    if h.alg is ALGS[2] and n >= h.p['burn_in'] and root(h, n) < 0:
      continue
    lo, hi = out
    check(a.var_est >= 0, f'{what}: estimate {a.var_est}')
    check(0 <= lo <= hi, f'{what}: interval {out}')
    if h.alg is not ALGS[0]:
      check(lo <= a.var_est <= hi, f'{what}: interval {out} misses the estimate {a.var_est}')
  return h.what


def root(h, n):
  g = h.p['sub_gscale']
  return 2 * math.log(max(g, 8 * g * g) * n / h.p['burn_in']) / n + .5 + math.log(4 / h.delta)


def c12(r):
  h = Hist(r, 'split')
  a = h.arm
  for i in range(int(r.integers(1, 6))):
    h.eta.ready = bool(r.random() < .85)
    out = h.step()
    what = f'{h.what}: update {h.k} at level {h.delta}'
    check(h.err is None, f'{what}: raised {h.err!r}')
    if not h.eta.ready:
      continue
    s = h.scored()[-1][2]
    n, v, d = len(s), a.var_est, h.delta
    if h.alg is ALGS[0]:
      if n < 2:
        continue
      want = tuple(v * (n - 1) / scipy.stats.chi2.ppf(q, df=n - 1) for q in (1 - d / 2, d / 2))
    elif h.alg is ALGS[1]:
      lev = d / h.k**2
      w = np.sqrt(np.var((s - np.mean(s))**2) / n)
      want = (max(v + scipy.stats.norm.ppf(lev / 2) * w, 0), v + scipy.stats.norm.ppf(1 - lev / 2) * w)
    elif h.p['burn_in'] > n:
      want = (0, np.inf)
    else:
      g, tau, rt = h.p['sub_gscale'], h.p['tau_bound'], root(h, n)
      if rt < 0:
        continue
      e = h.eta.cs * (1 + h.p['eta_sub_gscale'] * h.p['rho'] * d / 2)
      w = 5 / 8 * (math.sqrt(2 * g) + tau) * math.sqrt(rt) / math.sqrt(n) + e**2
      want = (max(v - w, 0), v + w)
    eq(np.array(out, float), np.array(want, float), f'{what}: interval with n={n}')
  return h.what


def c13(r):
  h = Hist(r, 'split' if r.random() < .6 else 'boot')
  a = h.arm
  for i in range(int(r.integers(1, 5))):
    h.eta.ready = bool(r.random() < .85) or h.kind == 'boot'
    h.step()
    what = f'{h.what}: update {h.k}'
    check(h.err is None, f'{what}: raised {h.err!r}')
    fits = [e[1] for e in h.eta.log if e[0] == 'fit']
    if h.kind == 'split':
      check(len(fits) == 1, f'{what}: {len(fits)} fits')
      if not h.eta.ready:
        continue
      ev = [e[1] for e in h.scored()]
      for s in ev:
        check(sorted(fits[0] + s) == sorted(h.given), f'{what}: fit on {fits[0]}, evaluated on {s}, given {len(h.given)} units')
      s = h.scored()[-1]
    else:
      first = set(fits[0])
      check(all(set(f) <= first for f in fits), f'{what}: fit on units outside the first fold')
      ev = [e for e in h.scored() if len(e[1]) and not set(e[1]) & first]
      check(ev, f'{what}: nothing evaluated on the second fold')
      s = ev[-1]
      check(sorted(fits[0] + s[1]) == sorted(h.given), f'{what}: evaluated on {s[1]}, fit on {fits[0]}')
    eq(a.ate, np.mean(s[2]), f'{what}: effect')
    eq(a.var_est, np.mean((s[2] - np.mean(s[2]))**2), f'{what}: variance')
  return h.what


def c14(r):
  h = Hist(r, 'split' if r.random() < .6 else 'boot')
  a = h.arm
  check(a.get_num_units() == 0 and a.num_pulled == 0, f'{h.what}: new arm reports {a.get_num_units()} units')
  side = {}
  for i in range(int(r.integers(1, 6))):
    if r.random() < .2:
      bad_level(h)
    if r.random() < .1 and i:
      a.reset()
      h.given, h.k, side = [], 0, {}
      check(a.get_num_units() == 0 and a.num_pulled == 0, f'{h.what}: reset arm reports {a.get_num_units()} units')
    h.eta.ready = bool(r.random() < .8) or h.kind == 'boot'
    h.step()
    what = f'{h.what}: update {h.k}'
    check(h.err is None, f'{what}: raised {h.err!r}')
    check(a.num_pulled == h.k, f'{what}: counter {a.num_pulled}')
    check(a.get_num_units() == len(h.given), f'{what}: reports {a.get_num_units()} units, was given {len(h.given)}')
    f = h.first_fit()
    check(len(set(f)) == len(f), f'{what}: units repeated in the first fold')
    ev = [e[1] for e in h.scored() if not set(e[1]) & set(f) or h.kind == 'split']
    now = {u: 0 for u in f}
    if ev:
      check(sorted(f + ev[-1]) == sorted(h.given), f'{what}: folds {sorted(f)} and {sorted(ev[-1])}, given {sorted(h.given)}')
    now.update({u: 1 for u in h.given if u not in now})
    check(set(now) == set(h.given), f'{what}: the first fold holds units never given')
    if h.stable:
      moved = [u for u in side if now[u] != side[u]]
      check(not moved, f'{what}: units {moved} changed fold')
    side = now
  return h.what


def c15(r):
  h = Hist(r, 'boot')
  a = h.arm
  for i in range(int(r.integers(1, 4))):
    if r.random() < .25:
      bad_level(h)
    out = h.step(n=int(r.integers(6, 30)), delta=float(r.choice([.05, .3, .5, .9, r.uniform(.05, .99)])))
    what = f'{h.what}: update {h.k} at level {h.delta}'
    check(h.err is None, f'{what}: raised {h.err!r}')
    check(tuple(out) == tuple(a.ci), f'{what}: returned {out}, stored {a.ci}')
    nb = h.nb or int(math.ceil(4 / h.delta))
    first = h.first_fit()
    var, last = [], None
    for e in h.eta.log:
      if e[0] == 'fit':
        last = e[1]
      elif e[0] == 'score' and set(e[1]) <= set(first):
        if sorted(last + e[1]) != sorted(first):
          raise Fail(f'{what}: fit on {sorted(last)}, scores on {sorted(e[1])}, first fold {sorted(first)}')
        with np.errstate(all='ignore'):
          var.append(np.var(e[2]) if len(e[2]) else np.nan)
    check(len(var) == nb, f'{what}: {len(var)} bootstrap variances instead of {nb}')
    v = np.sort(np.array(var))
    d = h.delta
    want = (v[int(math.floor(d / 2 * nb))], v[int(math.ceil((1 - d / 2) * nb)) - 1])
    eq(np.array(out), np.array(want), f'{what}: interval')
    if not np.isnan(v).any():
      check(out[0] <= out[1], f'{what}: interval {out}')
  return h.what
