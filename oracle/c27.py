"""C27 on the real code."""
from oracle.common import *
from causal_effect_bandits import data


def sig(z):
  return np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), 1 - 1 / (1 + np.exp(-np.abs(z))))


def bernoulli_ok(t, p, weights, what):
  """Residual sums of n independent Bernoulli(p): all within 7 sigma + 8."""
  check(np.isin(t, [0, 1]).all(), lambda: f'{what}: values outside 0, 1: {short(np.unique(t))}')
  sure0, sure1 = p < 1e-13, p > 1 - 1e-13
  check(not t[sure0].any(), lambda: f'{what}: 1 drawn where the probability is < 1e-13')
  check(t[sure1].all(), lambda: f'{what}: 0 drawn where the probability is > 1-1e-13')
  for k, w in enumerate(weights):
    w = w / max(1e-300, np.max(np.abs(w)))
    dev = abs(np.sum(w * (t - p)))
    lim = 7 * math.sqrt(np.sum(w * w * p * (1 - p))) + 8
    check(dev <= lim, lambda: f'{what}: residual {dev} of {len(t)} draws (weights {k}) exceeds {lim}')


def one(r):
  k = int(r.integers(1, 6))
  beta = r.normal(size=k) * 3
  tau = float(r.choice([0.0, -2.5, 1.0, r.normal()]))
  gamma = None if r.random() < .3 else r.normal(size=k) * float(r.choice([.3, 1, 4, 30]))
  calls, outs = [], []

  def noise(*a, **kw):
    calls.append((a, kw))
    outs.append(r.normal(size=a[0]) * 2 + 1)
    return outs[-1].copy()

  default = r.random() < .2
  kw = {} if gamma is None else {'gamma': gamma}
  if not default:
    kw['noise_model'] = noise
  b0, g0 = beta.copy(), None if gamma is None else gamma.copy()
  g = data.LinearDataGenerator('lin', k, beta, tau, **kw)
  for rnd in range(2):
    n = int(r.choice([1, 2, 7, 3000]))
    calls.clear()
    outs.clear()
    d = g.generate(n)
    check(d.n_units == n and d.cov.shape == (n, k) and d.exp.shape == (n,) and d.rsp.shape == (n,), lambda: f'shapes {d.cov.shape} {d.exp.shape} {d.rsp.shape} for n={n} k={k}')
    gg = np.zeros(k) if gamma is None else g0
    res = d.rsp - d.cov @ b0 - tau * d.exp
    if not default:
      check(len(calls) == 1 and calls[0] == ((n,), {}), lambda: f'noise model calls {calls}')
      eq(res, outs[0], 'response minus linear part vs the noise model output', rtol=1e-7, atol=1e-7)
    else:
      check(abs(np.sum(res)) <= 7 * math.sqrt(n) + 1 and abs(np.sum(res**2 - 1)) <= 8 * math.sqrt(2 * n) + 60, 'default noise is not standard normal')
    z = d.cov @ gg
    bernoulli_ok(np.asarray(d.exp), sig(z), [np.ones(n), z, np.abs(z), z * z], f'exposures, gamma={gg}')
    s = d.cov
    check(np.all(np.abs(s.sum(0)) <= 7 * math.sqrt(n) + 1) and np.all(np.abs((s**2 - 1).sum(0)) <= 8 * math.sqrt(2 * n) + 60), 'covariates are not standard normal')
    eqx(beta, b0, 'beta modified')
    if gamma is not None:
      eqx(gamma, g0, 'gamma modified')
    check(g.tau == tau and exact(g.beta, b0) and exact(g.gamma, gg), 'tau, beta or gamma')
  return (k, gamma is None, default)


def bad(r):
  k = int(r.integers(1, 5))
  beta = r.normal(size=k)
  shape = [(k + 1,), (k, 1), (1, k), (max(0, k - 1),), ()][int(r.integers(5))]
  raises(lambda: data.LinearDataGenerator('l', k, beta, 1.0, gamma=np.zeros(shape)), f'gamma of shape {shape} for {k} features')
  n = int(r.integers(1, 9))
  m = int(r.choice([0, n - 1, n + 1, 2 * n, 1 if n > 1 else 3]))
  off = [False]
  g = data.LinearDataGenerator('l', k, beta, 1.0, noise_model=lambda q: np.ones(m if off[0] else q))
  if r.random() < .5:
    g.generate(n)
  off[0] = True
  raises(lambda: g.generate(n), f'{m} noise values for {n} units')
  off[0] = False
  check(g.generate(n).n_units == n, 'after a rejected call')
  return (k, shape, n, m)


CASES = [('generate', one, 150), ('rejections', bad, 60)]
LIMIT = {"quick": 60, "thorough": 400}
