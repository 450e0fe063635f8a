"""C10 on the real code."""
from oracle import params
from oracle.arms import *
from causal_effect_bandits import bandits


def arm(r):
  h = Hist(r, 'split' if r.random() < .6 else 'boot')
  a = h.arm
  for _ in range(int(r.integers(0, 4))):
    if r.random() < .2:
      bad_level(h)
    h.step()
  keep = {k: v for k, v in vars(a).items() if isinstance(v, (int, float, str)) and not isinstance(v, bool)}
  n0, k0 = h.eta.resets, h.k
  a.reset()
  what = f'{h.what}: reset after {k0} updates'
  check(tuple(a.ci) == (-math.inf, math.inf), f'{what}: interval {a.ci}')
  check(a.var_est is None and a.ate is None, f'{what}: estimates {a.var_est}, {a.ate}')
  check(a.num_pulled == 0 and a.get_num_units() == 0, f'{what}: {a.num_pulled} updates, {a.get_num_units()} units')
  check(h.eta.resets > n0 and not h.eta.has_enough_samples(), what + ': the estimator was not reset')
  check(a.name == 'a' and a.cost == (h.cost if h.kind == 'split' else 1), f'{what}: name {a.name}, cost {a.cost}')
  # afterwards: like a new arm on the same data and the same randomness
  new = Hist(r, 'boot')
  new.eta = Eta(r)
  for k in ('mode', 'cs', 'scale', 'const'):
    setattr(new.eta, k, getattr(h.eta, k))
  if h.kind == 'split':
    new.arm = arms.SampleSplittingArm('a', new.eta, h.tf, ci_algorithm=h.alg, cost=h.cost, stable_splits=h.stable, **h.p)
  else:
    new.arm = arms.BootstrapArm('a', new.eta, h.tf, n_bootstraps=h.nb, stable_splits=h.stable)
  h.eta.tok = 0
  new.nf, new.nid, new.what = h.nf, h.nid, h.what
  h.given, h.k = [], 0
  for i in range(int(r.integers(1, 3))):
    n, dl = int(r.integers(6, 12)), float(r.choice([.1, .5, .9]))
    st = np.random.get_state()
    x = h.step(n, dl)
    np.random.set_state(st)
    y = new.step(n, dl)
    w2 = f'{what}, then update {i + 1} with {n} units at level {dl}'
    check(type(h.err) is type(new.err), f'{w2}: {h.err!r}, a new arm {new.err!r}')
    check(a.get_num_units() == new.arm.get_num_units() and a.num_pulled == new.arm.num_pulled,
          f'{w2}: {a.get_num_units()} units, a new arm {new.arm.get_num_units()}')
    if h.err is None:
      eq(np.array(x, float), np.array(y, float), f'{w2}: interval differs from a new arm\'s')
      eq(np.array([a.var_est, a.ate], float), np.array([new.arm.var_est, new.arm.ate], float), f'{w2}: estimates differ from a new arm\'s')
  return what


class Count:

  def __init__(self, r):
    self.n, self.cost, self.name, self.ate = 0, 1, 'a', .5
    self.ci, self.var_est = (float(r.random()), 2.), 1.5
    self.units = int(r.choice([0, 0, 1, 5, 10, 11, 200]))
    self.num_pulled = int(r.integers(1, 4)) if self.units else 0

  def get_num_units(self):
    return self.units

  def reset(self):
    self.n += 1


def bandit(r):
  m = size(r, 1, 7)
  l = [Count(r) for _ in range(m)]
  c = [bandits.UniformAlgorithm, bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm][r.integers(3)]
  b = c(l, None, confidence=.1, units_per_round=int(r.choice([1, 5, 10])))
  b.reset()
  check(all(a.n > 0 for a in l), f'{c.__name__} with {m} arms: resets {[a.n for a in l]}')
  return f'{c.__name__} {m}'


CASES = [('arm', arm, 60), ('bandit', bandit, 30), ('estimator', params.reset, 60)]
LIMIT = {'quick': 60, 'thorough': 400}
