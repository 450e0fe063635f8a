"""C09 on the real code: constructor validation."""
from oracle.common import *
from causal_effect_bandits import bandits

CL = [bandits.UniformAlgorithm, bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm]


class A:
  cost = 1.0


def one(r):
  c = CL[r.integers(3)]
  pick = lambda xs: xs[r.integers(len(xs))]
  prob = pick([0.05, 0.5, 1e-9, 1 - 1e-9, 0.0, 1.0, -0.1, 1.5, float('nan'), float('inf'), r.random()])
  tol = pick([0, 0.0, 1e-3, 5.0, -1e-9, -1.0, float('inf'), r.random()])
  conf = pick([None, None, 0.05, 0.999, 1e-12, 0, 0.0, 1.0, 1, -0.5, 2.0, float('nan'), r.random()])
  lim = pick([None, np.inf, 0, 1, 100, 2.5, 10**9, int(r.integers(1, 1000))])
  units = int(r.integers(1, 500))
  arms = [A() for _ in range(int(r.integers(2, 5)))]
  gen = object()
  kw = dict(arm_list=arms, prob_model=gen, error_prob=prob, error_tol=tol, confidence=conf, sample_limit=lim,
            units_per_round=units)
  bad = not (0 < prob < 1) or tol < 0 or (conf is not None and not 0 < conf < 1) or (
      conf is None and (lim is None or not np.isfinite(lim)))
  d = f'{c.__name__}(error_prob={prob}, error_tol={tol}, confidence={conf}, sample_limit={lim})'
  if bad:
    raises(lambda: c(**kw), d)
    return d
  b = c(**kw)
  check(b.error_prob == prob, d + ': error_prob changed')
  check(b.error_tol == tol, d + ': error_tol changed')
  check(b.confidence == conf, d + ': confidence changed')
  check(b.sample_limit == (np.inf if lim is None else lim) or (lim is None and b.sample_limit is None),
        d + f': sample_limit became {b.sample_limit}')
  check(b.units_per_round == units, d + ': units_per_round changed')
  return d


def defaults(r):
  """The optional parameters may be left out."""
  c = CL[r.integers(3)]
  arms = [A() for _ in range(3)]
  kw = dict(confidence=0.05) if r.random() < .5 else dict(sample_limit=100)
  b = c(arms, object(), **kw)
  check(0 < b.error_prob < 1, 'default error_prob')
  return c.__name__ + str(kw)


CASES = [('constructor', one, 2500), ('defaults', defaults, 40)]
