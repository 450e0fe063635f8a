"""C31 on the real code."""
from oracle.common import *
from causal_effect_bandits import bandits, plotting_utils
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from matplotlib.figure import Figure


class Arm:
  def __init__(self, name):
    self.name = name


def one(r):
  n, L = size(r, 1, 4), size(r, 1, 8)
  arms = [Arm(f'a{i}' if r.random() < .8 else f'name {i}x') for i in range(n)]
  cum = list(np.cumsum(r.integers(1, 9, size=L)).astype(float))
  h = lambda off: {a: [float(100 * i + off + 10 * t + r.random()) for t in range(L)] for i, a in enumerate(arms)}
  lcb, var, ucb = h(0), h(3), h(6)
  bd = bandits.BanditData(lcb_by_arm=lcb, ucb_by_arm=ucb, var_est_by_arm=var,
                          samples_by_arm={a: [1.0] * L for a in arms}, cum_samples=cum, best_arm=[arms[0]])
  m = int(r.integers(1, n + 1))
  sel = [arms[i] for i in r.permutation(n)[:m]]
  s = int(r.integers(0, L + 1)) if r.random() < .7 else None
  ax = Figure().subplots()
  kw = {} if s is None else {'initial_points_to_ignore': s}
  plotting_utils.plot_bandit_results(ax, sel, bd, **kw)
  s = s or 0
  what = f'plot of arms {[a.name for a in sel]} of {n}, {L} rounds, skip {s}'
  lines = [(l.get_label(), [float(v) for v in np.ravel(l.get_xdata())], [float(v) for v in np.ravel(l.get_ydata())]) for l in ax.get_lines()]
  used = []

  def take(pred, msg):
    for i, l in enumerate(lines):
      if i not in used and pred(l):
        used.append(i)
        return
    raise Fail(f'{what}: {msg}')
  for a in sel:
    take(lambda l: l[0] == a.name and l[1] == cum[s:] and l[2] == var[a][s:], f'no labelled estimate curve for {a.name}')
    take(lambda l: l[1] == cum[s:] and l[2] == lcb[a][s:], f'no lower curve for {a.name}')
    take(lambda l: l[1] == cum[s:] and l[2] == ucb[a][s:], f'no upper curve for {a.name}')
  check(len(used) == len(lines), what + ': extra curves')
  bands = [c for c in ax.collections]
  check(len(bands) == m, f'{what}: {len(bands)} bands')
  want = [{(x, y) for x, y in zip(cum[s:] * 2, lcb[a][s:] + ucb[a][s:])} for a in sel]
  got = []
  for c in bands:
    v = set()
    for p in c.get_paths():
      v |= {(float(x), float(y)) for x, y in np.asarray(p.vertices)}
    got.append(v)
  for w, a in zip(want, sel):
    if len(w) == 0:
      continue
    check(any(w == g for g in got), f'{what}: no band between the bounds of {a.name}')
  return what


CASES = [('plot', one, 60)]
LIMIT = {'quick': 60, 'thorough': 400}
