"""C13: nuisance fitting and evaluation use disjoint folds."""
from props.armlib import *


def case(kind, alg, stable, later, boots=None):
  def fn(ip):
    w = World(ip, kind, stable, alg, boots, later=later, want=('folds',))
    ip.assume(And(0 < z3.Real('delta@'), z3.Real('delta@') < 1))
    out = w.update()
    if out[0] == 'raise':
      ip.oblige('raises only without evaluation units', n_eq(w.units_eval(), 0), f'{out[1]} at {out[2]}')
      return
    ip.oblige('the state keeps its shape', w.conforms(), f'{w.misfit}')
    e = ip.cell(w.eta).f
    if kind == 'split':
      ip.oblige('the estimator is fit once per update', n_eq(e['$fits'], 1))
      ip.oblige('the whole fold is fit once', len(w.fits) == 1)
    if len(w.fits) == 1:
      x = w.fits[0]
      f0 = w.fold(0)
      ip.oblige('the arm keeps the fold that was fit', f0 is not None and n_eq(w.df(f0)['$bag'], x[1]))
      for d, bag in w.scored:
        ip.oblige('fitted and evaluated units are disjoint and together all units', n_eq(n_add(x[1], bag), w.total))
    if kind == 'split':
      if not ip.branch(tb(ip.call(ip.getattr(w.eta, 'has_enough_samples'), []))):
        return
      ip.oblige('scores are evaluated', len(w.scored) >= 1)
    y = w.fold(1)
    if y is None:
      ip.oblige('an evaluation fold is kept', False)
      return
    s = meth(ip, w.eta, 'calculate_score', y)
    ate = w.lib('numpy.mean', s)
    ip.oblige('the effect is the mean score of the evaluation fold', ip.same(ip.getattr(w.arm, 'ate'), ate))
    sq = bop(ip, ast.Pow, bop(ip, ast.Sub, s, ate), 2)
    ip.oblige('the variance is the mean squared deviation', ip.same(ip.getattr(w.arm, 'var_est'), w.lib('numpy.mean', sq)))
  return fn


CASES = []
for _s in (True, False):
  for _l in (False, True):
    _n = f'stable={_s} {"later" if _l else "first"}'
    for _a in ALGS:
      CASES.append(Case(f'{_a} {_n}', case('split', _a, _s, _l), ['arms.SampleSplittingArm.update'], min_obligations=8))
    for _b in (True, False):
      CASES.append(Case(f'bootstrap{" B given" if _b else ""} {_n}', case('boot', None, _s, _l, _b), ['arms.BootstrapArm.update'], min_obligations=8))
