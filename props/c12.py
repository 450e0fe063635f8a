"""C12: intervals follow the chosen statistical method."""
from props.armlib import *


def formula(ip, w, alg):
  """(lower, upper) as documented, from the arm's data and estimator."""
  d, n, v = w.delta, w.units_eval(), ip.getattr(w.arm, 'var_est')
  if alg == 'CHI2':
    df = n_sub(n, 1)
    q = lambda x: w.lib('scipy.stats.chi2.ppf', x, df)
    return n_div(n_mul(v, df), q(n_sub(1, n_div(d, 2)))), n_div(n_mul(v, df), q(n_div(d, 2)))
  if alg == 'CLT':
    ate = ip.getattr(w.arm, 'ate')
    s = meth(ip, w.eta, 'calculate_score', w.fold(1))
    sq = bop(ip, ast.Pow, bop(ip, ast.Sub, s, ate), 2)
    sd = w.lib('numpy.sqrt', n_div(w.lib('numpy.var', sq), n))
    lev = n_div(d, n_mul(w.count, w.count))
    z = lambda x: w.lib('scipy.stats.norm.ppf', x)
    return (w.lib('builtins.max', n_add(v, n_mul(z(n_div(lev, 2)), sd)), 0), n_add(v, n_mul(z(n_sub(1, n_div(lev, 2))), sd)))
  g, tau = w.par['sub_gscale'], w.par['tau_bound']
  eta = meth(ip, w.eta, 'calculate_cs_width', n_div(d, 2), sub_g=w.par['eta_sub_gscale'], rho=w.par['rho'])
  width = n_mul(Num(z3.RealVal('5/8')), n_add(w.lib('numpy.sqrt', n_mul(2, g)), tau))
  width = n_div(n_mul(width, w.lib('numpy.sqrt', w.root())), w.lib('numpy.sqrt', n))
  width = n_add(width, lib.s_sq(eta))
  return w.lib('builtins.max', n_sub(v, width), 0), n_add(v, width)


def case(alg, stable, later):
  def fn(ip):
    w = World(ip, 'split', stable, alg, later=later)
    ip.assume(And(0 < z3.Real('delta@'), z3.Real('delta@') < 1))
    out = w.update()
    if out[0] == 'raise':
      ip.oblige('raises only without evaluation units', n_eq(w.units_eval(), 0), f'{out[1]} at {out[2]}')
      return
    ip.oblige('the state keeps its shape', w.conforms(), f'{w.misfit}')
    if not ip.branch(tb(ip.call(ip.getattr(w.eta, 'has_enough_samples'), []))):
      return
    ci = out[1]
    ip.oblige('the interval is stored', ip.same(ip.getattr(w.arm, 'ci'), ci))
    n = w.units_eval()
    ip.assume(n_le(1, n))
    if alg == 'CHI2':
      ip.assume(n_le(2, n))
    if alg == 'FINITE_SAMPLE':
      if ip.branch(n_lt(n, w.par['burn_in'])):
        ip.oblige('[0, inf) below the burn-in', And(n_eq(ci[0], 0), isk(lift(ci[1]), PINF)))
        return
    lo, hi = formula(ip, w, alg)
    ip.oblige('lower bound', ip.same(ci[0], lo))
    ip.oblige('upper bound', ip.same(ci[1], hi))
  return fn


CASES = [Case(f'{_a} stable={_s} {"later" if _l else "first"}', case(_a, _s, _l), ['arms.SampleSplittingArm.update'], min_obligations=5)
         for _a in ALGS for _s in (True, False) for _l in (False, True)]
