"""C11: variance confidence intervals are well formed."""
from props.armlib import *


def level_ok(w):
  d = w.delta
  return And(d.v > 0, d.v < 1)


def case(alg, stable, later, finite):
  def fn(ip):
    w = World(ip, 'split', stable, alg, later=later, finite=finite)
    out = w.update()
    if out[0] == 'raise':
      ip.oblige('raises ValueError', out[1] == 'ValueError', f'{out[1]} at {out[2]}')
      if ip.prove(zb(Not(level_ok(w)))):
        w.unchanged('a rejected error level changes nothing')
        return
      if finite is True:
        n1 = w.units_eval()
        ip.oblige('raises only for a bad error level or without evaluation units', n_eq(n1, 0))
      return
    ip.oblige('an error level outside (0,1) is rejected', level_ok(w))
    ci = ip.getattr(w.arm, 'ci')
    ip.oblige('the interval is stored and returned', ip.same(ci, out[1]))
    ip.oblige('the state keeps its shape', w.conforms(), f'{w.misfit}')
    v = ip.getattr(w.arm, 'var_est')
    ate = ip.getattr(w.arm, 'ate')
    e = ip.call(ip.getattr(w.eta, 'has_enough_samples'), [])
    if not ip.branch(tb(e)):
      ip.oblige('interval [0, inf) without enough samples', And(n_eq(ci[0], 0), isk(lift(ci[1]), PINF)))
      ip.oblige('infinite estimate without enough samples', isk(lift(v), PINF))
      ip.oblige('NaN effect without enough samples', isk(lift(ate), NAN))
      return
    ip.oblige('a NaN estimate is never stored', Not(isk(lift(v), NAN)))
    if finite is not True:
      return
    lo, hi = ci
    ip.oblige('the estimate is nonnegative', n_le(0, v))
    if alg == 'CHI2':
      ip.assume(n_le(2, w.units_eval()))
    if alg == 'FINITE_SAMPLE':
      n = w.units_eval()
      if ip.branch(n_lt(n, w.par['burn_in'])):
        pass
      else:
        ip.assume(w.root_ok())
    ip.oblige('0 <= lower', n_le(0, lo))
    if alg != 'CHI2':
      for nm, g in (('lower <= estimate', n_le(lo, v)), ('estimate <= upper', n_le(v, hi))):
        ip.oblige(nm, g)
        ip.assume(g)
    ip.oblige('lower <= upper', n_le(lo, hi))
  return fn


CASES = []
for _a in ALGS:
  for _s in (True, False):
    for _l in (False, True):
      CASES.append(Case(f'{_a} stable={_s} {"later" if _l else "first"}', case(_a, _s, _l, True), ['arms.SampleSplittingArm.update'], min_obligations=8))
  CASES.append(Case(f'{_a} {"any" if _a == "CHI2" else "NaN"} scores', case(_a, True, False, False if _a == 'CHI2' else 'nan'), ['arms.SampleSplittingArm.update'], min_obligations=4))
