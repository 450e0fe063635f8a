"""C15: bootstrap intervals are proper order statistics."""
from props.armlib import *


def case(stable, later, boots):
  def fn(ip):
    w = World(ip, 'boot', stable, None, boots, later=later, want=('boot',))
    out = w.update()
    d = w.delta
    good = And(d.v > 0, d.v < 1)
    if out[0] == 'raise':
      ip.oblige('raises ValueError', out[1] == 'ValueError', f'{out[1]} at {out[2]}')
      ip.oblige('raises only for a bad error level', Not(good), f'{out[1]} at {out[2]}')
      w.unchanged('a rejected error level changes nothing')
      return
    ip.oblige('an error level outside (0,1) is rejected', good)
    ip.oblige('the state keeps its shape', w.conforms(), f'{w.misfit}')
    B_ = w.nb if boots else w.lib('builtins.int', w.lib('numpy.ceil', n_div(4, d)))
    dim, el = ip.libs['$iter'](ip, w.vars)
    ip.oblige('the configured number of bootstrap variances', n_eq(dimlen(ip, dim), B_))
    ci = ip.getattr(w.arm, 'ci')
    ip.oblige('the interval is stored and returned', ip.same(ci, out[1]))
    srt = w.lib('numpy.sort', w.lib('numpy.array', w.vars))
    lo = w.lib('builtins.int', w.lib('numpy.floor', n_mul(n_div(d, 2), B_)))
    hi = n_sub(w.lib('builtins.int', w.lib('numpy.ceil', n_mul(n_sub(1, n_div(d, 2)), B_))), 1)
    ip.oblige('the positions exist', And(n_le(0, lo), n_lt(lo, B_), n_le(0, hi), n_lt(hi, B_)))
    ip.oblige('lower end: entry floor(B d/2) of the sorted variances', ip.same(ci[0], ip.getitem(srt, lo)))
    ip.oblige('upper end: entry ceil(B(1-d/2))-1 of the sorted variances', ip.same(ci[1], ip.getitem(srt, hi)))
    ip.oblige('lower <= upper', n_le(ci[0], ci[1]))
  return fn


CASES = [Case(f'stable={_s} {"later" if _l else "first"}{" B given" if _b else ""}', case(_s, _l, _b), ['arms.BootstrapArm.update'], min_obligations=8)
         for _s in (True, False) for _l in (False, True) for _b in (True, False)]
