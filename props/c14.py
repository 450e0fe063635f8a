"""C14: arms retain every unit exactly once."""
from props.armlib import *


def check(ip, w):
  tot = Num(iv(0))
  hs = w.held()
  for d in hs:
    tot = n_add(tot, w.df(d)['$bag'])
  ip.oblige('the held datasets are distinct', len({d.oid for d in hs}) == len(hs))
  ip.oblige('every unit given so far is held exactly once', n_eq(tot, w.total))
  ip.oblige('the reported unit count is that of the held data', n_eq(meth(ip, w.arm, 'get_num_units'), w.units_held()))
  ip.oblige('the update counter', n_eq(ip.getattr(w.arm, 'num_pulled'), w.count))


def case(kind, alg, stable, later, boots=None):
  def fn(ip):
    w = World(ip, kind, stable, alg, boots, later=later, want=('split',))
    if not later:
      check(ip, w)
    ip.assume(And(0 < z3.Real('delta@'), z3.Real('delta@') < 1))
    before = [(d, w.df(d)) for d in w.held()]
    out = w.update()
    check(ip, w)
    if out[0] == 'raise':
      ip.oblige('raises only without evaluation units', n_eq(w.units_eval(), 0), f'{out[1]} at {out[2]}')
      return
    ip.oblige('the state keeps its shape', w.conforms(), f'{w.misfit}')
    hs = w.held()
    ip.oblige('two folds are held', sorted(str(w.df(d)['$idx']) for d in hs) == ['0', '1'])
    ip.oblige('data is split once per update', len(w.splits) == 1)
    if stable:
      ip.oblige('only the new data is split', And(*[n_eq(b, w.new_bag) for b, _, _ in w.splits]))
      ip.oblige('no unit was split twice', all(w.df(d)['$split'] == 1 for d in hs))
      if later:
        for d, f in before:
          now = w.fold(f['$idx'])
          ip.oblige('a fold keeps its units', now is not None and self_grew(ip, w, f, w.df(now)))
    else:
      ip.oblige('all data seen so far is split anew', And(*[n_eq(b, w.total) for b, _, _ in w.splits]))
  return fn


def self_grew(ip, w, f, g):
  """Fold g is fold f plus a fold (of the same index) of the new data."""
  if len(w.splits) != 1 or f['$idx'] is None:
    return False
  return And(f['$idx'] == g['$idx'], n_eq(g['$bag'], n_add(f['$bag'], w.splits[0][2][f['$idx']])))


CASES = []
for _s in (True, False):
  for _l in (False, True):
    _n = f'stable={_s} {"later" if _l else "first"}'
    for _a in ALGS:
      CASES.append(Case(f'{_a} {_n}', case('split', _a, _s, _l), ['arms.SampleSplittingArm.update', 'arms.SampleSplittingArm.get_num_units'], min_obligations=8))
    CASES.append(Case(f'bootstrap {_n}', case('boot', None, _s, _l, True), ['arms.BootstrapArm.update', 'arms.BootstrapArm.get_num_units'], min_obligations=8))
