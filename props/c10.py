"""C10: reset."""
from props import armlib, banditlib
from props.modellib import *
from props.c14 import check as holds_given
from props.armlib import ALGS
from vc.values import *


def arm_case(kind, alg, stable, later, boots=None):
  def fn(ip):
    w = armlib.World(ip, kind, stable, alg, boots, later=later)
    arm = w.arm
    built, shape = w.built[arm.oid].f, w.shape_heap[arm.oid].f
    fixed = {k: v for k, v in built.items() if k in shape and armlib.veq_syn(v, shape[k])}
    name, cost = ip.getattr(arm, 'name'), ip.getattr(arm, 'cost')
    ip.setattr(w.eta, '$reset', False)
    out = attempt(ip, lambda: meth(ip, arm, 'reset'))
    if not ok(ip, out, 'reset returns'):
      return
    ci = ip.getattr(arm, 'ci')
    inf = const_float(float('inf'))
    ip.oblige('the interval is (-inf, inf)', And(isinstance(ci, tuple) and len(ci) == 2, isinstance(ci, tuple) and And(
        ip.same(ci[0], const_float(float('-inf'))), ip.same(ci[1], inf))))
    ip.oblige('no variance estimate', ip.getattr(arm, 'var_est') is None)
    ip.oblige('no effect estimate', ip.getattr(arm, 'ate') is None)
    ip.oblige('no updates', n_eq(ip.getattr(arm, 'num_pulled'), 0))
    ip.oblige('no units', n_eq(meth(ip, arm, 'get_num_units'), 0))
    ip.oblige('no data is held', len(w.held()) == 0)
    ip.oblige('the estimator was reset', ip.cell(w.eta).f['$reset'] is True)
    ip.oblige('the name is kept', ip.same(ip.getattr(arm, 'name'), name))
    ip.oblige('the cost is kept', ip.same(ip.getattr(arm, 'cost'), cost))
    for k, v in fixed.items():
      ip.oblige('hyper-parameters are kept', ip.same(ip.cell(arm).f.get(k), v) if k in ip.cell(arm).f else False)
    # the next update is a first one
    w.total, w.count = Num(iv(0)), Num(iv(0))
    w.splits.clear()
    ip.assume(And(0 < z3.Real('delta@'), z3.Real('delta@') < 1))
    out = w.update()
    holds_given(ip, w)
    if out[0] == 'raise':
      ip.oblige('an update after a reset raises only without evaluation units', n_eq(w.units_eval(), 0), f'{out[1]} at {out[2]}')
      return
    ip.oblige('an update after a reset leads to a state of a first update', w.conforms(), f'{w.misfit}')
    ip.oblige('the new data is split once', And(len(w.splits) == 1, *[n_eq(b, w.new_bag) for b, _, _ in w.splits]))
  return fn


def bandit_case(alg, stable):
  def fn(ip):
    w = banditlib.World(ip, alg, stable)
    f = {k: z3.Function('clean' + k, I, B) for k in ('0',)}
    w.each_arm(lambda p, F: {'$clean': SBool(f['0'](p))})

    def reset(ip_, a, k):
      ip_.setattr(a[0], '$clean', True)
    ns = dict(w.Arm.ns, reset=Bi('reset', reset))
    w.Arm.ns.update(ns)
    before = {k: v for k, v in ip.cell(w.bandit).f.items()}
    out = attempt(ip, lambda: meth(ip, w.bandit, 'reset'))
    if not ok(ip, out, 'reset returns'):
      return
    q = z3.Int('arm@')
    ip.oblige('every arm is reset', Implies(And(0 <= q, q < w.n), tb(w.af(q, '$clean'))))
  return fn


def est_case(kit, kind):
  def fn(ip):
    w = Est(ip, kit, kind)
    if kit in AIPWS or kit is FRONT or kit is LINBIN:
      d0 = w.data()
      attempt(ip, lambda: meth(ip, w.o, 'calculate_score', d0[0]))
    out = attempt(ip, lambda: meth(ip, w.o, 'reset'))
    if not ok(ip, out, 'reset returns'):
      return
    twin = w.build()
    ip.oblige('not fit', Not(tb(meth(ip, w.o, 'has_enough_samples'))))
    ip.oblige('same state as a new estimator with the same hyper-parameters', deep_same(ip, w.o, twin))
  return fn


CASES = []
for _s in (True, False):
  for _l in (False, True):
    _n = f'stable={_s} {"later" if _l else "new"}'
    for _a in ALGS:
      CASES.append(Case(f'arm {_a} {_n}', arm_case('split', _a, _s, _l), ['arms.SampleSplittingArm.reset'], min_obligations=12))
    CASES.append(Case(f'arm bootstrap {_n}', arm_case('boot', None, _s, _l, True), [], min_obligations=12))
for _a in ('uniform', 'lucb', 'se'):
  for _s in (False, True):
    CASES.append(Case(f'bandit {_a} stable={_s}', bandit_case(_a, _s), []))
for _k in AIPWS + [FRONT, LINBIN, LINREG]:
  for _s in ('new', 'short', 'fit', 'late'):
    CASES.append(Case(f'{_k.name} {_s}', est_case(_k, _s), []))
