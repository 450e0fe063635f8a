"""C02: sample accounting."""
from props.banditlib import *


def case(alg, stable, limit):
  def fn(ip):
    w = World(ip, alg, stable, limit, ['hist'])
    r = w.run()
    if r is None:
      return
    p = z3.Int('arm@')
    ip.assume(w.inr(p))
    q = z3.Int('round@')
    cum = ip.libs['$iter'](ip, ip.getattr(r, 'cum_samples'))
    for field, k in (('samples_by_arm', 'smp'), ('cum_samples', 'cum')):
      ret = ip.getattr(r, field)
      if k == 'cum':
        got, want = cum, ip.libs['$iter'](ip, w.hist[k])
      else:
        got = ip.libs['$iter'](ip, ip.libs['$getitem'](ip, ret, w.arm(p)))
        want = ip.libs['$iter'](ip, Ref(w.hist[k].oid, (p,)))
      ip.oblige(f'{field}: one entry per round', n_eq(dimlen(ip, got[0]), dimlen(ip, want[0])))
      ip.oblige(f'{field}: as many entries as cum_samples', n_eq(dimlen(ip, got[0]), dimlen(ip, cum[0])))
      ip.oblige(f'{field}: entries are those of the run',
                z3.ForAll([q], z3.Implies(zb(tb(got[0].dom(q))), zb(tb(ip.same(got[1](q), want[1](q)))))))
  return fn


CASES = [Case(f'{a} dataset={s} limit={l}', case(a, s, l), [f'bandits.{ALG[a]}.run'], min_obligations=6)
         for a in ALG for s in (False, True) for l in ('real', 'none')]
