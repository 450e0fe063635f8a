"""C05: why uniform and LUCB runs end."""
from props.banditlib import *


def case(alg, stable, limit):
  def fn(ip):
    w = World(ip, alg, stable, limit, [])
    r = w.run()
    if r is None:
      return
    best = ip.getattr(r, 'best_arm')
    over = tb(n_lt(w.lim, w.G('total')))
    it = w.items(best)
    budget = And(over, zb(tb(w.exactly(best, w.minimal))))
    if it is not None and len(it) == 1:
      b = it[0].idx[0]
      u = w.ucb(b)
      won = And(w.minimal(b), w.all_arms(lambda q: isk(w.ucb(q), FIN)),
                w.all_arms(lambda q: Or(q == b, n_lt(u, n_sub(w.lcb(q), w.tol)))))
      ip.oblige('the run ends because the limit is exceeded or one arm has won', zb(Or(budget, won)))
    else:
      ip.oblige('without a winner the limit is exceeded', over)
      ip.oblige('exactly the arms of minimal estimate are returned', w.exactly(best, w.minimal))
  return fn


CASES = [Case(f'{a} dataset={s} limit={l}', case(a, s, l), [f'bandits.{ALG[a]}.run'], min_obligations=1)
         for a in ('uniform', 'lucb') for s in (False, True) for l in ('real', 'none')]
