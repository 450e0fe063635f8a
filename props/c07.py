"""C07: successive elimination."""
from props.banditlib import *


def case(alg, stable, limit):
  def fn(ip):
    w = World(ip, alg, stable, limit, ['drop'])

    def check():
      up = lambda p: w.af(p, '$upd')
      alive = lambda p: tb(w.af(p, '$alive'))
      ip.oblige('surviving arms are sampled exactly once, dropped arms never',
                w.all_arms(lambda q: n_eq(up(q), Num(Ite(zb(alive(q)), iv(1), iv(0))))))
      # M: least estimate of a surviving arm; L: least upper bound of the
      # surviving arms of estimate M
      some = w.some_arm(alive)
      M, L = ip.fresh_xr('M', nan=False), ip.fresh_xr('L', nan=False)
      best = lambda p: And(alive(p), n_eq(w.est(p), M))
      ip.fact(z3.Implies(some, w.some_arm(best)))
      ip.fact(w.all_arms(lambda q: Or(Not(alive(q)), n_le(M, w.est(q)))))
      ip.fact(z3.Implies(some, w.some_arm(lambda q: And(best(q), n_eq(w.ucb(q), L)))))
      ip.fact(w.all_arms(lambda q: Or(Not(best(q)), n_le(L, w.ucb(q)))))
      K = ip.fresh_fn('alive', [I], B)
      p = param('p')
      stays = And(w.inr(p), alive(p), Or(n_lt(w.lcb(p), L), And(best(p), n_eq(w.ucb(p), L))))
      ip.fact(z3.ForAll([p], K(p) == zb(stays), patterns=[K(p)]))
      w.each_arm(lambda p, f: {'$alive': mkbool(K(p))})
    w.at_round_end = [check]
    r = w.run()
    if r is None:
      return
    lst = ip.getattr(r, 'best_arm')
    over = tb(n_lt(w.lim, w.G('total')))
    n = lift(dimlen(ip, ip.libs['$iter'](ip, lst)[0]))
    sole = And(n_eq(n, 1), w.exactly(lst, lambda q: tb(w.af(q, '$alive'))))
    ip.oblige('the sole survivor, or at the limit the arms of minimal estimate',
              zb(Or(sole, And(over, w.exactly(lst, w.minimal)))))
  return fn


CASES = [Case(f'{a} dataset={s} limit={l}', case(a, s, l), [f'bandits.{ALG[a]}.run'], min_obligations=2)
         for a in ('se',) for s in (False, True) for l in ('real', 'none')]
