"""C08: what LUCB samples."""
from props.banditlib import *


def case(alg, stable, limit):
  def fn(ip):
    w = World(ip, alg, stable, limit, ['sel'])

    def check():
      if w.G('seen') is False:
        return
      sel = ip.cell(w.sel)
      if not isinstance(sel, PyL):
        ip.oblige('exactly two arms are sampled', False, f'{type(sel).__name__}')
        return
      ip.oblige('exactly two arms are sampled', len(sel.items) == 2, f'{len(sel.items)}')
      if len(sel.items) != 2:
        return
      a, b = [x.idx[0] for x in sel.items]
      ip.oblige('the two arms are distinct', a != b)
      c = ip.heap[w.arms0.oid]
      F = lambda p: ip.fam_at(c, (p,)).f
      est = lambda p: w.est(p, F(p))
      ucb = lambda p: w.ucb(p, F(p))
      lcb = lambda p: w.lcb(p, F(p))
      mini = lambda p: w.all_arms(lambda q: n_le(est(p), est(q)))

      def pair(x, y):
        return And(mini(x), w.all_arms(lambda q: Or(Not(n_eq(est(q), est(x))), n_le(ucb(q), ucb(x)))),
                   n_lt(est(x), est(y)), w.all_arms(lambda q: Or(n_eq(est(q), est(x)), n_le(lcb(y), lcb(q)))))
      tie = w.all_arms(lambda q: n_eq(est(q), est(a)))
      ip.oblige('leader with the highest upper bound and challenger with the lowest lower bound',
                zb(Or(tie, pair(a, b), pair(b, a))))
    w.at_round_end = [check]
    w.run()
  return fn


CASES = [Case(f'{a} dataset={s} limit={l}', case(a, s, l), [f'bandits.{ALG[a]}.run'], min_obligations=2)
         for a in ('lucb',) for s in (False, True) for l in ('real', 'none')]
