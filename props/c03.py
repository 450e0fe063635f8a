"""C03: error level of every arm update."""
from props.banditlib import *


def case(alg, stable, limit):
  def fn(ip):
    w = World(ip, alg, stable, limit, ['level'])
    w.run()
  return fn


CASES = [Case(f'{a} dataset={s} limit={l}', case(a, s, l), [f'bandits.{ALG[a]}.run'], min_obligations=1)
         for a in ALG for s in (False, True) for l in ('real', 'none')]
