"""C04: which data every arm update receives."""
from props.banditlib import *


def case(alg, stable, limit):
  def fn(ip):
    w = World(ip, alg, stable, limit, ['data'])
    w.run()
  return fn


CASES = [Case(f'{a} dataset={s} limit={l}', case(a, s, l), [f'bandits.{ALG[a]}.run'], min_obligations=2)
         for a in ALG for s in (False, True) for l in ('real', 'none')]
