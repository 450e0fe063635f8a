"""C24: SCM construction and sampling."""
from props.scmlib import *


def construct(ip):
  w = SCMWorld(ip, distinct=False, ncov=0)
  out = attempt(ip, w.build)
  if out[0] == 'ok':
    ip.oblige('only a well-formed SCM is accepted', w.wellformed())
    o = out[1]
    ip.oblige('the parts are kept', And(
        ip.same(ip.getattr(o, 'parents'), w.parents), ip.same(ip.getattr(o, 'cpds'), w.cpds),
        ip.same(ip.getattr(o, 'treatment_variable'), Opaque(w.T, 'key')),
        ip.same(ip.getattr(o, 'response_variable'), Opaque(w.Y, 'key'))))
    s = lib.iterate(ip, ip.getattr(o, 'var_names'))
    i = param('i')
    ip.oblige('the variables are kept in order', And(lib_eq(dimlen(ip, s[0]), w.N), forall([i], Implies(
        And(i >= 0, i < w.N), ip.same(s[1](i), Opaque(NAME(i), 'key'))))))
  else:
    raised(ip, out, 'a malformed SCM is rejected with ValueError')
    ip.oblige('a well-formed SCM is not rejected', Not(w.wellformed()))


def sampling(ip):
  w = SCMWorld(ip)
  ip.assume(w.wellformed())
  out = attempt(ip, w.build)
  if not ok(ip, out, 'a well-formed SCM is built'):
    return
  o = out[1]
  before = dict(ip.heap)
  for rnd in ('first', 'second'):
    n = pos_int(ip, 'n' + rnd, 1)
    ip.events = []
    w.start(n)
    out = attempt(ip, lambda: meth(ip, o, 'generate', Num(n)))
    if out[0] == 'raise':
      raised(ip, out, f'{rnd} call: sampling only fails with ValueError')
      ip.oblige(f'{rnd} call: a topological order is accepted', Not(w.topological(w.N)))
      return
    ip.oblige(f'{rnd} call: a variable order that is not topological is rejected', w.topological(w.N))
    p = param('p', NM)
    calls = ip.ghost['calls']
    ip.oblige(f'{rnd} call: every distribution is evaluated exactly once, nothing else is',
              forall([p], lift(calls(p)).v == Ite(w.before(p, w.N), iv(1), iv(0))))
    tok = lambda t: Opaque(SMP(w.round, t), 'sample')
    ip.oblige(f'{rnd} call: one dataset is made and returned', len(w.made) == 1 and ip.same(out[1], w.made[0][0]))
    if len(w.made) != 1:
      return
    kw = w.made[0][1]
    ip.oblige(f'{rnd} call: exposures are the treatment samples', ip.same(kw.get('exposures'), tok(w.T)))
    ip.oblige(f'{rnd} call: responses are the response samples', ip.same(kw.get('response'), tok(w.Y)))
    st = [e[1] for e in ip.events if e[0] == 'stack' and e[1]['out'] is kw.get('covariates')]
    ip.oblige(f'{rnd} call: the covariates are stacked columns', len(st) == 1)
    if len(st) == 1:
      s, j = st[0]['seq'], param('j')
      ip.oblige(f'{rnd} call: covariates in declared order', And(lib_eq(dimlen(ip, s.dim), w.NC), forall([j], Implies(
          And(j >= 0, j < w.NC), ip.same(s.lam(j), tok(COV(j)))))))
    for oid in (o.oid, w.names.oid, w.parents.oid, w.cpds.oid, w.covs.oid):
      ip.oblige(f'{rnd} call: the SCM is not modified', before[oid] is ip.heap[oid] or veq_syn(before[oid], ip.heap[oid]) or
                ip.same_cell(before[oid], ip.heap[oid]))


CASES = [Case('construction', construct, ['scm.SCM.__init__']), Case('sampling', sampling, ['scm.SCM.generate'])]
