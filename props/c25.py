"""C25: estimating a treatment effect. SCM.generate is under its contract (C24):
it samples with the distributions the SCM has at the time of the call, or fails."""
from props.scmlib import *


def lookup(ip, cell, t):
  """The distribution stored for key t (forks on aliasing keys)."""
  if isinstance(cell, OverD):
    for k, v in reversed(cell.over):
      if k.eq(t) or ip.branch(k == t):
        return v
    cell = cell.base
  return cell.val(t)


def case(ip):
  w = SCMWorld(ip)
  ip.assume(w.wellformed())
  out = attempt(ip, w.build)
  if not ok(ip, out, 'a well-formed SCM is built'):
    return
  o = out[1]
  cls = get(ip, 'data.ExpData')
  runs = []
  n = pos_int(ip, 'n', 1)

  def generate(ip_, b):
    s = b['self']
    used = ip_.getattr(s, 'cpds')
    same_rest = And(*[ip_.same(ip_.getattr(s, f), ip_.getattr(o, f))
                      for f in ('parents', 'treatment_variable', 'response_variable', 'var_names', 'cov_variables')])
    i = len(runs)
    runs.append((b.get('n_samples'), ip_.cell(used), same_rest))
    if ip_.choose(2) == 1:
      raise SymRaise('RuntimeError')   # any failure of a distribution
    m = lift(num(b.get('n_samples'))).v
    arrs = {k: ip_.alloc(lib.freshlam(ip_, f'run{i}{k}', (Dim(m), Dim(w.NC)) if k == 'cov' else (Dim(m),)))
            for k in ('cov', 'exp', 'rsp')}
    d = ip_.alloc(Obj(cls, dict(n_units=Num(m), n_features=Num(w.NC), **arrs)))
    rsps.append(ip_.cell(arrs['rsp']))
    return d

  rsps = []
  ip.contracts['scm.SCM.generate'] = generate
  before = dict(ip.heap)
  names = [w.names.oid, w.parents.oid, w.covs.oid]
  out = attempt(ip, lambda: meth(ip, o, 'compute_treatment_effect', Num(n)))
  # the SCM is as before, even when sampling failed
  p = param('p', NM)
  for now in (ip.getattr(o, 'cpds'), w.cpds):
    c = ip.cell(now)
    if isinstance(c, OverD):
      for k, v in c.over:
        ip.oblige('the distributions are the ones it had before', isinstance(v, Opaque) and And(CDOM(k), ip.same(v, Opaque(CPD(k), 'cpd'))))
      c = c.base
    ip.oblige('the distributions are the ones it had before', And(
        isinstance(c, MapD), forall([p], Iff(tb(c.dom(p)), CDOM(p))),
        forall([p], Implies(CDOM(p), ip.same(c.val(p), Opaque(CPD(p), 'cpd'))))))
  f0 = before[o.oid].f
  ip.oblige('the other attributes are the ones it had before', And(*[
      ip.same(f0[k], ip.getattr(o, k)) for k in ('parents', 'treatment_variable', 'response_variable', 'var_names', 'cov_variables')]))
  ip.oblige('the given lists and mappings are not modified', all(
      before[i] is ip.heap[i] or veq_syn(before[i], ip.heap[i]) for i in names))
  # the samples that were drawn
  ip.oblige('at most two samples are generated', len(runs) <= 2)
  kinds = []
  for i, (m, cell, rest) in enumerate(runs):
    ip.oblige('a sample has n units', ip.same(m, Num(n)))
    ip.oblige('the graph and the roles are the same', rest)
    f = lookup(ip, cell, w.T)
    q = z3.Const('other@', NM)
    ip.assume(q != w.T)
    ip.oblige('all other distributions are unchanged', ip.same(lookup(ip, cell, q), Opaque(CPD(q), 'cpd')))
    k = pos_int(ip, 'k', 1)
    r = attempt(ip, lambda: call(ip, f, Num(k), ip.alloc(PyL(()))))
    if not ok(ip, r, 'the treatment can be set'):
      return
    one = elems_eq(ip, r[1], (k,), lambda i: 1)
    isone = ip.branch(one)
    kinds.append(isone)
    ip.oblige('the treatment is 1 for all units or 0 for all units', isone or elems_eq(ip, r[1], (k,), lambda i: 0))
  if out[0] == 'raise':
    raised(ip, out, 'the failure is reported', 'RuntimeError')
    ip.oblige('it fails only when sampling fails', len(rsps) < len(runs))
    return
  ip.oblige('one sample is treated, one is not', sorted(kinds) == [False, True])
  if sorted(kinds) == [False, True]:
    q = param('q')
    mean = lambda a: bop(ip, ast.Div, lift(sum_over(ip, Dim(n), q, num(a.lam(q)))), Num(n))
    ip.oblige('the difference of the mean responses', ip.same(
        out[1], bop(ip, ast.Sub, mean(rsps[kinds.index(True)]), mean(rsps[kinds.index(False)]))))


CASES = [Case('treatment effect', case, ['scm.SCM.compute_treatment_effect', 'scm.SCM.generate', 'scm.deterministic_cpd'])]
