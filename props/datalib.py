"""Shared: symbolic ExpData objects over symbolic arrays."""
from vc.spec import *


def new_data(ip, name, n, nf=1, exp=True, rsp=True, ndim=2):
  """An ExpData built by the real constructor; (ref, cov, exp, rsp refs)."""
  cov = sym_array(ip, name + '_cov', [n, nf][:ndim])
  e = sym_array(ip, name + '_exp', [n]) if exp else None
  y = sym_array(ip, name + '_rsp', [n]) if rsp else None
  d = call(ip, get(ip, 'data.ExpData'), cov, e, y)
  return d, cov, e, y


def unchanged(ip, name, d, snap):
  """Object d and everything it held in heap snapshot snap is as it was."""
  o0, o1 = snap[d.oid], ip.heap[d.oid]
  fs = [set(o0.f) == set(o1.f)]
  for k in o0.f:
    a, b = o0.f[k], o1.f.get(k)
    if isinstance(a, Ref):
      if not isinstance(b, Ref):
        fs.append(False)
        continue
      fs.append(ip.same_cell(snap[a.oid], ip.heap[b.oid]))
      fs.append(ip.same_cell(snap[a.oid], ip.heap[a.oid]))
    else:
      fs.append(ip.same(a, b))
  ip.oblige(name, And(*fs))


def parts_of(ip, d):
  return [ip.getattr(d, k) for k in ('cov', 'exp', 'rsp')]


def bernoulli_of(ip, arr, n, want):
  """arr is one draw of n independent Bernoulli(want(i)) entries."""
  fs = []
  for name, kw in ip.events:
    if name == 'binomial':
      p = A(ip, kw['p']) if kw.get('p') is not None else None
      if p is None or p.ndim != 1:
        continue
      i = param('i')
      o = A(ip, kw['out'])
      fs.append(And(ip.same(kw.get('n'), 1), is_arr(ip, arr, n), is_arr(ip, kw['out'], n), elems_eq(ip, arr, (n,), lambda i: o.lam(i)),
                    forall([i], Implies(And(i >= 0, i < n), want(i, lift(num(p.lam(i))))))))
    if name in ('uniform01',):
      o, a = A(ip, kw['out']), A(ip, arr)
      if o.ndim != 1 or a.ndim != 1:
        continue
      i = param('i')
      q = Num(z3.Function('p@', I, R)(i))
      t = lift(num(a.lam(i)))
      # t = [u < p] with p the documented mean: state it on the mean itself
      mean = z3.Real('mean@')
      fs.append(And(is_arr(ip, arr, n), is_arr(ip, kw['out'], n),
                    forall([i, mean], Implies(And(i >= 0, i < n, want(i, Num(mean))), t.v == Ite(lift(o.lam(i)).v < mean, iv(1), iv(0))))))
  return Or(*fs) if fs else False
