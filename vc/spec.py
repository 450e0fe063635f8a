"""Helpers for writing contracts."""
import ast

import z3
from vc.terms import *
from vc.values import *
from vc.interp import SymRaise, PKG, veq_syn
from vc.task import Case
from vc import lib, prover, interp
from vc.lib import A, generic, freshlam, dimlen, sum_over, num


def mod(ip, name):
  return ip.module(f'{PKG}.{name}')


def get(ip, dotted):
  """'data.ExpData' -> value."""
  m, *rest = dotted.split('.')
  v = mod(ip, m).ns.get(rest[0])
  if v is None:
    raise Unsupported(f'{dotted} does not exist')
  if isinstance(v, Poison):
    raise Unsupported(v.why)
  for r in rest[1:]:
    v = ip.getattr(v, r)
  return v


def attempt(ip, fn):
  """('ok', value) or ('raise', exception name)."""
  try:
    return 'ok', fn()
  except SymRaise as e:
    return 'raise', e.cls, interp.RAISED[0]


def call(ip, f, *a, **k):
  return ip.call(f, list(a), k)


def meth(ip, o, name, *a, **k):
  return ip.call(ip.getattr(o, name), list(a), k)


def pos_int(ip, name, lo=0):
  n = z3.Int(name + '@')
  if lo is not None:
    ip.assume(n >= lo)
  return n


def sym_array(ip, name, dims, dt='f', kinds=False):
  """Array of arbitrary (finite) entries; stable names."""
  dims = tuple(d if isinstance(d, Dim) else Dim(d) for d in dims)
  ps = [param('x', d.sort) for d in dims]
  rng = B if dt == 'b' else I if dt == 'i' else R
  t = z3.Function(name, *[p.sort() for p in ps], rng)(*ps) if ps else z3.Const(name + '@', rng)
  if dt == 'b':
    b = mkbool(t)
  elif kinds:
    k = z3.Function(name + '_k', *[p.sort() for p in ps], I)(*ps)
    ip.fact(forall(list(ps), z3.And(k >= 0, k <= 3)))
    b = Num(t, k, True)
  else:
    b = Num(t, FIN, True)
  return ip.alloc(Arr(dims, Lam(ps, b), dt))


def sym_real(ip, name, kinds=False, nan=True):
  v = z3.Real(name + '@')
  if not kinds:
    return Num(v)
  k = z3.Int(name + '_k@')
  ip.assume(z3.And(k >= 0, k <= (3 if nan else 2)))
  return Num(v, k)


def frozen(ip, ref):
  """Deep copy of the contents reachable through a value (heap snapshot)."""
  return dict(ip.heap)


def with_heap(ip, heap, fn):
  h = ip.heap
  ip.heap = dict(heap)
  try:
    return fn()
  finally:
    ip.heap = h


def at(ip, arr, *ix):
  a = A(ip, arr)
  return a.lam(*[iv(i) if isinstance(i, int) else i for i in ix])


def is_arr(ip, v, *dims):
  """v is an array with exactly these dimension sizes (formula)."""
  if not isinstance(v, Ref):
    return False
  c = ip.cell(v)
  if not isinstance(c, Arr) or c.ndim != len(dims):
    return False
  return And(*[lib_eq(dimlen(ip, d), n) for d, n in zip(c.dims, dims)])


def lib_eq(a, b):
  return n_eq(a if not z3.is_expr(a) else Num(a), b if not z3.is_expr(b) else Num(b))


def elems_eq(ip, v, dims, fn):
  """Array v has the given sizes and entries fn(positions)."""
  if not isinstance(v, Ref) or not isinstance(ip.cell(v), Arr):
    return False
  c = ip.cell(v)
  if c.ndim != len(dims):
    return False
  fs = []
  ps = []
  for d, n in zip(c.dims, dims):
    n = n if isinstance(n, Dim) else Dim(n)
    p = param('q', d.sort)
    ps.append(p)
    fs.append(ip.dims_eq(d, n))
  body = c.lam(*ps)
  fs.append(forall(ps, Implies(And(*[d.dom(p) for d, p in zip(c.dims, ps)]), ip.same(body, fn(*ps)))))
  return And(*fs)


def raised(ip, out, name, exc='ValueError'):
  ip.oblige(name, out[0] == 'raise' and out[1] == exc, f'outcome: {out[0]} {out[1] if out[0] == "raise" else ""}')


def ok(ip, out, name):
  """Obligation that the call returned; False when it did not."""
  r = out[0] == 'ok'
  if not r:
    ip.oblige(name, False, f'raised {out[1]} at {out[2]}')
  return r


def bop(ip, op, a, b):
  """Python's binary operator op (an ast class) on symbolic values."""
  return ip.libs['$binop'](ip, op(), a, b)


class lean:
  """Proves the obligations inside from the simple hypotheses only (those
  without quantifiers and sums): fewer hypotheses, hence still sound."""

  def __init__(self, ip):
    self.ip = ip

  def __enter__(self):
    from vc import prover
    ip = self.ip
    self.pc = ip.pc
    keep = lambda f: not prover.anybig(zb(f)) and not any(z3.is_quantifier(t) for t in subterms([zb(f)]))
    ip.pc = [(t, f) for t, f in ip.pc if keep(f)]

  def __exit__(self, *a):
    self.ip.pc = self.pc + [x for x in self.ip.pc if not any(x is y for y in self.pc)]
