"""C16: k_fold and subsample partition the data."""
from props.datalib import *

OPT = [(True, True), (True, False), (False, True), (False, False)]


def keep_of(ip, arr, n):
  """(in-range and selected) predicate of an array selected from n rows."""
  c = ip.cell(arr)
  d = c.dims[0]
  return c, d, (lambda p: d.dom(p))


def part_ok(ip, name, part, refs, snap, n, rest):
  """The part's arrays are one common selection of the original rows; returns
  the selection predicate."""
  cov, ex, rs = refs
  c, d, K = keep_of(ip, ip.getattr(part, 'cov'), n)
  ip.oblige(f'{name}: selection of the original rows', n_eq(Num(d.zn), Num(n)))
  sel = lambda a: (lambda i, *r: snap[a.oid].lam(i, *r))
  ip.oblige(f'{name}: covariates', elems_eq(ip, ip.getattr(part, 'cov'), (d,) + rest, sel(cov)))
  for k, a in (('exp', ex), ('rsp', rs)):
    v = ip.getattr(part, k)
    if a is None:
      ip.oblige(f'{name}: {k} stays absent', v is None)
    else:
      ip.oblige(f'{name}: {k} of the same units', elems_eq(ip, v, (d,), sel(a)))
  size = dimlen(ip, d)
  ip.oblige(f'{name}: unit count', n_eq(ip.getattr(part, 'n_units'), size))
  return K, size


def fold_case(e, y, nd):
  def fn(ip):
    n, nf = pos_int(ip, 'n'), pos_int(ip, 'nf')
    k = z3.Int('k@')
    d, *refs = new_data(ip, 'd', n, nf, e, y, nd)
    snap = frozen(ip, d)
    out = attempt(ip, lambda: meth(ip, d, 'k_fold', Num(k)))
    unchanged(ip, 'original unchanged', d, snap)
    if out[0] == 'raise':
      ip.oblige('raises ValueError', out[1] == 'ValueError', out[1])
      ip.oblige('raises only for a fold count below 1', k < 1)
      return
    ip.oblige('a fold count below 1 is rejected', k >= 1)
    rest = (nf,) if nd == 2 else ()
    dim, el = ip.libs['$iter'](ip, out[1])
    ip.oblige('exactly k folds', n_eq(dimlen(ip, dim), Num(k)))
    i = z3.Int('i@')
    ip.assume(And(dim.dom(i)))
    K, size = part_ok(ip, 'fold', el(i), refs, snap, n, rest)
    p, j = z3.Int('p@'), z3.Int('j@')
    inr = And(0 <= p, p < n)
    j1, j2 = z3.Int('j1@'), z3.Int('j2@')
    _, _, K1 = keep_of(ip, ip.getattr(el(j1), 'cov'), n)
    _, d2, K2 = keep_of(ip, ip.getattr(el(j2), 'cov'), n)
    ip.oblige('no unit in two folds', Implies(And(inr, dim.dom(j1), dim.dom(j2), K1(p), K2(p)), j1 == j2))
    ip.oblige('every unit in some fold', Implies(inr, exists([j1], And(dim.dom(j1), K1(p)))))
    s2 = dimlen(ip, d2)
    ip.oblige('fold sizes differ by at most one', Implies(dim.dom(j2), n_le(size, n_add(s2, 1))))
  return fn


def sub_case(e, y, nd):
  def fn(ip):
    n, nf = pos_int(ip, 'n'), pos_int(ip, 'nf')
    prop = sym_real(ip, 'prop', True, nan=True)
    d, *refs = new_data(ip, 'd', n, nf, e, y, nd)
    snap = frozen(ip, d)
    out = attempt(ip, lambda: meth(ip, d, 'subsample', prop))
    unchanged(ip, 'original unchanged', d, snap)
    good = And(n_le(0, prop), n_le(prop, 1))
    if out[0] == 'raise':
      ip.oblige('raises ValueError', out[1] == 'ValueError', out[1])
      ip.oblige('raises only outside [0,1]', Not(good))
      return
    ip.oblige('a proportion outside [0,1] is rejected', good)
    rest = (nf,) if nd == 2 else ()
    its = ip.libs['$concrete_items'](ip, out[1])
    ip.oblige('two parts', its is not None and len(its) == 2)
    if its is None or len(its) != 2:
      return
    KA, sa = part_ok(ip, 'first part', its[0], refs, snap, n, rest)
    KB, sb = part_ok(ip, 'second part', its[1], refs, snap, n, rest)
    p = z3.Int('p@')
    ip.oblige('every unit in exactly one part', Implies(And(0 <= p, p < n), Iff(KA(p), Not(KB(p)))))
  return fn


CASES = []
for _e, _y in OPT:
  for _nd in (1, 2):
    CASES.append(Case(f'k_fold exp={_e} rsp={_y} ndim={_nd}', fold_case(_e, _y, _nd), ['data.ExpData.k_fold'], min_obligations=8))
    CASES.append(Case(f'subsample exp={_e} rsp={_y} ndim={_nd}', sub_case(_e, _y, _nd), ['data.ExpData.subsample'], min_obligations=8))
