"""C18: data transformers."""
from props.datalib import *

OPT = [(True, True), (True, False), (False, True), (False, False)]


def same_ref_or_contents(ip, v, a, snap):
  if a is None:
    return v is None
  if not isinstance(v, Ref):
    return False
  return ip.same_cell(ip.heap[v.oid], snap[a.oid])


def common(ip, d, r, refs, snap, n):
  cov, ex, rs = refs
  unchanged(ip, 'input unchanged', d, snap)
  ip.oblige('exposures kept', same_ref_or_contents(ip, ip.getattr(r, 'exp'), ex, snap))
  ip.oblige('responses kept', same_ref_or_contents(ip, ip.getattr(r, 'rsp'), rs, snap))
  ip.oblige('unit count kept', n_eq(ip.getattr(r, 'n_units'), Num(n)))


def remove_case(e, y):
  def fn(ip):
    n, nf = pos_int(ip, 'n'), pos_int(ip, 'nf', 1)
    j = z3.Int('j@')
    ip.assume(And(-nf <= j, j < nf))
    d, *refs = new_data(ip, 'd', n, nf, e, y, 2)
    snap = frozen(ip, d)
    f = call(ip, get(ip, 'data.get_remove_coordinates_fn'), Num(j))
    out = attempt(ip, lambda: ip.call(f, [d]))
    if not ok(ip, out, 'transformer returns'):
      return
    r = out[1]
    jj = z3.If(j < 0, j + nf, j)
    c0 = snap[refs[0].oid]
    ip.oblige('all columns but the given one, in order',
              elems_eq(ip, ip.getattr(r, 'cov'), (n, nf - 1), lambda i, q: c0.lam(i, z3.If(q < jj, q, q + 1))))
    ip.oblige('feature count', n_eq(ip.getattr(r, 'n_features'), Num(nf - 1)))
    common(ip, d, r, refs, snap, n)
  return fn


def mask_case(e, y, kind):
  def fn(ip):
    n, nf = pos_int(ip, 'n'), pos_int(ip, 'nf', 1)
    d, *refs = new_data(ip, 'd', n, nf, e, y, 2)
    if isinstance(kind, int):
      js = [z3.Int(f'j{i}@') for i in range(kind)]
      ip.assume(And(*[And(0 <= j, j < nf) for j in js]))
      idx = ip.alloc(PyL([Num(j) for j in js]))
      m = kind

      def col(q):
        t = js[-1] if js else z3.IntVal(0)
        for i in range(kind - 2, -1, -1):
          t = z3.If(q == i, js[i], t)
        return t
    else:
      m = pos_int(ip, 'm', 1)
      f = z3.Function('idx', I, I)
      q = z3.Int('q@')
      ip.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), z3.And(0 <= f(q), f(q) < nf))))
      p = param('p')
      idx = ip.alloc(Seq(Dim(m), Lam((p,), Num(f(p)))))
      col = lambda q: f(q)
    snap = frozen(ip, d)
    fn_ = call(ip, get(ip, 'data.get_coordinate_mask_fn'), idx)
    out = attempt(ip, lambda: ip.call(fn_, [d]))
    if not ok(ip, out, 'transformer returns'):
      return
    r = out[1]
    c0 = snap[refs[0].oid]
    ip.oblige('exactly the listed columns, in the listed order',
              elems_eq(ip, ip.getattr(r, 'cov'), (n, m), lambda i, q: c0.lam(i, col(q))))
    ip.oblige('feature count', n_eq(ip.getattr(r, 'n_features'), Num(iv(m))))
    common(ip, d, r, refs, snap, n)
    ip.oblige('list of indices unchanged', ip.same_cell(ip.heap[idx.oid], snap[idx.oid]))
  return fn


def identity_case(e, y):
  def fn(ip):
    n, nf = pos_int(ip, 'n'), pos_int(ip, 'nf', 1)
    d, *refs = new_data(ip, 'd', n, nf, e, y, 2)
    snap = frozen(ip, d)
    f = call(ip, get(ip, 'data.get_identity_fn'))
    out = attempt(ip, lambda: ip.call(f, [d]))
    if not ok(ip, out, 'transformer returns'):
      return
    r = out[1]
    ip.oblige('the input itself', isinstance(r, Ref) and r.oid == d.oid)
    common(ip, d, r, refs, snap, n)
    ip.oblige('covariates', ip.same_cell(ip.cell(ip.getattr(r, 'cov')), snap[refs[0].oid]))
  return fn


CASES = []
for _e, _y in OPT:
  CASES.append(Case(f'remove exp={_e} rsp={_y}', remove_case(_e, _y), ['data.get_remove_coordinates_fn'], min_obligations=5))
  CASES.append(Case(f'identity exp={_e} rsp={_y}', identity_case(_e, _y), ['data.get_identity_fn'], min_obligations=5))
  for _k in ('any length', 1, 2):
    CASES.append(Case(f'mask of {_k} exp={_e} rsp={_y}', mask_case(_e, _y, _k), ['data.get_coordinate_mask_fn'], min_obligations=5))
