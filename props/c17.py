"""C17: append, indexing, length."""
from props.datalib import *

OPT = [(True, True), (True, False), (False, True), (False, False)]


def length_case(e, y, nd):
  def fn(ip):
    n = pos_int(ip, 'n')
    d, *_ = new_data(ip, 'd', n, pos_int(ip, 'nf'), e, y, nd)
    ip.oblige('len is the number of units', n_eq(ip.call_lib('builtins.len', [d], {}), Num(n)))
    ip.oblige('n_units', n_eq(ip.getattr(d, 'n_units'), Num(n)))
    nf = ip.getattr(d, 'n_features')
    ip.oblige('n_features', n_eq(nf, Num(z3.Int('nf@')) if nd == 2 else 1))
  return fn


def self_append_case(e, y, nd):
  """A dataset appended to itself: every array twice."""
  def fn(ip):
    n, nf = pos_int(ip, 'n'), pos_int(ip, 'nf')
    d, cov, ex, rs = new_data(ip, 'd', n, nf, e, y, nd)
    snap = frozen(ip, d)
    out = attempt(ip, lambda: meth(ip, d, 'append', d))
    if not ok(ip, out, 'append returns'):
      return
    ip.oblige('n_units', n_eq(ip.getattr(d, 'n_units'), Num(n + n)))
    ip.oblige('len', n_eq(ip.call_lib('builtins.len', [d], {}), Num(n + n)))

    def twice(a):
      a0 = snap[a.oid]
      return lambda i, *r: ip.merge(i < n, a0.lam(i, *r), a0.lam(i - n, *r))
    ip.oblige('covariates twice', elems_eq(ip, ip.getattr(d, 'cov'), (n + n,) + ((nf,) if nd == 2 else ()), twice(cov)))
    for k, a in (('exp', ex), ('rsp', rs)):
      v = ip.getattr(d, k)
      ip.oblige(f'{k} twice', v is None if a is None else elems_eq(ip, v, (n + n,), twice(a)))
  return fn


def append_case(e, y, e2, y2, nd):
  def fn(ip):
    n, m = pos_int(ip, 'n'), pos_int(ip, 'm')
    nf = pos_int(ip, 'nf')
    nf2 = pos_int(ip, 'nf2')
    d, cov, ex, rs = new_data(ip, 'd', n, nf, e, y, nd)
    d2, cov2, ex2, rs2 = new_data(ip, 'b', m, nf2, e2, y2, nd)
    snap = frozen(ip, d)
    out = attempt(ip, lambda: meth(ip, d, 'append', d2))
    same_nf = (nf == nf2) if nd == 2 else True
    compat = And(same_nf, e2 or not e, y2 or not y)
    if out[0] == 'raise':
      ip.oblige('raises ValueError', out[1] == 'ValueError', out[1])
      ip.oblige('raises only when incompatible', Not(compat))
      unchanged(ip, 'dataset unchanged by a rejected append', d, snap)
      unchanged(ip, 'argument unchanged by a rejected append', d2, snap)
      return
    ip.oblige('incompatible data is rejected', compat)
    unchanged(ip, 'argument unchanged', d2, snap)
    rest = (nf,) if nd == 2 else ()
    tot = Num(n + m)
    ip.oblige('n_units', n_eq(ip.getattr(d, 'n_units'), tot))
    ip.oblige('n_features kept', n_eq(ip.getattr(d, 'n_features'), Num(nf) if nd == 2 else 1))
    ip.oblige('len', n_eq(ip.call_lib('builtins.len', [d], {}), tot))

    def cat(a, b):
      a0, b0 = snap[a.oid], snap[b.oid]
      return lambda i, *r: ip.merge(i < n, a0.lam(i, *r), b0.lam(i - n, *r))
    ip.oblige('covariates: old rows then new rows', elems_eq(ip, ip.getattr(d, 'cov'), (n + m,) + rest, cat(cov, cov2)))
    for k, a, b in (('exp', ex, ex2), ('rsp', rs, rs2)):
      v = ip.getattr(d, k)
      if a is None:
        ip.oblige(f'{k} stays absent', v is None)
      else:
        ip.oblige(f'{k}: old then new', elems_eq(ip, v, (n + m,), cat(a, b)))
  return fn


def index_case(kind, e, y, nd):
  def fn(ip):
    n, nf = pos_int(ip, 'n'), pos_int(ip, 'nf')
    d, cov, ex, rs = new_data(ip, 'd', n, nf, e, y, nd)
    snap = frozen(ip, d)
    f = z3.Function
    if kind == 'slice':
      a, b = z3.Int('lo@'), z3.Int('hi@')
      key = SliceV(Num(a), Num(b), None)
      clip = lambda v: z3.If(v < 0, z3.If(v + n < 0, 0, v + n), z3.If(v > n, n, v))
      lo, hi = clip(a), clip(b)
      dim = Dim(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
      src = lambda i: i + lo
    elif kind == 'mask':
      key = sym_array(ip, 'mask', [n], 'b')
      p = param('k')
      mk = ip.heap[key.oid].lam
      dim = Dim(n, Lam((p,), mk(p)))
      src = lambda i: i
    elif kind == 'array':
      m = pos_int(ip, 'm')
      key = sym_array(ip, 'idx', [m], 'i')
      g = lambda i: lift(ip.heap[key.oid].lam(i)).v
      q = z3.Int('q@')
      ip.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), z3.And(-n <= g(q), g(q) < n))))
      dim = Dim(m)
      src = lambda i: z3.If(g(i) < 0, g(i) + n, g(i))
    out = attempt(ip, lambda: ip.getitem(d, key))
    if not ok(ip, out, 'indexing returns'):
      return
    r = out[1]
    unchanged(ip, 'dataset unchanged', d, snap)
    rest = (nf,) if nd == 2 else ()
    sel = lambda a: (lambda i, *r: snap[a.oid].lam(src(i), *r))
    ip.oblige('covariates selected', elems_eq(ip, ip.getattr(r, 'cov'), (dim,) + rest, sel(cov)))
    for k, a in (('exp', ex), ('rsp', rs)):
      v = ip.getattr(r, k)
      if a is None:
        ip.oblige(f'{k} stays absent', v is None)
      else:
        ip.oblige(f'{k} selected alike', elems_eq(ip, v, (dim,), sel(a)))
    cnt = dimlen(ip, dim)
    ip.oblige('unit count', n_eq(ip.getattr(r, 'n_units'), cnt))
    ip.oblige('len', n_eq(ip.call_lib('builtins.len', [r], {}), cnt))
    ip.oblige('a new dataset', r.oid != d.oid)
  return fn


CASES = []
for _e, _y in OPT:
  for _nd in (1, 2):
    CASES.append(Case(f'len exp={_e} rsp={_y} ndim={_nd}', length_case(_e, _y, _nd), ['data.ExpData.__init__', 'data.ExpData.__len__']))
    for _k in ('slice', 'mask', 'array'):
      CASES.append(Case(f'index by {_k} exp={_e} rsp={_y} ndim={_nd}', index_case(_k, _e, _y, _nd), ['data.ExpData.__getitem__']))
    CASES.append(Case(f'append to itself exp={_e} rsp={_y} ndim={_nd}', self_append_case(_e, _y, _nd), ['data.ExpData.append']))
    for _e2, _y2 in OPT:
      CASES.append(Case(f'append exp={_e}/{_e2} rsp={_y}/{_y2} ndim={_nd}', append_case(_e, _y, _e2, _y2, _nd), ['data.ExpData.append'], min_obligations=3))
