"""C23: the two linear nuisance estimators."""
from props.modellib import *
from vc.lib import INVM


def state_of(ip, w):
  return {k: ip.cell(v) for k, v in all_models(ip, w.o).items()}, meth(ip, w.o, 'has_enough_samples')


def group(ip, d, pick):
  """Expected (covariates, responses) of the units with pick(i)."""
  a, y = A(ip, ip.getattr(d[0], 'cov')), A(ip, ip.getattr(d[0], 'rsp'))
  i = param('x')
  dim = Dim(d[2], Lam((i,), mkbool(pick(i))))
  return ip.alloc(Arr((dim, a.dims[1]), a.lam, 'f')), ip.alloc(Arr((dim,), y.lam, 'f'))


def fit_case(kind, step):
  def fn(ip):
    w = Est(ip, LINBIN, kind)
    o = w.o
    s0 = state_of(ip, w)
    fitted = kind in ('fit', 'late', 'refit')
    ip.oblige('reports enough samples exactly when a fit has succeeded', Iff(tb(s0[1]), fitted))
    d = w.data()
    good = w.enough(d)
    if step == 'good':
      ip.assume(good)
    else:
      nt, nc = counts(d[1], d[2])
      ip.assume(And(d[2] >= 1, nt == 0 if step == 'no treated' else nc == 0))
    want = {'treat_response': group(ip, d, lambda i: d[1](i)), 'cont_response': group(ip, d, lambda i: Not(d[1](i)))}
    snap = frozen(ip, d[0])
    out = attempt(ip, lambda: meth(ip, o, 'fit', d[0]))
    unchanged(ip, 'the data is not modified', d[0], snap)
    if not ok(ip, out, 'fit returns'):
      return
    s1 = state_of(ip, w)
    if step != 'good':
      for k in s0[0]:
        x, y = s0[0][k], s1[0].get(k)
        ip.oblige('a group is empty: the models are untouched', y is not None and And(
            x.cls is y.cls, set(x.f) == set(y.f), *[deep_same(ip, x.f[q], y.f[q]) for q in x.f if q in y.f]))
      ip.oblige('a group is empty: readiness as before', Iff(tb(s0[1]), tb(s1[1])))
      return
    ip.oblige('enough samples are reported', tb(s1[1]))
    for k, (x, y) in want.items():
      m = ip.getattr(o, k)
      f = fitted_on(ip, m) if is_model(ip, m) else None
      ip.oblige(f'{k} is fit on exactly its group', f is not None and ip.same(f[0], x))
      ip.oblige(f'{k} is fit to the responses of its group', f is not None and ip.same(f[1], y))
      ip.oblige(f'{k} was fit again', f is not None and (k not in s0[0] or ip.cell(m).f['$tok'] is not s0[0][k].f['$tok']))
  return fn


def score_case(kind):
  def fn(ip):
    w = Est(ip, LINBIN, kind)
    d, t, n = w.data()
    snap = frozen(ip, d)
    cov = A(ip, ip.getattr(d, 'cov'))
    out = attempt(ip, lambda: meth(ip, w.o, 'calculate_score', d))
    unchanged(ip, 'the data is not modified', d, snap)
    if not ok(ip, out, 'calculate_score returns'):
      return
    nan = Num(rv(0), NAN)
    if kind in ('new', 'short'):
      ip.oblige('never fit: every score is NaN', elems_eq(ip, out[1], (n,), lambda i: nan))
      return
    tok = lambda k: ip.cell(ip.getattr(w.o, k)).f['$tok'].v
    tt, tc = tok('treat_response'), tok('cont_response')
    ip.oblige('score: treated minus control prediction', elems_eq(ip, out[1], (n,), lambda i: Num(
        PRED(tt, row_key(ip, cov, i)) - PRED(tc, row_key(ip, cov, i)))))
  return fn


# ---- LinearRegressionParameter
def real_data(w):
  d, _, n = w.data()
  ip = w.ip
  ip.setattr(d, 'exp', sym_array(ip, f'x{w.no}', [n]))
  return d, n


def design(ip, d):
  x, c = A(ip, ip.getattr(d, 'exp')), A(ip, ip.getattr(d, 'cov'))
  return lambda i, j: z3.If(j >= 1, to_real(lift(c.lam(i, j - 1)).v), to_real(lift(x.lam(i)).v))


def reg_case(first):
  """fit on dataset a (after first, if any), score dataset b."""
  def fn(ip):
    w = Est(ip, LINREG, 'new')
    p = w.nf + 1
    if first:
      d0, n0 = real_data(w)
      if first == 'fit':
        ip.assume(n0 >= 1)
      attempt(ip, lambda: meth(ip, w.o, 'fit', d0))
    d, n = real_data(w)
    ip.assume(n >= 1)
    snap = frozen(ip, d)
    out = attempt(ip, lambda: meth(ip, w.o, 'fit', d))
    unchanged(ip, 'the data is not modified', d, snap)
    if not ok(ip, out, 'fit returns'):
      return
    ip.oblige('reported as fit', tb(meth(ip, w.o, 'has_enough_samples')))
    D = design(ip, d)
    i, j, u = param('i'), param('j'), param('u')
    lam = w.par['l_reg'].v
    gram = z3.Lambda([i, j], SUM(n, z3.Lambda([u], D(u, i) * D(u, j))) + z3.If(i == j, lam, rv(0)))
    inv = lambda a, b: INVM(p, gram, a, b)
    q, nq = real_data(w)
    snap = frozen(ip, q)
    out = attempt(ip, lambda: meth(ip, w.o, 'transform', q))
    M = None
    if ok(ip, out, 'transform returns'):
      ip.oblige('the matrix is n times the regularised inverse Gram matrix', elems_eq(ip, out[1], (p, p), lambda a, b: Num(
          z3.ToReal(n) * inv(a, b))))
      M = A(ip, out[1])
    out = attempt(ip, lambda: meth(ip, w.o, 'calculate_score', q))
    unchanged(ip, 'the scored data is not modified', q, snap)
    if not ok(ip, out, 'calculate_score returns') or M is None:
      return
    Q = design(ip, q)
    y = A(ip, ip.getattr(q, 'rsp'))
    k = param('k')
    el = lambda b: to_real(lift(M.lam(iv(0), b)).v)
    ip.oblige('score: first row of the matrix times the design row times the response', elems_eq(ip, out[1], (nq,), lambda a: Num(
        SUM(p, z3.Lambda([k], el(k) * Q(a, k))) * to_real(lift(y.lam(a)).v))))
  return fn


def empty_case(kind):
  def fn(ip):
    w = Est(ip, LINREG, 'new')
    if kind:
      d0, n0 = real_data(w)
      ip.assume(n0 >= 1)
      attempt(ip, lambda: meth(ip, w.o, 'fit', d0))
    q, nq = real_data(w)
    m0, r0 = meth(ip, w.o, 'transform', q), meth(ip, w.o, 'has_enough_samples')
    a0 = A(ip, m0)
    ip.oblige('reports enough samples exactly when it was fit', Iff(tb(r0), bool(kind)))
    d, n = real_data(w)
    ip.assume(n == 0)
    out = attempt(ip, lambda: meth(ip, w.o, 'fit', d))
    if not ok(ip, out, 'fit returns'):
      return
    ip.oblige('no units: readiness as before', Iff(tb(meth(ip, w.o, 'has_enough_samples')), tb(r0)))
    p = w.nf + 1
    ip.oblige('no units: the matrix is as before', elems_eq(ip, meth(ip, w.o, 'transform', q), (p, p), a0.lam))
  return fn


CASES = []
_b, _r = 'parameters.LinearParameterBinaryTreatment.', 'parameters.LinearRegressionParameter.'
for _s in ('new', 'short', 'fit', 'late'):
  for _t in ('good', 'no treated', 'no controls'):
    CASES.append(Case(f'binary {_s}: fit {_t}', fit_case(_s, _t), [_b + 'fit']))
for _s in ('new', 'short', 'fit', 'late', 'refit'):
  CASES.append(Case(f'binary {_s}: score', score_case(_s), [_b + 'calculate_score']))
for _f in (None, 'fit', 'any'):
  CASES.append(Case(f'regression, first {_f}', reg_case(_f), [_r + 'fit', _r + 'calculate_score']))
for _f in (0, 1):
  CASES.append(Case(f'regression, {_f} fits, then no units', empty_case(_f), [_r + 'fit']))
