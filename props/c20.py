"""C20: AIPW scores and propensities."""
from props.modellib import *


def design(ip, cov, e):
  """Matrix with e(i) as first column and the covariates behind it."""
  c = A(ip, cov)
  i, j = param('x'), param('x')
  nf = c.dims[1].zn
  first = e(i)
  v = ip.merge(j == 0, first, c.lam(i, j - 1))
  return Arr((c.dims[0], Dim(nf + 1)), Lam((i, j), v), 'f')


def score_case(kit, kind, again=False):
  def fn(ip):
    w = Est(ip, kit, kind)
    o = w.o
    d, t, n = w.data()
    if again:
      # the dataset was scored before it got its present contents
      attempt(ip, lambda: meth(ip, o, 'calculate_score', d))
      d2, t, n = w.data()
      ip.setcell(d, ip.cell(d2))
    f = lambda k: ip.getattr(d, k)
    cov, ex, rs = f('cov'), f('exp'), f('rsp')
    snap = frozen(ip, d)
    rm, pm = ip.getattr(o, 'response'), ip.getattr(o, 'propensity')
    if not ip.oblige('response and propensity models are kept', And(is_model(ip, rm), is_model(ip, pm))) and not (is_model(ip, rm) and is_model(ip, pm)):
      return
    rt, pt = ip.cell(rm).f['$tok'], ip.cell(pm).f['$tok']
    # what the models were fit on
    fd, ft, fnn = w.last
    g = lambda k: snap[snap[fd.oid].f[k].oid]
    i0, j0 = param('x'), param('x')
    ip.oblige('response fit on exposure and covariates', elems_eq(
        ip, ip.cell(rm).f['$fitx'], (fnn, w.nf + 1), lambda i, j: ip.merge(j == 0, g('exp').lam(i), g('cov').lam(i, j - 1))))
    ip.oblige('response fit to the responses', elems_eq(ip, ip.cell(rm).f['$fity'], (fnn,), g('rsp').lam))
    ip.oblige('propensity fit on the covariates', elems_eq(ip, ip.cell(pm).f['$fitx'], (fnn, w.nf), g('cov').lam))
    ip.oblige('propensity fit to predict exposure', elems_eq(ip, ip.cell(pm).f['$fity'], (fnn,), g('exp').lam))
    mo = w.par['min_overlap']
    one = lambda c: (lambda i: Num(rv(c)))
    mu = lambda e: (lambda i: Num(PRED(rt.v, row_key(ip, design(ip, cov, e), i))))
    m0, m1, mx = mu(one(0)), mu(one(1)), mu(lambda i: A(ip, ex).lam(i))
    prob = lambda i: PROB(pt.v, row_key(ip, A(ip, cov), i))
    clip = lambda i: Num(z3.If(prob(i) < mo.v, mo.v, z3.If(prob(i) > 1 - mo.v, 1 - mo.v, prob(i))))
    out = attempt(ip, lambda: meth(ip, o, 'transform', d))
    parts = None
    if ok(ip, out, 'transform returns'):
      eta = out[1]
      ip.oblige('one row per unit, four components', is_arr(ip, eta, Num(n), 4))
      if isinstance(eta, Ref) and isinstance(ip.cell(eta), Arr) and ip.cell(eta).ndim == 2:
        p = z3.Int('unit@')
        inr = And(0 <= p, p < n)
        el = lambda j: A(ip, eta).lam(p, iv(j))
        parts = [el(j) for j in range(4)]
        for j, (nm, want) in enumerate((('control response', m0), ('treated response', m1), ('response at the exposure', mx), ('propensity: clipped probability of treatment', clip))):
          ip.oblige(nm, Implies(inr, ip.same(el(j), want(p))))
        ip.oblige('propensity within the overlap bounds', Implies(inr, And(n_le(mo, el(3)), n_le(el(3), n_sub(1, mo)))))
    out = attempt(ip, lambda: meth(ip, o, 'calculate_score', d))
    if ok(ip, out, 'calculate_score returns') and parts:
      s = out[1]
      p = z3.Int('unit@')
      inr = And(0 <= p, p < n)
      ip.oblige('one score per unit', is_arr(ip, s, Num(n)))
      if isinstance(s, Ref) and isinstance(ip.cell(s), Arr) and ip.cell(s).ndim == 1:
        # in terms of the components just proved to be the documented ones
        m0, m1, mx, e = parts
        b = lambda op, x, y: bop(ip, op, x, y)
        Ad, Su, Mu, Di = ast.Add, ast.Sub, ast.Mult, ast.Div
        x, y = A(ip, ex).lam(p), A(ip, rs).lam(p)
        with lib.generic(ip, [p], And(inr, n_lt(0, e), n_lt(e, 1))):
          want = b(Ad, b(Su, m1, m0), b(Mu, b(Su, y, mx), b(Su, b(Di, x, e), b(Di, b(Su, 1, x), b(Su, 1, e)))))
        ip.oblige('score: doubly robust formula', Implies(inr, ip.same(A(ip, s).lam(p), want)))
    unchanged(ip, 'the data is not modified', d, snap)
    ip.oblige('the models are not modified', And(ip.same(ip.cell(rm).f['$tok'], rt), ip.same(ip.cell(pm).f['$tok'], pt)))
  return fn


CASES = []
for _k in AIPWS:
  for _s in ('fit', 'late', 'refit'):
    CASES.append(Case(f'{_k.name} {_s}', score_case(_k, _s), ['parameters.AIPW.fit', 'parameters.AIPW.transform', 'parameters.AIPW._phi', 'parameters.AIPW.calculate_score']))
  CASES.append(Case(f'{_k.name} fit, dataset scored before', score_case(_k, 'fit', True), CASES[-1].functions if hasattr(CASES[-1], 'functions') else ['parameters.AIPW.transform', 'parameters.AIPW.calculate_score']))
