"""C21: front-door components and scores."""
from props.modellib import *
from vc.lib import SKEY

TAB = z3.Function('tabp', I, R, Key, R)
prover.FACTS['tabp'] = lambda t, x, k: [TAB(t, x, k) >= 0, TAB(t, x, k) <= 1]
NSUP = z3.Function('nsup', I, I)
prover.FACTS['nsup'] = lambda t: [NSUP(t) >= 1]
SUP = z3.Function('supz', I, I, I, R)


def tok_of(ip, self):
  f = ip.cell(self).f
  if f.get('$tok') is None:
    raise Unsupported('a conditional table that was not fit')
  return f['$tok'].v


def table_predict(ip, b):
  """P(z_i|x_i) for every pair; the entries are keyed by the values in their type."""
  self = b['self']
  t = tok_of(ip, self)
  f = ip.cell(self).f
  x, z = A(ip, b['x']), A(ip, b['z'])
  if x.ndim != 1 or z.ndim != 2:
    raise Unsupported('arguments of a table lookup')
  lib.need_eq_dims(ip, x.dims[0], z.dims[0])
  i = param('x', x.dims[0].sort)
  if x.dt != ip.cell(f['$fitx']).dt or z.dt != ip.cell(f['$fity']).dt:
    raise Unsupported('a table lookup with values of another type')
  v = TAB(t, to_real(lift(num(x.lam(i))).v), row_key(ip, z, i))
  return ip.alloc(Arr((x.dims[0],), Lam((i,), Num(v, FIN, True)), 'f'))


def support_row(ip, t, nf):
  return lambda p, j: Num(SUP(t, p, j), FIN, True)


def table_support(ip, b):
  self = b['self']
  t = tok_of(ip, self)
  z = ip.cell(ip.cell(self).f['$fity'])
  q, j, p = param('f'), param('x'), param('p')
  fam = ip.alloc(Fam((q,), Arr((z.dims[1],), Lam((j,), Num(SUP(t, q, j), FIN, True)), z.dt)))
  return ip.alloc(Seq(Dim(NSUP(t)), Lam((p,), Ref(fam.oid, (p,)))))


def table_size(ip, b):
  return Num(NSUP(tok_of(ip, b['self'])))


def contracts(ip):
  ip.contracts['data.TabularCPD.predict'] = table_predict
  ip.contracts['data.TabularCPD.z_support'] = table_support
  ip.contracts['data.TabularCPD.support_size'] = table_size


def front_case(kind, again=False):
  def fn(ip):
    contracts(ip)
    w = Est(ip, FRONT, kind, dt='i')
    o = w.o
    d, t, n = w.data()
    if again:
      attempt(ip, lambda: meth(ip, o, 'calculate_score', d))
      d2, t, n = w.data()
      ip.setcell(d, ip.cell(d2))
    f = lambda k: A(ip, ip.getattr(d, k))
    cov, ex, rs = f('cov'), f('exp'), f('rsp')
    snap = frozen(ip, d)
    mods = all_models(ip, o)
    rm, tm = mods.get('y_response'), mods.get('cov_given_exp')
    if rm is None or tm is None:
      ip.oblige('response model and conditional table are kept', False)
      return
    rt, tt = ip.cell(rm).f['$tok'].v, ip.cell(tm).f['$tok'].v
    fd, ft, fnn = w.last
    g = lambda k: snap[snap[fd.oid].f[k].oid]
    ip.oblige('response fit on exposure and covariates', elems_eq(
        ip, ip.cell(rm).f['$fitx'], (fnn, w.nf + 1), lambda i, j: ip.merge(j == 0, g('exp').lam(i), g('cov').lam(i, j - 1))))
    ip.oblige('response fit to the responses', elems_eq(ip, ip.cell(rm).f['$fity'], (fnn,), g('rsp').lam))
    ip.oblige('table fit on the exposures', elems_eq(ip, ip.cell(tm).f['$fitx'], (fnn,), g('exp').lam))
    ip.oblige('table fit on the covariates', elems_eq(ip, ip.cell(tm).f['$fity'], (fnn, w.nf), g('cov').lam))
    mo = w.par['min_overlap'].v
    clip = lambda v: z3.If(v < mo, mo, z3.If(v > 1 - mo, 1 - mo, v))
    nt, _ = counts(ft, fnn)
    b = lambda op, x, y: bop(ip, op, x, y)
    Ad, Su, Mu, Di = ast.Add, ast.Sub, ast.Mult, ast.Div
    p1 = Num(clip(to_real(b(Di, Num(nt), Num(fnn)).v)), FIN, True)
    ep = ip.getattr(o, 'exp_prob')
    ip.oblige('exposure probability: clipped treated fraction', ip.same(ep, p1))
    # from here on any value within the overlap bounds
    p1 = z3.Real('exposure_probability@')
    c = ip.cell(o)
    ip.assume(And(p1 >= mo, p1 <= 1 - mo))
    ip.setcell(o, Obj(c.cls, {**c.f, 'exp_prob': Num(p1, FIN, True)}))
    nf = cov.dims[1].zn
    real = lambda v: to_real(lift(num(v)).v)

    def mu(z, x):
      """Response for the covariates z(j) at exposure x."""
      j = param('x')
      return PRED(rt, RKEY(nf + 1, z3.Lambda([j], real(ip.merge(j == 0, x, z(j - 1))))))

    def P(z, x):
      j = param('x')
      return TAB(tt, real(x), RKEY(nf, z3.Lambda([j], real(z(j)))))

    out = attempt(ip, lambda: meth(ip, o, 'transform', d))
    eta = None
    u = z3.Int('unit@')
    inr = And(0 <= u, u < n)
    if ok(ip, out, 'transform returns'):
      eta = out[1]
      shaped = is_arr(ip, eta, Num(n), 8)
      ip.oblige('one row per unit, eight components', shaped)
      if not (isinstance(eta, Ref) and isinstance(ip.cell(eta), Arr) and ip.cell(eta).ndim == 2):
        return
      el = lambda j: A(ip, eta).lam(u, iv(j))
      zu = lambda j: cov.lam(u, j)
      xu = ex.lam(u)
      q = param('p')
      sz = lambda j: Num(SUP(tt, q, j))
      total = lambda v: lib.sum_over(ip, Dim(NSUP(tt)), q, Num(v))
      want = [('response', mu(zu, xu)), ('P(z|1), clipped', clip(P(zu, 1))), ('P(z|0), clipped', clip(P(zu, 0))),
              ('P(z|x), clipped', clip(P(zu, xu))), ('w', z3.If(t(u), 1 / p1, -1 / (1 - p1))),
              ('f1', total(mu(sz, xu) * (P(sz, 1) - P(sz, 0)))),
              ('f2', p1 * mu(zu, 1) + (1 - p1) * mu(zu, 0))]
      for j, (nm, v) in enumerate(want):
        have = el(j)
        with lean(ip):
          ip.oblige('component ' + nm, Implies(inr, ip.same(have, v if isinstance(v, Num) else Num(v))))
      a1, a0 = clip(P(zu, 1)), clip(P(zu, 0))
      f3 = total(mu(sz, 1) * p1 * a1 + mu(sz, 0) * (1 - p1) * a0)
      have = el(7)
      with lean(ip):
        ip.oblige('component f3', Implies(inr, ip.same(have, f3)))
    snapm = {k: ip.cell(v) for k, v in mods.items()}
    out = attempt(ip, lambda: meth(ip, o, 'calculate_score', d))
    if ok(ip, out, 'calculate_score returns') and eta is not None:
      s = out[1]
      ip.oblige('one score per unit', is_arr(ip, s, Num(n)))
      if isinstance(s, Ref) and isinstance(ip.cell(s), Arr) and ip.cell(s).ndim == 1:
        y = rs.lam(u)
        with lib.generic(ip, [u], And(inr, n_lt(0, el(3)))):
          want = b(Ad, b(Ad, b(Mu, b(Su, y, el(0)), b(Di, b(Su, el(1), el(2)), el(3))), el(5)), b(Mu, el(4), b(Su, el(6), el(7))))
        ip.oblige('score: front-door formula', Implies(inr, ip.same(A(ip, s).lam(u), want)))
    unchanged(ip, 'the data is not modified', d, snap)
    ip.oblige('the models are not modified', all(ip.cell(v) is snapm[k] for k, v in mods.items()))
  return fn


_F = ['parameters.FrontDoorLinearFiniteZ.fit', 'parameters.FrontDoorLinearFiniteZ.transform', 'parameters.FrontDoorLinearFiniteZ._phi',
      'parameters.FrontDoorLinearFiniteZ.calculate_score']
CASES = [Case(f'front-door {_s}', front_case(_s), _F) for _s in ('fit', 'late', 'refit')]
CASES.append(Case('front-door fit, dataset scored before', front_case('fit', True), _F))
