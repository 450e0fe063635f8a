"""Contracts on scikit-learn style models and on the nuisance estimators' data.

A fitted model is a token; predictions are a function of the token and of the
row they are made for (RKEY names a row by its contents).  fit records the
data it was given ($fitx, $fity) and makes a new token.  clone returns an
unfitted model of the same class and parameters.
"""
from props.datalib import *
from vc.lib import RKEY, Key

PRED = z3.Function('pred', I, Key, R)
PROB = z3.Function('prob', I, Key, R)
prover.FACTS['prob'] = lambda t, k: [PROB(t, k) >= 0, PROB(t, k) <= 1]


def _copy(ip, v, nd):
  a = A(ip, v)
  if a.ndim != nd:
    raise SymRaise('ValueError')
  return ip.alloc(Arr(a.dims, a.lam, a.dt))


def _fit(ip, a, k):
  self, x, y = a[0], *(a[1:] + [k[n] for n in ('X', 'x', 'y')[-(3 - len(a)):] if n in k] if len(a) < 3 else a[1:])
  x, y = _copy(ip, x, 2), _copy(ip, y, 1)
  lib.need_eq_dims(ip, ip.cell(x).dims[0], ip.cell(y).dims[0])
  n = dimlen(ip, ip.cell(x).dims[0])
  if not ip.prove(zb(tb(n_le(1, n)))) and not ip.branch(n_le(1, n)):
    raise SymRaise('ValueError')
  c = ip.cell(self)
  ip.setcell(self, Obj(c.cls, {**c.f, '$tok': Num(ip.fresh('fit', I)), '$fitx': x, '$fity': y}))
  return self


def row_key(ip, a, i):
  """The contents of row i of a matrix."""
  d = a.dims[1]
  if d.keep is not None or d.sort != I:
    raise Unsupported('a row selected by a mask')
  j = param('x')
  return RKEY(d.zn, z3.Lambda([j], to_real(lift(num(a.lam(i, j))).v)))


def _rows(ip, self, x):
  f = ip.cell(self).f
  if f['$tok'] is None:
    raise SymRaise('NotFittedError')
  a = A(ip, x)
  if a.ndim != 2:
    raise SymRaise('ValueError')
  lib.need_eq_dims(ip, a.dims[1], ip.cell(f['$fitx']).dims[1])
  i = param('x', a.dims[0].sort)
  return a, i, f['$tok'].v, row_key(ip, a, i)


def _predict(ip, a, k):
  m, i, t, r = _rows(ip, a[0], a[1] if len(a) > 1 else next(iter(k.values())))
  return ip.alloc(Arr(m.dims[:1], Lam((i,), Num(PRED(t, r), FIN, True)), 'f'))


def _proba(ip, a, k):
  m, i, t, r = _rows(ip, a[0], a[1] if len(a) > 1 else next(iter(k.values())))
  j = param('x')
  p = PROB(t, r)
  return ip.alloc(Arr(m.dims[:1] + (Dim(2),), Lam((i, j), Num(z3.If(j == 1, p, 1 - p), FIN, True)), 'f'))


def _init(ip, a, k):
  self = a[0]
  c = ip.cell(self)
  if len(a) > 1:
    raise Unsupported('positional model parameters')
  ip.setcell(self, Obj(c.cls, {'$params': ip.alloc(PyD(dict(k))), '$tok': None, '$fitx': None, '$fity': None}))


def model_class(name, proba=False):
  ns = {'__init__': Bi('__init__', _init), 'fit': Bi('fit', _fit)}
  if proba:
    ns['predict_proba'] = Bi('predict_proba', _proba)
  else:
    ns['predict'] = Bi('predict', _predict)
  return ClassVal(name.split('.')[-1], name, [], ns, None)


MODELS = {}
for _n, _p in (('linear_model.Ridge', 0), ('linear_model.LinearRegression', 0), ('linear_model.LogisticRegression', 1),
               ('kernel_ridge.KernelRidge', 0), ('ensemble.GradientBoostingClassifier', 1)):
  MODELS['sklearn.' + _n] = model_class('sklearn.' + _n, _p)
GIVEN_RESPONSE = model_class('given.Response')
GIVEN_PROPENSITY = model_class('given.Propensity', True)


def _clone(ip, args, kw):
  v = args[0]
  c = ip.cell(v) if isinstance(v, Ref) else None
  if not (isinstance(c, Obj) and '$params' in c.f):
    raise Unsupported('clone of something that is not a model')
  return ip.alloc(Obj(c.cls, {'$params': ip.alloc(ip.cell(c.f['$params'])), '$tok': None, '$fitx': None, '$fity': None}))


for _n, _c in MODELS.items():
  lib.L[_n] = (lambda c: lambda ip, a, k: ip.instantiate(c, list(a), dict(k.items())))(_c)
lib.L['sklearn.clone'] = lib.L['sklearn.base.clone'] = _clone


def is_model(ip, v):
  return isinstance(v, Ref) and isinstance(ip.cell(v), Obj) and '$params' in ip.cell(v).f


def models_of(ip, o, heap=None):
  """Fields of o that hold models."""
  h = heap or ip.heap
  out = {}
  for k, v in h[o.oid].f.items():
    if isinstance(v, Ref) and isinstance(h.get(v.oid), Obj) and '$params' in h[v.oid].f:
      out[k] = v
  return out


def cohort(ip, name, n, nf, dt='f'):
  """A dataset with binary exposures; returns (ref, treated predicate)."""
  t = z3.Function(name + '_treated', I, B)
  cov = sym_array(ip, name + '_cov', [n, nf])
  i = param('x')
  one, zero = (rv(1), rv(0)) if dt == 'f' else (iv(1), iv(0))
  e = ip.alloc(Arr((Dim(n),), Lam((i,), Num(z3.If(t(i), one, zero), FIN, True)), dt))
  y = sym_array(ip, name + '_rsp', [n])
  return call(ip, get(ip, 'data.ExpData'), cov, e, y), t


def counts(t, n):
  """(number treated, number of controls)."""
  p = param('c')
  return CNT(n, z3.Lambda([p], t(p))), CNT(n, z3.Lambda([p], z3.Not(t(p))))


class Kit:
  """One nuisance estimator under contract: how to build it."""

  def __init__(self, name, classes, extra=lambda ip: {}, first=lambda ip: []):
    self.name, self.cls, self.extra, self.first = name, classes, extra, first


def aipw_given(ip):
  ip.tokens = True
  mk = lambda c: ip.instantiate(c, [], {'p': Num(z3.Real(c.name + '_param@'))})
  return [mk(GIVEN_RESPONSE), mk(GIVEN_PROPENSITY)]


def limits(ip):
  """Overlap and group-size hyper-parameters."""
  mo, mu = sym_real(ip, 'min_overlap'), Num(pos_int(ip, 'min_units', 1))
  ip.assume(And(mo.v >= rv(Fraction(1, 10**14)), mo.v <= rv(Fraction(1, 2))))
  return dict(min_units=mu, min_overlap=mo)


AIPWS = [Kit('AIPW', 'parameters.AIPW', limits, aipw_given), Kit('AIPWLinearLogistic', 'parameters.AIPWLinearLogistic', limits),
         Kit('AIPWKernelRidgeLogistic', 'parameters.AIPWKernelRidgeLogistic', limits),
         Kit('AIPWKernelGradientBoosting', 'parameters.AIPWKernelGradientBoosting', limits)]


def ridge_ratio(ip):
  r = sym_real(ip, 'ratio')
  ip.assume(r.v >= 1)
  return dict(limits(ip), min_ratio_to_uniform=r)


FRONT = Kit('FrontDoorLinearFiniteZ', 'parameters.FrontDoorLinearFiniteZ', ridge_ratio)
LINBIN = Kit('LinearParameterBinaryTreatment', 'parameters.LinearParameterBinaryTreatment')


def reg(ip):
  l = sym_real(ip, 'l_reg')
  ip.assume(l.v > 0)
  return dict(l_reg=l)


LINREG = Kit('LinearRegressionParameter', 'parameters.LinearRegressionParameter', reg)


class Est:
  """An estimator in an arbitrary state of the given kind.

  Kinds (every history leads to one of them: the obligations of C22/C23 on fit
  show that a step stays among them): new; short: one fit without enough
  units; fit: a fit with enough units, the data being arbitrary; late: such a
  fit followed by one without enough units."""

  def __init__(self, ip, kit, kind='new', dt='f'):
    self.ip, self.kit, self.dt = ip, kit, dt
    self.nf = pos_int(ip, 'nf', 1)
    self.par = kit.extra(ip)
    self.pos = kit.first(ip)
    if kit is FRONT:
      table_contracts(ip)
    self.o = self.build()
    self.no = 0
    self.last = None
    for step in dict(new=[], short=[0], fit=[1], late=[1, 0], refit=[1, 1])[kind]:
      d = self.data()
      ip.assume(self.enough(d) if step else Not(self.enough(d)))
      out = attempt(ip, lambda: meth(ip, self.o, 'fit', d[0]))
      if out[0] != 'ok':
        ip.oblige('an earlier fit returns', False, str(out[1:]))
      self.last = d if step or self.last is None else self.last
      self.recent = d

  def build(self):
    ip = self.ip
    pos = [lib.L['sklearn.clone'](ip, [m], {}) for m in self.pos]
    return call(ip, get(ip, self.kit.cls), Num(self.nf), *pos, **self.par)

  def data(self, nf=None, n=None, dt=None):
    """(dataset, treated predicate, number of units)."""
    ip = self.ip
    self.no += 1
    n = n if n is not None else pos_int(ip, f'n{self.no}', 0)
    d, t = cohort(ip, f'd{self.no}', n, nf if nf is not None else self.nf, dt or self.dt)
    return d, t, n

  def enough(self, d):
    nt, nc = counts(d[1], d[2])
    if self.kit is LINBIN:
      return And(nt >= 1, nc >= 1)
    if self.kit is LINREG:
      return d[2] >= 1
    m = self.par['min_units'].v
    return And(nt >= m, nc >= m)

  def models(self):
    return models_of(self.ip, self.o)


def deep_same(ip, a, b, ha=None, hb=None, memo=None):
  """Formula: two object graphs are equal (models by class, parameters and fit)."""
  memo = {} if memo is None else memo
  ha, hb = ha or ip.heap, hb or ip.heap
  if isinstance(a, Ref) and isinstance(b, Ref):
    if (a.oid, b.oid) in memo or a.oid == b.oid and ha is hb:
      return True
    memo[(a.oid, b.oid)] = True
    x, y = ha[a.oid], hb[b.oid]
    if isinstance(x, Obj) and isinstance(y, Obj):
      if x.cls is not y.cls or set(x.f) != set(y.f):
        return False
      return And(*[deep_same(ip, x.f[k], y.f[k], ha, hb, memo) for k in x.f])
    if isinstance(x, PyD) and isinstance(y, PyD):
      return set(x.d) == set(y.d) and And(*[deep_same(ip, x.d[k], y.d[k], ha, hb, memo) for k in x.d])
    if isinstance(x, PyL) and isinstance(y, PyL):
      return len(x.items) == len(y.items) and And(*[deep_same(ip, p, q, ha, hb, memo) for p, q in zip(x.items, y.items)])
    return ip.same_cell(x, y)
  if isinstance(a, tuple) and isinstance(b, tuple):
    return len(a) == len(b) and And(*[deep_same(ip, p, q, ha, hb, memo) for p, q in zip(a, b)])
  if isinstance(a, Ref) or isinstance(b, Ref):
    return False
  if isinstance(a, ClassVal) or isinstance(b, ClassVal):
    return a is b
  return ip.same(a, b)


# ---- the front-door's conditional table
def table_fit(ip, b):
  self, x, z = b['self'], _copy(ip, b['x'], 1), _copy(ip, b['z'], 2)
  lib.need_eq_dims(ip, ip.cell(x).dims[0], ip.cell(z).dims[0])
  c = ip.cell(self)
  ip.setcell(self, Obj(c.cls, {**c.f, '$params': None, '$tok': Num(ip.fresh('tab', I)), '$fitx': x, '$fity': z}))


def table_contracts(ip):
  ip.contracts['data.TabularCPD.fit'] = table_fit


def is_table(ip, v):
  return isinstance(v, Ref) and isinstance(ip.cell(v), Obj) and getattr(ip.cell(v).cls, 'name', '') == 'TabularCPD'


def fitted_on(ip, m):
  """(fit data, fit target) of a model, or None."""
  f = ip.cell(m).f
  return (f['$fitx'], f['$fity']) if f.get('$tok') is not None else None


def all_models(ip, o):
  """Field name -> model or conditional table of an estimator."""
  out = dict(models_of(ip, o))
  for k, v in ip.cell(o).f.items():
    if is_table(ip, v):
      out[k] = v
  return out
