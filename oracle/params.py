"""C10, C19-C23, C32 on the real nuisance estimators, with recording models."""
import math

import sklearn
from sklearn.base import BaseEstimator

from oracle.common import *
from causal_effect_bandits import data
from causal_effect_bandits import parameters


def digest(x, y):
  x, y = np.asarray(x, float), np.asarray(y, float)
  return float(np.sum(x * np.cos(np.arange(x.size).reshape(x.shape))) + 0.37 * np.sum(y * np.sin(1 + np.arange(y.size)))) % 3.0


class Rec(BaseEstimator):
  """Records its training data; predicts a function of it and of the row."""

  def __init__(self, p=0.3):
    self.p = p

  def fit(self, x, y):
    self.calls_ = getattr(self, 'calls_', []) + [(np.array(x), np.array(y))]
    self.w_ = digest(x, y) if len(x) else 0.0
    return self

  def lin(self, x):
    x = np.asarray(x, float)
    return np.sin(x @ (1.0 + np.arange(x.shape[1]) * 0.61) + self.w_ + self.p)

  def predict(self, x):
    return 2.0 * self.lin(x)


class RecP(Rec):

  def predict_proba(self, x):
    p = 0.5 + 0.5 * np.clip(1.6 * self.lin(x), -1, 1)
    return np.c_[1 - p, p]


class RecTable(data.TabularCPD):

  def fit(self, x, z):
    self.calls_ = getattr(self, 'calls_', []) + [(np.array(x), np.array(z))]
    super().fit(x, z)


def fits(m):
  return len(getattr(m, 'calls_', []))


def binary(r, nt, nc, nf, kind='real'):
  n = nt + nc
  e = np.zeros(n, int)
  e[r.permutation(n)[:nt]] = 1
  if kind == 'real':
    cov = r.normal(size=(n, nf)) * float(r.choice([.1, 1, 5]))
    e = e.astype(r.choice(['f8', 'i8']))
  else:
    cov = r.integers(0, int(r.integers(1, 4)) + 1, size=(n, nf))
    if kind == 'ffloat':
      cov = cov.astype(float)
  return data.ExpData(cov, e, r.normal(size=n))


AIPWS = ['AIPWLinearLogistic', 'AIPWKernelRidgeLogistic', 'AIPWKernelGradientBoosting']


class One:
  """An estimator with random hyper-parameters and its recording parts."""

  def __init__(self, r, kind):
    self.r, self.kind = r, kind
    self.nf = int(r.integers(1, 4))
    self.mu = int(r.integers(1, 5))
    self.mo = float(r.choice([.5, .3, .1, .05, .01]))
    self.kw = dict(min_units=self.mu, min_overlap=self.mo)
    self.what = f'{kind} nf={self.nf} {self.kw}'
    self.dk = 'real'
    if kind == 'front':
      self.ratio = float(r.choice([1, 2, 10, 40]))
      self.dk = str(r.choice(['int', 'ffloat']))
      self.what += f' ratio={self.ratio} covariates {self.dk}'
    elif kind == 'linreg':
      self.lreg = float(r.choice([.01, .1, 3]))
      self.what += f' l_reg={self.lreg}'
    self.e = self.build()
    self.instrument(self.e)

  def build(self):
    k = self.kind
    if k == 'aipw':
      return parameters.AIPW(self.nf, Rec(.7), RecP(.2), **self.kw)
    if k == 'front':
      return parameters.FrontDoorLinearFiniteZ(self.nf, self.mu, self.mo, self.ratio)
    if k == 'linbin':
      return parameters.LinearParameterBinaryTreatment(self.nf)
    if k == 'linreg':
      return parameters.LinearRegressionParameter(self.nf, self.lreg)
    return getattr(parameters, k)(self.nf, **self.kw)

  def instrument(self, e):
    if self.kind == 'front':
      e.y_response, e.cov_given_exp = Rec(.4), RecTable(self.ratio)
    elif self.kind == 'linbin':
      e.treat_response, e.cont_response = Rec(.1), Rec(.9)
      e._model = (e.cont_response, e.treat_response)

  def data(self, nt, nc, nf=None):
    return binary(self.r, nt, nc, nf or self.nf, self.dk)

  def good(self):
    r, m = self.r, self.mu
    return self.data(m + int(r.integers(0, 4)), m + int(r.integers(0, 4)))

  def short(self):
    r, m = self.r, self.mu
    a, b = int(r.integers(0, m)), int(r.integers(0, 2 * m + 1))
    if self.kind == 'linbin':
      a, b = 0, 1 + int(r.integers(0, 5))
    return self.data(a, b) if r.random() < .5 else self.data(b, a)

  def models(self):
    k = self.kind
    e = self.e
    return {'front': lambda: [e.y_response, e.cov_given_exp], 'linbin': lambda: [e.treat_response, e.cont_response],
            'linreg': lambda: []}.get(k, lambda: [e.response, e.propensity])()


def untouched(d, before, what):
  for nm, a, b in zip(('cov', 'exp', 'rsp'), (d.cov, d.exp, d.rsp), before):
    eqx(a, b, f'{what}: {nm} of the data after the call')


def parts(d):
  return snap(np.array(d.cov), np.array(d.exp), np.array(d.rsp))


# ---- C20
def aipw_scores(real):
  def fn(r):
    o = One(r, str(r.choice(AIPWS)) if real else 'aipw')
    e, nf = o.e, o.nf
    last = None
    steps = [1] + [int(v) for v in r.integers(0, 2, size=int(r.integers(0, 3)))]
    for s in steps:
      d = o.good() if s else o.short()
      before = parts(d)
      e.fit(d)
      untouched(d, before, o.what)
      last = d if s else last
    o.what += f' fits {steps}'
    d = o.data(int(r.integers(0, 6)), int(r.integers(1, 6)))
    if r.random() < .4:
      # scored before it got its present contents
      e.calculate_score(d)
      o.what += ', dataset scored before'
      if r.random() < .5:
        d.append(o.data(1, 2))
      else:
        d.cov = d.cov + .5
    before = parts(d)
    c1 = np.c_[last.exp, last.cov]
    if not real:
      eqx(e.response.calls_[-1][0], c1, o.what + ': response is fit on')
      eqx(e.response.calls_[-1][1], last.rsp, o.what + ': response is fit to')
      eqx(e.propensity.calls_[-1][0], last.cov, o.what + ': propensity is fit on')
      eqx(e.propensity.calls_[-1][1], last.exp, o.what + ': propensity is fit to')
    else:
      ref = sklearn.clone(e.response).fit(c1, last.rsp)
      q = np.c_[d.exp, d.cov]
      eq(e.response.predict(q), ref.predict(q), o.what + ': response fitted elsewhere than on exposure and covariates', rtol=1e-6, atol=1e-8)
      if len(steps) == 1 or 'Boosting' in o.kind:
        ref = sklearn.clone(e.propensity).fit(last.cov, last.exp)
        eq(e.propensity.predict_proba(d.cov), ref.predict_proba(d.cov), o.what + ': propensity fitted elsewhere than on covariates', rtol=1e-4, atol=1e-5)
    n = len(d.cov)
    m0 = e.response.predict(np.c_[np.zeros(n), d.cov])
    m1 = e.response.predict(np.c_[np.ones(n), d.cov])
    mx = e.response.predict(np.c_[d.exp, d.cov])
    p = np.minimum(np.maximum(e.propensity.predict_proba(d.cov)[:, 1], o.mo), 1 - o.mo)
    eta = e.transform(d)
    check(np.shape(eta) == (n, 4), o.what + f': components of shape {np.shape(eta)} for {n} units')
    for j, (nm, want) in enumerate((('control response', m0), ('treated response', m1), ('response at the exposure', mx), ('propensity', p))):
      eq(eta[:, j], want, f'{o.what}: {nm}')
    check(np.all(eta[:, 3] >= o.mo) and np.all(eta[:, 3] <= 1 - o.mo), o.what + ': propensity outside the overlap bounds')
    s = e.calculate_score(d)
    x, y = np.asarray(d.exp, float), d.rsp
    eq(s, m1 - m0 + (y - mx) * (x / p - (1 - x) / (1 - p)), o.what + ': score')
    untouched(d, before, o.what)
    if not real:
      check(fits(e.response) == sum(steps) == fits(e.propensity), o.what + f': {fits(e.response)} fits')
    return o.what
  return fn


# ---- C22
def enough(r):
  o = One(r, str(r.choice(['aipw', 'aipw', 'front', 'front'] + AIPWS)))
  rec = o.kind in ('aipw', 'front')
  e = o.e
  ncol = 8 if o.kind == 'front' else 4
  have, count, hist, reset = False, 0, [], 0
  for _ in range(int(r.integers(1, 6))):
    st = str(r.choice(['good', 'short', 'edge', 'dim', 'reset'], p=[.25, .3, .3, .1, .05]))
    hist.append(st)
    what = f'{o.what} history {hist}'
    check(bool(e.has_enough_samples()) == have, f'{what}: has_enough_samples {e.has_enough_samples()}')
    if st == 'reset':
      e.reset()
      if o.kind != 'aipw':
        o.instrument(e)
      have, count = False, 0
      continue
    if st == 'dim':
      nf = o.nf + 1 if o.nf == 1 or r.random() < .5 else o.nf - 1
      d = o.data(o.mu + 1, o.mu + 1, nf)
      raises(lambda: e.fit(d), f'{what}: fit on {nf} covariates')
      if have:
        raises(lambda: e.transform(d), f'{what}: evaluation on {nf} covariates')
      if rec:
        for m in o.models():
          check(fits(m) == count, f'{what}: {type(m).__name__} was fit on rejected data')
      continue
    if st == 'edge':
      big = 3 * o.mu + 4
      nt, nc = [(o.mu, o.mu), (o.mu - 1, big), (big, o.mu - 1), (o.mu, big), (big, o.mu), (o.mu - 1, o.mu), (o.mu, o.mu - 1)][r.integers(7)]
      d = o.data(nt, nc) if nt + nc else o.good()
    else:
      d = o.good() if st == 'good' else o.short()
    nt = int(np.sum(d.exp))
    nc = len(d.exp) - nt
    ok = nt >= o.mu and nc >= o.mu
    what += f' with {nt} treated and {nc} controls'
    before = parts(d)
    ep = getattr(e, 'exp_prob', None)
    old = None if rec else [(dict(m.__dict__)) for m in o.models()]
    e.fit(d)
    untouched(d, before, what)
    if rec:
      count += ok
      for m in o.models():
        check(fits(m) == count, f'{what}: {type(m).__name__} was fit {fits(m)} times instead of {count}')
      if ok:
        a, b = o.models()
        eqx(a.calls_[-1][0], np.c_[d.exp, d.cov], what + ': response is refit on')
        eqx(a.calls_[-1][1], d.rsp, what + ': response is refit to')
        w = (d.exp, d.cov) if o.kind == 'front' else (d.cov, d.exp)
        eqx(b.calls_[-1][0], w[0], what + ': second model is refit on')
        eqx(b.calls_[-1][1], w[1], what + ': second model is refit to')
        if o.kind == 'front':
          eq(e.exp_prob, min(max(nt / len(d.exp), o.mo), 1 - o.mo), what + ': exposure probability')
    if not ok:
      check(ep == getattr(e, 'exp_prob', None), f'{what}: exposure probability changed from {ep} to {getattr(e, "exp_prob", None)}')
    if rec:
      pass
    elif not ok:
      for m, f in zip(o.models(), old):
        check(set(m.__dict__) == set(f) and all(m.__dict__[k] is f[k] for k in f), f'{what}: {type(m).__name__} was changed')
    else:
      ref = sklearn.clone(e.response).fit(np.c_[d.exp, d.cov], d.rsp)
      q = np.c_[d.exp, d.cov]
      eq(e.response.predict(q), ref.predict(q), what + ': response', rtol=1e-6, atol=1e-8)
    have = have or ok
    check(bool(e.has_enough_samples()) == have, f'{what}: has_enough_samples {e.has_enough_samples()}')
    if not have:
      d = o.data(int(r.integers(0, 4)), int(r.integers(0, 4)))
      eta = e.transform(d)
      check(np.shape(eta) == (len(d.exp), ncol) and bool(np.all(np.isnan(eta))), f'{what}: evaluation before a fit gives {short(eta)}')
  return f'{o.what} {hist}'


# ---- C23
def linbin(r):
  o = One(r, 'linbin')
  e = o.e
  count, hist, have = 0, [], False
  last = None
  for _ in range(int(r.integers(1, 5))):
    nt, nc = (int(r.integers(0, 7)), int(r.integers(0, 7))) if r.random() < .5 else ((0, 3), (4, 0), (1, 1), (2, 5))[r.integers(4)]
    if nt + nc == 0:
      nt = 1
    hist.append((nt, nc))
    what = f'{o.what} (treated, control) {hist}'
    d = o.data(nt, nc)
    before = parts(d)
    e.fit(d)
    untouched(d, before, what)
    ok = nt > 0 and nc > 0
    count += ok
    have = have or ok
    check(bool(e.has_enough_samples()) == have, f'{what}: has_enough_samples {e.has_enough_samples()}')
    for m, v, nm in ((e.treat_response, 1, 'treated'), (e.cont_response, 0, 'control')):
      check(fits(m) == count, f'{what}: the {nm} model was fit {fits(m)} times instead of {count}')
      if ok:
        pick = np.asarray(d.exp) == v
        eqx(np.asarray(m.calls_[-1][0]), d.cov[pick], f'{what}: units the {nm} model was fit on')
        eqx(np.asarray(m.calls_[-1][1]), d.rsp[pick], f'{what}: responses the {nm} model was fit to')
    q = o.data(int(r.integers(0, 4)), int(r.integers(1, 4)))
    b4 = parts(q)
    s = e.calculate_score(q)
    if have:
      eq(s, e.treat_response.predict(q.cov) - e.cont_response.predict(q.cov), what + ': score')
    else:
      check(np.shape(s) == (len(q.exp),) and np.all(np.isnan(s)), f'{what}: score {short(s)} before a fit')
    untouched(q, b4, what)
  return what


def linreg(r):
  o = One(r, 'linreg')
  e = o.e
  hist, M = [], None
  for _ in range(int(r.integers(1, 4))):
    n = size(r, 0 if hist else 1, 12)
    hist.append(n)
    what = f'{o.what} fits on {hist} units'
    x = data.ExpData(r.normal(size=(n, o.nf)), r.normal(size=n) if r.random() < .7 else r.integers(0, 2, size=n), r.normal(size=n))
    before = parts(x)
    e.fit(x)
    untouched(x, before, what)
    if n:
      D = np.c_[x.exp, x.cov]
      M = n * np.linalg.inv(D.T @ D + o.lreg * np.eye(o.nf + 1))
    check(e.has_enough_samples(), what + ': not reported as fit')
    eq(e.transform(x), M, what + ': matrix', rtol=1e-6, atol=1e-8)
    m = size(r, 1, 8)
    q = data.ExpData(r.normal(size=(m, o.nf)), r.normal(size=m), r.normal(size=m))
    b4 = parts(q)
    s = e.calculate_score(q)
    eq(s, [float(M[0] @ np.r_[q.exp[i], q.cov[i]] * q.rsp[i]) for i in range(m)], what + ': score', rtol=1e-6, atol=1e-8)
    untouched(q, b4, what)
  return what


# ---- C32
def radius(x, s, rho, level):
  p = x.shape[1]
  v = x.T @ x
  a = s * math.log(np.linalg.det(s * v + rho * np.eye(p)))
  b = s * math.log(rho**p * level**2)
  if a <= b:
    return math.inf
  w = np.linalg.eigvalsh((lambda m: (m + m.T) / 2)(v @ np.linalg.inv(v + rho / s * np.eye(p)) @ v))
  if min(w) <= 1e-9 * max(1.0, max(w)):
    raise Skip
  return math.sqrt(a - b) / math.sqrt(min(w))


def width(kind):
  def fn(r):
    o = One(r, kind)
    e = o.e
    d = None
    for _ in range(int(r.integers(1, 3))):
      d = o.good() if r.random() < .7 else o.short()
      d = d if len(d.exp) else o.good()
      e.fit(d)
    s, rho = float(r.choice([.05, .3, 1, 4])), float(r.choice([.01, .1, 1, 5]))
    delta = float(r.random()) * .98 + .01 if r.random() < .8 else float(r.choice([.99, 1e-6]))
    n = len(d.exp)
    what = f'{o.what} n={n} delta={delta} sub_g={s} rho={rho}'
    x = np.asarray(d.cov, float) if kind == 'aipw' else np.c_[d.exp, d.cov].astype(float)
    if kind == 'aipw':
      rad = radius(x, s, rho, delta)
      want = rad * (1 / o.mo - 1)
    else:
      rad = radius(x, s, rho, delta / 3)
      t = math.inf
      dl = delta / 9
      if n > dl**2 / 4 / rho:
        t = math.sqrt(1 / n * (.25 + rho / n) * math.log((n / 4 + rho) / (dl**2 * rho)))
      want = rad * (1 + 2 * (1 / o.mo - 1)) + t * (1 / o.mo - 1)
      if math.isinf(rad):
        want = math.inf
    before = parts(d)
    got = e.calculate_cs_width(delta, s, rho)
    if math.isinf(want):
      check(got == math.inf, f'{what}: width {got} instead of infinity')
    else:
      eq(np.real_if_close(got), want, what + ': width', rtol=1e-5)
    untouched(d, before, what)
    return what
  return fn


# ---- C10
def reset(r):
  o = One(r, str(r.choice(['aipw', 'front', 'linbin', 'linreg'] + AIPWS)))
  e = o.build()
  steps = [int(v) for v in r.integers(0, 2, size=int(r.integers(0, 4)))]
  for s in steps:
    d = o.good() if s else o.short()
    if len(d.exp):
      e.fit(d)
  e.reset()
  what = f'{o.what} fits {steps} then reset'
  check(type(e) is type(o.e), what + ': other class')
  check(not e.has_enough_samples(), what + ': reports enough samples')
  new = o.build()
  sc = lambda q: (o.kind != 'linreg' or True) and q
  d = o.good()
  for q in ([o.good()] if o.kind != 'linreg' else []):
    eqx(e.transform(q), new.transform(q), what + ': components before a fit')
  for dd in (o.short() if r.random() < .4 else o.good(), o.good()):
    if not len(dd.exp):
      continue
    b = parts(dd)
    e.fit(dd)
    new.fit(data.ExpData(*b))
    check(bool(e.has_enough_samples()) == bool(new.has_enough_samples()), what + ': has_enough_samples differs from a new estimator\'s')
    q = o.good()
    eq(e.calculate_score(q), new.calculate_score(q), what + ': scores differ from a new estimator\'s', rtol=1e-4, atol=1e-5)
    if o.kind not in ('linbin', 'linreg'):
      with np.errstate(all='ignore'):
        eq(e.calculate_cs_width(.1, 1., 1.), new.calculate_cs_width(.1, 1., 1.), what + ': width differs from a new estimator\'s')
  return what


# ---- C21
def front(r):
  o = One(r, 'front')
  e = o.e
  steps = [1] + [int(v) for v in r.integers(0, 2, size=int(r.integers(0, 3)))]
  for s in steps:
    d = o.good() if s else o.short()
    if not len(d.exp):
      continue
    e.fit(d)
    last = d if s else (last if steps[0] else None)
  what = f'{o.what} fits {steps}'
  nt = int(np.sum(last.exp))
  clip = lambda v: min(max(v, o.mo), 1 - o.mo)
  p1 = clip(nt / len(last.exp))
  eq(e.exp_prob, p1, what + ': exposure probability')
  mod, tab = e.y_response, e.cov_given_exp
  eqx(mod.calls_[-1][0], np.c_[last.exp, last.cov], what + ': response is fit on')
  if r.random() < .3:
    # any fitted table: a model of this kind, refit on other data
    d2 = o.good()
    tab.fit(d2.exp, d2.cov)
  d = o.good() if r.random() < .7 else last
  before = parts(d)
  n, nf = len(d.exp), o.nf
  support = [np.array(z) for z in tab.z_support()]
  P = lambda z, x: float(tab.predict(np.array([x], dtype=np.asarray(last.exp).dtype), np.array([z], dtype=np.asarray(last.cov).dtype))[0])
  mu = lambda z, x: float(mod.predict(np.r_[float(x), np.asarray(z, float)][None, :])[0])
  W = np.zeros((n, 8))
  for i in range(n):
    z, x = d.cov[i], int(d.exp[i])
    W[i, 0] = mu(z, x)
    W[i, 1], W[i, 2], W[i, 3] = clip(P(z, 1)), clip(P(z, 0)), clip(P(z, x))
    W[i, 4] = 1 / p1 if x else -1 / (1 - p1)
    W[i, 5] = sum(mu(s, x) * (P(s, 1) - P(s, 0)) for s in support)
    W[i, 6] = p1 * mu(z, 1) + (1 - p1) * mu(z, 0)
    W[i, 7] = sum(mu(s, 1) * p1 * W[i, 1] + mu(s, 0) * (1 - p1) * W[i, 2] for s in support)
  eta = e.transform(d)
  check(np.shape(eta) == (n, 8), f'{what}: components of shape {np.shape(eta)}')
  for j, nm in enumerate(['mu(z,x)', 'P(z|1)', 'P(z|0)', 'P(z|x)', 'w', 'f1', 'f2', 'f3']):
    eq(eta[:, j], W[:, j], f'{what}: component {nm}')
  s = e.calculate_score(d)
  eq(s, (d.rsp - W[:, 0]) * (W[:, 1] - W[:, 2]) / W[:, 3] + W[:, 5] + W[:, 4] * (W[:, 6] - W[:, 7]), what + ': score')
  untouched(d, before, what)
  return what


# ---- C19
def table(r):
  ratio = float(r.choice([1, 1.5, 2, 10, 100]))
  t = data.TabularCPD(ratio)
  hist = []
  for _ in range(int(r.integers(1, 4))):
    n = size(r, 1, 20)
    kx, kz, nf = int(r.integers(1, 4)), int(r.integers(1, 6)), int(r.integers(1, 3))
    x = r.integers(0, kx, size=n)
    z = r.integers(0, kz, size=(n, nf))
    if r.random() < .3:
      z = z * 1.0
    hist.append((n, kx, kz, nf))
    bx, bz = snap(x, z)
    t.fit(x, z)
    eqx(x, bx, 'x after fit')
    eqx(z, bz, 'z after fit')
    zs = [np.array(v) for v in sorted({tuple(v) for v in z})]
    zs = [v.astype(z.dtype) for v in zs]
    mp = 1 / len(zs) / ratio
    what = f'ratio {ratio} fits (n, |x|, |z|, dim) {hist}'
    check(t.support_size() == len(zs), f'{what}: support size {t.support_size()}, seen {len(zs)}')
    check(sorted(map(tuple, t.z_support())) == sorted(map(tuple, zs)), what + ': z support')
    check(sorted(t.x_support()) == sorted(set(x)), what + ': x support')
    for v in sorted(set(x)):
      row = np.asarray(t.predict(np.array([v] * len(zs), dtype=x.dtype), np.array(zs)), float)
      emp = np.array([np.mean(np.all(z[x == v] == q, axis=1)) for q in zs])
      w2 = f'{what} x={v} frequencies {emp} fitted {row}'
      check(abs(row.sum() - 1) < 1e-9, w2 + ': does not sum to 1')
      check(np.all(row >= mp - 1e-12), w2 + f': below the minimum {mp}')
      if np.all(emp >= mp):
        eq(row, emp, w2 + ': differs from the frequencies')
      for q, p in zip(emp, row):
        if q < mp - 1e-12:
          eq(p, mp, w2 + ': value below the minimum')
    # predicting: pair by pair, unseen 0, no change
    m = size(r, 0, 8)
    qx = r.integers(0, kx + 1, size=m)
    qz = r.integers(0, kz + 1, size=(m, nf)).astype(z.dtype)
    tb = lambda: {(k, q): p for k, v in t.table.items() for q, p in v.items()}
    t0 = tb()
    got = t.predict(qx, qz)
    check(np.shape(got) == (m,), f'{what}: prediction of shape {np.shape(got)} for {m} pairs')
    for i in range(m):
      seen = int(qx[i]) in set(x.tolist()) and any(np.array_equal(qz[i], q) for q in zs)
      one = t0.get((qx[i].tobytes(), qz[i].tobytes()), 0.0)
      check(seen or got[i] == 0, f'{what}: unseen pair ({qx[i]}, {qz[i]}) gets {got[i]}')
      check(got[i] == one, f'{what}: pair ({qx[i]}, {qz[i]}) gets {got[i]} instead of {one}')
    check(tb() == t0 and t.support_size() == len(zs), what + ': predicting changed the model')
    new = data.TabularCPD(ratio)
    new.fit(x, z)
    q = (np.repeat(np.array(sorted(set(x))), len(zs)), np.array(zs * len(set(x))))
    eqx(t.predict(*q), new.predict(*q), what + ': differs from a new model fit on the same data')
  return what
