"""C26: distribution building blocks."""
from props.datalib import *

DIM = z3.Function('dim', I, I)
PX = z3.Function('parent_x', I, I, I, R)
PV = z3.Function('parent_v', I, I, R)
PI = z3.Function('parent_i', I, I, I)
BX = z3.Function('beta_x', I, I, R)
BM = z3.Function('beta_m', I, I, I, R)
BS = z3.Function('beta_s', I, R)
VEC = z3.ArraySort(I, R)
TF = z3.Function('transformed', I, VEC, I, I, R)
FOUT = z3.Function('f_out', I, I, R)


class Parents:
  """Parents and coefficients: 'ragged' (any number of (n, dim_i) parents with
  vector coefficients), 'matrix' (with matrix coefficients), 'scalar' (1-D
  parents with scalar coefficients), 'mixed' (an integer 1-D parent with an
  integer coefficient, a 1-D one and a 2-D one)."""

  def __init__(self, ip, form):
    self.ip, self.form = ip, form
    n = self.n = pos_int(ip, 'n', 1)
    K = self.K = 3 if form == 'mixed' else pos_int(ip, 'K', 1)
    i, r, c, q = param('i'), param('r'), param('c'), param('q')
    ip.fact(forall([q], DIM(q) >= 1))
    self.m = pos_int(ip, 'm', 1) if form == 'matrix' else None
    num_ = lambda t: Num(t, FIN, True)
    if form in ('ragged', 'matrix'):
      f = ip.alloc(Fam((i,), Arr((Dim(n), Dim(DIM(i))), Lam((r, c), num_(PX(i, r, c))), 'f')))
      g = ip.alloc(Fam((i,), Arr((Dim(DIM(i)),), Lam((c,), num_(BX(i, c))), 'f') if form == 'ragged' else
                       Arr((Dim(DIM(i)), Dim(self.m)), Lam((r, c), num_(BM(i, r, c))), 'f')))
      self.ps = ip.alloc(Seq(Dim(K), Lam((q,), Ref(f.oid, (q,)))))
      self.bs = ip.alloc(Seq(Dim(K), Lam((q,), Ref(g.oid, (q,)))))
      self.kept = [f, g, self.ps, self.bs]
    elif form == 'scalar':
      f = ip.alloc(Fam((i,), Arr((Dim(n),), Lam((r,), num_(PV(i, r))), 'f')))
      self.ps = ip.alloc(Seq(Dim(K), Lam((q,), Ref(f.oid, (q,)))))
      self.bs = ip.alloc(Seq(Dim(K), Lam((q,), Num(BS(q)))))
      self.kept = [f, self.ps, self.bs]
    else:
      a = ip.alloc(Arr((Dim(n),), Lam((r,), Num(PI(iv(0), r), FIN, True)), 'i'))
      b = ip.alloc(Arr((Dim(n),), Lam((r,), num_(PV(iv(1), r))), 'f'))
      e = ip.alloc(Arr((Dim(n), Dim(DIM(iv(2)))), Lam((r, c), num_(PX(iv(2), r, c))), 'f'))
      h = ip.alloc(Arr((Dim(DIM(iv(2))),), Lam((c,), num_(BX(iv(2), c))), 'f'))
      self.ci = z3.Int('ci@')
      self.ps = ip.alloc(PyL([a, b, e]))
      self.bs = ip.alloc(PyL([Num(self.ci), Num(BS(iv(1))), h]))
      self.kept = [a, b, e, h, self.ps, self.bs]
    self.before = {x.oid: ip.heap[x.oid] for x in self.kept}
    ip.events = []

  def term(self, k, i, j=None):
    """<parent k of unit i, coefficients> as a real."""
    if self.form == 'mixed':
      if k == 0:
        return z3.ToReal(PI(iv(0), i)) * z3.ToReal(self.ci)
      if k == 1:
        return PV(iv(1), i) * BS(iv(1))
      k = iv(2)
    if self.form == 'scalar':
      return PV(k, i) * BS(k)
    c = z3.Int(self.ip.newname('c'))
    return SUM(DIM(k), z3.Lambda([c], PX(k, i, c) * (BM(k, c, j) if self.form == 'matrix' else BX(k, c))))

  def total(self, i, j=None, tr=None):
    tr = tr or (lambda k: self.term(k, i, j))
    if self.form == 'mixed':
      return z3.Sum([tr(k) for k in range(3)])
    k = z3.Int(self.ip.newname('k'))
    return SUM(self.K, z3.Lambda([k], tr(k)))

  def forms(self, tr=None):
    """The same sum, written as such, with its first term apart, and for K = 1."""
    tr = tr or (lambda k, i, j: self.term(k, i, j))
    out = [(True, lambda i, j=None: self.total(i, j, lambda k: tr(k, i, j)))]
    # with K = 1 the sum is its only term
    if self.form != 'mixed':
      def split(i, j=None):
        k = z3.Int(self.ip.newname('k'))
        return tr(iv(0), i, j) + SUM(self.K - 1, z3.Lambda([k], tr(1 + k, i, j)))
      if self.ip.prove(self.K == 1, timeout=4, quick=True, light=True):
        return [(True, lambda i, j=None: tr(iv(0), i, j))]
      out.insert(0, (True, split))
    return out

  def intact(self):
    ip = self.ip
    ip.oblige('the arguments are not modified', all(ip.heap[o] is c or veq_syn(ip.heap[o], c) for o, c in self.before.items()))


def one_of(ip, name, fs):
  """One of several sufficient forms of the claim holds (the first that proves)."""
  left = []
  for pre, f in fs:
    if pre is False or not (pre is True or ip.prove(pre, timeout=4, quick=True, light=True) or ip.prove(pre, timeout=4)):
      continue
    if ip.prove(f, timeout=15):
      ip.oblige(name, And(pre, f))
      return
    left.append(And(pre, f))
  ip.oblige(name, Or(False, *left))


def elem_at(ip, v, dims, fn):
  """elems_eq at one arbitrary position."""
  c = A(ip, v)
  ps = [z3.Int(f'unit{k}@') for k in range(len(dims))]
  for p, d in zip(ps, dims):
    ip.assume(And(p >= 0, p < d))
  return And(is_arr(ip, v, *dims), ip.same(c.lam(*ps), fn(*ps)))


def alt(bases):
  return bases if isinstance(bases, list) else [(True, bases)]


def gauss1(ip, res, n, bases, mean, cov, name='result'):
  """res[i] = base(i) + one normal(mean, sqrt(cov)) draw per unit."""
  if not (isinstance(res, Ref) and isinstance(ip.cell(res), Arr) and ip.cell(res).ndim == 1):
    ip.oblige(f'{name}: one value per unit', False)
    return
  fs = []
  for nm, kw in ip.events:
    if nm not in ('normal', 'randn'):
      continue
    o = A(ip, kw['out'])
    if o.ndim != 1:
      continue
    sc = lambda v: lift(num(A(ip, v).lam(*[iv(0)] * A(ip, v).ndim)))
    loc = sc(kw.get('loc', 0)) if nm == 'normal' else Num(rv(0))
    scale = sc(kw.get('scale', 1)) if nm == 'normal' else Num(rv(1))
    e = lambda i: to_real(lift(num(o.lam(i))).v)
    fin = And(isk(loc, FIN), isk(scale, FIN), is_arr(ip, kw['out'], n))
    sq = And(to_real(scale.v) >= 0, to_real(scale.v) * to_real(scale.v) == cov)
    for c, base in alt(bases):
      fs.append((And(c, fin, to_real(loc.v) == mean, sq), elem_at(ip, res, (n,), lambda i: Num(base(i) + e(i)))))
      fs.append((And(c, fin, to_real(loc.v) == 0, sq), elem_at(ip, res, (n,), lambda i: Num(base(i) + mean + e(i)))))
      fs.append((And(c, fin, to_real(loc.v) == 0, to_real(scale.v) == 1), elem_at(
          ip, res, (n,), lambda i: Num(base(i) + mean + SQRT_(ip, cov) * e(i)))))
  one_of(ip, f'{name}: documented function plus Gaussian noise', fs)


def SQRT_(ip, cov):
  return to_real(lift(ip.call_lib('numpy.sqrt', [Num(cov)], {})).v)


def gaussm(ip, res, n, m, bases, mean, cov, name='result'):
  """res[i, j] = base(i, j) + one multivariate_normal(mean, cov) draw per unit."""
  if not (isinstance(res, Ref) and isinstance(ip.cell(res), Arr) and ip.cell(res).ndim == 2):
    ip.oblige(f'{name}: one vector per unit', False)
    return
  fs = []
  cm, cc = A(ip, mean), A(ip, cov)
  for nm, kw in ip.events:
    if nm != 'mvn':
      continue
    o = A(ip, kw['out'])
    if o.ndim != 2:
      continue
    e = lambda i, j: to_real(lift(num(o.lam(i, j))).v)
    rest = And(is_arr(ip, kw['out'], n, m), elems_eq(ip, kw['cov'], (m, m), lambda i, j: num(cc.lam(i, j))))
    for c, base in alt(bases):
      fs.append((And(c, rest, elems_eq(ip, kw['mean'], (m,), lambda i: num(cm.lam(i)))),
                 elem_at(ip, res, (n, m), lambda i, j: Num(base(i, j) + e(i, j)))))
      fs.append((And(c, rest, elems_eq(ip, kw['mean'], (m,), lambda i: 0)),
                 elem_at(ip, res, (n, m), lambda i, j: Num(base(i, j) + to_real(lift(num(cm.lam(j))).v) + e(i, j)))))
  one_of(ip, f'{name}: documented function plus Gaussian noise', fs)


def noise_pars(ip, m=None):
  if m is None:
    mean, cov = sym_real(ip, 'mean'), sym_real(ip, 'cov')
    ip.assume(cov.v >= 0)
    return mean, cov
  return sym_array(ip, 'mean', [m]), sym_array(ip, 'cov', [m, m])


def normal(form):
  def fn(ip):
    p = Parents(ip, form)
    mean, cov = noise_pars(ip, p.m)
    out = attempt(ip, lambda: call(ip, get(ip, 'scm.normal_cpd'), p.ps, p.bs, mean, cov))
    p.intact()
    if not ok(ip, out, 'returns'):
      return
    if p.m is None:
      gauss1(ip, out[1], p.n, p.forms(), mean.v, cov.v)
    else:
      gaussm(ip, out[1], p.n, p.m, p.forms(), mean, cov)
  return fn


def fns_of(ip, p, K):
  """A list of K unknown vector-to-vector mappings."""
  def run(ip_, f, a, kw):
    if len(a) != 1 or kw:
      raise SymRaise('TypeError')
    x = A(ip_, a[0])
    k = f.t
    r = param('r')
    if x.ndim == 1:
      arg = z3.Lambda([r], to_real(lift(num(x.lam(r))).v))
      return ip_.alloc(Arr(x.dims, Lam((r,), Num(TF(k, arg, r, iv(0)), FIN, True)), 'f'))
    c = param('c')
    q = param('q')
    # entrywise in the rows: enough to tell all inputs apart
    arg = lambda cc: z3.Lambda([q], to_real(lift(num(x.lam(q, cc))).v))
    return ip_.alloc(Arr(x.dims, Lam((r, c), Num(TF(k, arg(c), r, c), FIN, True)), 'f'))

  ip.hooks = dict(ip.hooks, **{'call:fn': run})
  if isinstance(K, int):
    return ip.alloc(PyL([Opaque(iv(k), 'fn') for k in range(K)]))
  q = param('q')
  return ip.alloc(Seq(Dim(K), Lam((q,), Opaque(q, 'fn'))))


def transformed(form):
  def fn(ip):
    p = Parents(ip, form)
    fns = fns_of(ip, p, p.K)
    mean, cov = noise_pars(ip, p.m)
    out = attempt(ip, lambda: call(ip, get(ip, 'scm.transformed_normal_cpd'), p.ps, p.bs, fns, mean, cov))
    p.intact()
    if not ok(ip, out, 'returns'):
      return

    def tr(k, i, j):
      r = z3.Int(ip.newname('r'))
      kk = iv(k) if isinstance(k, int) else k
      return TF(kk, z3.Lambda([r], p.term(k, r, j)), i, iv(0) if j is None else j)

    base = p.forms(tr)
    if p.m is None:
      gauss1(ip, out[1], p.n, base, mean.v, cov.v)
    else:
      gaussm(ip, out[1], p.n, p.m, base, mean, cov)
  return fn


def mismatch(ip):
  p = Parents(ip, 'ragged')
  L_ = pos_int(ip, 'L', 0)
  ip.assume(L_ != p.K)
  fns = fns_of(ip, p, L_)
  mean, cov = noise_pars(ip)
  raised(ip, attempt(ip, lambda: call(ip, get(ip, 'scm.transformed_normal_cpd'), p.ps, p.bs, fns, mean, cov)),
         'a wrong number of functions is rejected')


def noise(xs, ms, cs):
  """add_gaussian_noise for the documented shapes."""
  def fn(ip):
    n = pos_int(ip, 'n', 1)
    d = pos_int(ip, 'd', 2)
    ip.events = []
    x = sym_array(ip, 'x', {'n': [n], 'n1': [n, 1], 'nd': [n, d]}[xs])
    mean = {'0': lambda: sym_real(ip, 'mean'), '1': lambda: sym_array(ip, 'mean', [1]), 'd': lambda: sym_array(ip, 'mean', [d]),
            'other': lambda: sym_array(ip, 'mean', [e]), '11': lambda: sym_array(ip, 'mean', [pos_int(ip, 'e', 1), 1])}
    if ms == 'other':
      e = pos_int(ip, 'e', 0)
      ip.assume(e != d)
    mean = mean[ms]()
    cov = {'0': lambda: sym_real(ip, 'cov'), '11': lambda: sym_array(ip, 'cov', [1, 1]), 'dd': lambda: sym_array(ip, 'cov', [d, d])}[cs]()
    val = lambda v: to_real(lift(num(A(ip, v).lam(*[iv(0)] * A(ip, v).ndim))).v)
    if cs != 'dd':
      ip.assume(val(cov) >= 0)
    before = {r.oid: ip.heap[r.oid] for r in (x, mean, cov) if isinstance(r, Ref)}
    out = attempt(ip, lambda: call(ip, get(ip, 'scm.add_gaussian_noise'), x, mean, cov))
    ip.oblige('the arguments are not modified', all(ip.heap[o] is c or veq_syn(ip.heap[o], c) for o, c in before.items()))
    if ms == 'other' or ms == '11':
      raised(ip, out, 'incompatible dimensions are rejected')
      return
    if not ok(ip, out, 'returns'):
      return
    cx = A(ip, x)
    e = lambda *ix: to_real(lift(num(cx.lam(*ix))).v)
    if xs == 'nd':
      gaussm(ip, out[1], n, d, e, mean, cov)
    else:
      gauss1(ip, out[1], n, (lambda i: e(i)) if xs == 'n' else (lambda i: e(i, iv(0))), val(mean), val(cov))
  return fn


def structural(K, od):
  """K: number of parents, or 'n' for any number of one-dimensional ones;
  od: the function's output is (n,), (n, 1) or (n, d)."""
  def fn(ip):
    n = pos_int(ip, 'n', 1)
    ip.events = []
    q, r, i = param('q'), param('r'), param('i')
    ip.fact(forall([q], DIM(q) >= 1))
    if K == 'n':
      kk = pos_int(ip, 'K', 1)
      f = ip.alloc(Fam((i,), Arr((Dim(n),), Lam((r,), Num(PV(i, r), FIN, True)), 'f')))
      ps = ip.alloc(Seq(Dim(kk), Lam((q,), Ref(f.oid, (q,)))))
      kept = [f, ps]
      width = kk
      entry = lambda u, c: PV(c, u)
    else:
      c = param('c')
      arrs = [ip.alloc(Arr((Dim(n), Dim(DIM(iv(k)))), Lam((r, c), Num(PX(iv(k), r, c), FIN, True)), 'f') if k != 1 else
                       Arr((Dim(n),), Lam((r,), Num(PV(iv(k), r), FIN, True)), 'f')) for k in range(K)]
      ps = ip.alloc(PyL(arrs))
      kept = arrs + [ps]
      ws = [DIM(iv(k)) if k != 1 else iv(1) for k in range(K)]
      width = z3.Sum(ws)

      def entry(u, c):
        t, off = None, width
        for k in range(K - 1, -1, -1):
          off = z3.Sum(ws[:k]) if k else iv(0)
          v = PX(iv(k), u, c - off) if k != 1 else PV(iv(1), u)
          t = v if t is None else z3.If(c < off + ws[k], v, t)
        return t
    before = {x.oid: ip.heap[x.oid] for x in kept}
    d = pos_int(ip, 'd', 1)
    calls = []

    def f(ip_, a, kw):
      calls.append(1)
      ip_.oblige('the function gets the parents side by side', len(a) == 1 and not kw and elems_eq(
          ip_, a[0], (n, width), lambda u, c: Num(entry(u, c))))
      dims = {'n': (Dim(n),), 'n1': (Dim(n), Dim(1)), 'nd': (Dim(n), Dim(d))}[od]
      ps_ = [param('u'), param('c')][:len(dims)]
      return ip_.alloc(Arr(dims, Lam(ps_, Num(FOUT(ps_[0], ps_[1] if len(ps_) > 1 else iv(0)), FIN, True)), 'f'))

    mean, cov = noise_pars(ip, d if od == 'nd' else None)
    out = attempt(ip, lambda: call(ip, get(ip, 'scm.structural_equation_with_noise'), ps, Bi('f', f), mean, cov))
    ip.oblige('the arguments are not modified', all(ip.heap[o] is c or veq_syn(ip.heap[o], c) for o, c in before.items()))
    if not ok(ip, out, 'returns'):
      return
    ip.oblige('the function is used', len(calls) > 0)
    if od == 'nd':
      gaussm(ip, out[1], n, d, lambda u, j: FOUT(u, j), mean, cov)
    else:
      gauss1(ip, out[1], n, lambda u: FOUT(u, iv(0)), mean.v, cov.v)
  return fn


def sig_of(z):
  return lambda i, p: And(isk(p, FIN), to_real(p.v) * (1 + EXP(-z(i))) == 1)


def logistic_f(ip):
  p = Parents(ip, 'ragged')
  calls = []

  def f(ip_, a, kw):
    calls.append(1)
    s = ip_.as_seq(lib.to_seq(ip_, a[0])) if len(a) == 1 and not kw else None
    q = param('q')
    ip_.oblige('the function gets the parents', s is not None and And(lib_eq(dimlen(ip_, s.dim), p.K), forall([q], Implies(
        And(q >= 0, q < p.K), ip_.same(s.lam(q), Ref(p.kept[0].oid, (q,)))))))
    r = param('r')
    return ip_.alloc(Arr((Dim(p.n),), Lam((r,), Num(FOUT(r, iv(0)), FIN, True)), 'f'))

  out = attempt(ip, lambda: call(ip, get(ip, 'scm.logistic_bernoulli_cpd'), p.ps, Bi('f', f)))
  p.intact()
  if not ok(ip, out, 'returns'):
    return
  ip.oblige('the function is used', len(calls) > 0)
  ip.oblige('Bernoulli of the sigmoid', bernoulli_of(ip, out[1], p.n, sig_of(lambda i: FOUT(i, iv(0)))))


def logistic(form):
  def fn(ip):
    p = Parents(ip, form)
    out = attempt(ip, lambda: call(ip, get(ip, 'scm.logistic_linear_bernoulli_cpd'), p.ps, p.bs))
    p.intact()
    if not ok(ip, out, 'returns'):
      return
    one_of(ip, 'Bernoulli of the sigmoid of the linear form', [
        (c, bernoulli_of(ip, out[1], p.n, sig_of(f))) for c, f in p.forms()[::-1]])
  return fn


DRAW = z3.Function('draw', I, I, VEC, I, R)   # distribution, number of parents, their values, which draw


def categorical(K):
  """Any (K None) or a fixed number of one-dimensional parents."""
  def fn(ip):
    n = pos_int(ip, 'n', 0)
    kk = pos_int(ip, 'K', 1) if K is None else K
    M = pos_int(ip, 'M', 1)
    c = pos_int(ip, 'c', 0)
    ip.assume(c < kk)
    i, r, q = param('i'), param('r'), param('q')
    if K is None:
      f = ip.alloc(Fam((i,), Arr((Dim(n),), Lam((r,), Num(PV(i, r), FIN, True)), 'f')))
      ps = ip.alloc(Seq(Dim(kk), Lam((q,), Ref(f.oid, (q,)))))
      kept = [f, ps]
    else:
      arrs = [ip.alloc(Arr((Dim(n),), Lam((r,), Num(PV(iv(k), r), FIN, True)), 'f')) for k in range(K)]
      ps = ip.alloc(PyL(arrs))
      kept = arrs + [ps]
    ds = ip.alloc(Seq(Dim(M), Lam((q,), Opaque(q, 'dist'))))
    kept.append(ds)
    # the conditioning values are indices of distributions
    IX = z3.Function('index', I, I)
    ip.fact(forall([r], Implies(And(r >= 0, r < n), And(PV(c, r) == z3.ToReal(IX(r)), IX(r) >= 0, IX(r) < M))))

    def draw(ip_, fv, a, kw):
      if len(a) != 2 or kw:
        raise Unsupported('call of a distribution')
      ip_.oblige('one sample at a time', ip_.same(a[0], 1))
      s = ip_.as_seq(lib.to_seq(ip_, a[1]))
      z = param('z')
      vals = z3.Lambda([z], to_real(lift(num(s.lam(z))).v)) if not isinstance(s.lam.body, Poison) else z3.K(I, rv(0))
      u = ip_.fresh('which', I)
      w = param('w')
      ln = lift(dimlen(ip_, s.dim)).v
      return ip_.alloc(Arr((Dim(1),), Lam((w,), Num(DRAW(fv.t, iv(ln) if isinstance(ln, int) else ln, vals, u), FIN, True)), 'f'))

    ip.hooks = dict(ip.hooks, **{'call:dist': draw})
    before = {x.oid: ip.heap[x.oid] for x in kept}
    out = attempt(ip, lambda: call(ip, get(ip, 'scm.categorical_conditioning'), ps, Num(c), ds))
    ip.oblige('the arguments are not modified', all(ip.heap[o] is x or veq_syn(ip.heap[o], x) for o, x in before.items()))
    if not ok(ip, out, 'returns'):
      return
    ip.oblige('one sample per unit', is_arr(ip, out[1], n))
    u = z3.Int('unit@')
    ip.assume(And(u >= 0, u < n))
    v = lift(num(A(ip, out[1]).lam(u)))
    t = v.v
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
      t = t.arg(1) if ip.branch(t.arg(0)) else t.arg(2)
    if not (z3.is_app(t) and t.decl().eq(DRAW)):
      ip.oblige('each sample is a draw from a distribution', False, str(t)[:200])
      return
    m, ln, vals, which = t.children()
    z = param('z')
    ip.oblige("the distribution is the unit's", m == IX(u))
    ip.oblige("it gets the unit's other parents", And(ln == kk - 1, forall([z], Implies(
        And(z >= 0, z < kk - 1), z3.Select(vals, z) == z3.If(z < c, PV(z, u), PV(z + 1, u))))))
    ip.oblige('each unit has its own draw', u.decl().name() in {str(x) for x in prover_consts(which)})
  return fn


def prover_consts(t):
  seen, out, todo = set(), [], [t]
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_const(x):
      out.append(x)
    todo += x.children()
  return out


def few(ip):
  n = pos_int(ip, 'n', 1)
  kk, c = pos_int(ip, 'K', 0), pos_int(ip, 'c', 0)
  ip.assume(c >= kk)
  i, r, q = param('i'), param('r'), param('q')
  f = ip.alloc(Fam((i,), Arr((Dim(n),), Lam((r,), Num(PV(i, r), FIN, True)), 'f')))
  ps = ip.alloc(Seq(Dim(kk), Lam((q,), Ref(f.oid, (q,)))))
  ds = ip.alloc(Seq(Dim(pos_int(ip, 'M', 1)), Lam((q,), Opaque(q, 'dist'))))
  raised(ip, attempt(ip, lambda: call(ip, get(ip, 'scm.categorical_conditioning'), ps, Num(c), ds)),
         'an index beyond the parents is rejected')


CASES = []
for _f in ('ragged', 'matrix', 'scalar', 'mixed'):
  CASES.append(Case(f'normal_cpd {_f}', normal(_f), ['scm.normal_cpd']))
  CASES.append(Case(f'transformed_normal_cpd {_f}', transformed(_f), ['scm.transformed_normal_cpd']))
  if _f != 'matrix':
    CASES.append(Case(f'logistic_linear {_f}', logistic(_f), ['scm.logistic_linear_bernoulli_cpd', 'scm.logistic_bernoulli_cpd']))
CASES.append(Case('transformed_normal_cpd mismatch', mismatch, ['scm.transformed_normal_cpd']))
CASES.append(Case('logistic_bernoulli_cpd', logistic_f, ['scm.logistic_bernoulli_cpd']))
for _x, _m, _c in [('n', '0', '0'), ('n', '1', '0'), ('n1', '0', '0'), ('n1', '1', '0'), ('n', '0', '11'), ('n', '1', '11'), ('n1', '0', '11'),
                   ('n1', '1', '11'), ('nd', 'd', 'dd'), ('nd', 'other', 'dd'), ('n', '11', '0'), ('n1', '11', '11')]:
  CASES.append(Case(f'add_gaussian_noise x {_x}, mean {_m}, cov {_c}', noise(_x, _m, _c), ['scm.add_gaussian_noise']))
for _K in (1, 2, 3, 'n'):
  for _o in ('n', 'n1', 'nd'):
    CASES.append(Case(f'structural {_K} parents, output {_o}', structural(_K, _o), ['scm.structural_equation_with_noise']))
for _K in (None, 1, 2, 3):
  CASES.append(Case(f'categorical_conditioning {_K or "any number of"} parents', categorical(_K), ['scm.categorical_conditioning']))
CASES.append(Case('categorical_conditioning index', few, ['scm.categorical_conditioning']))
