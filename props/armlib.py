"""Abstract data, nuisance estimator and ghost accounting for the arms.

Datasets carry ghost fields: $bag, an arbitrary additive measure of the units
they hold (so equal totals mean: every unit exactly once), $idx, the fold all
their units were put in when last split, $split, how often they were split,
$ver, a token identifying the contents.
"""
from vc.interp import Infeasible
from vc.spec import *

SCORE = z3.Function('score', I, I, I, R)
SCOREK = z3.Function('score_k', I, I, I, I)
ENOUGH = z3.Function('enough', I, B)
WIDTH = z3.Function('width', I, R, R, R, R)
WIDTHK = z3.Function('width_k', I, R, R, R, I)
TBAG = z3.Function('tbag', I, I)
ALGS = ('CHI2', 'CLT', 'FINITE_SAMPLE')


def _d(name):
  """Method of the abstract estimator, run by the world of this path."""
  return Bi(name, lambda ip, a, k: getattr(ip.world, METHODS[name])(ip, a, k))


METHODS = dict(fit='fit', has_enough_samples='enough', calculate_score='score', calculate_cs_width='width', reset='eta_reset',
               transformer='transform')
ETA = ClassVal('Eta', 'spec.Eta', [], {k: _d(k) for k in METHODS if k != 'transformer'}, None)
TRANSFORMER = _d('transformer')


class World:

  def __init__(self, ip, kind, stable, alg=None, boots=None, later=False, finite=True, want=()):
    self.ip, self.kind, self.stable, self.alg, self.want, self.later = ip, kind, stable, alg, set(want), later
    self.finite = finite
    self.nf = pos_int(ip, 'nf', 1)
    self.cls = get(ip, 'data.ExpData')
    c = ip.contracts
    c['data.ExpData.k_fold'] = self.k_fold
    c['data.ExpData.append'] = self.append
    c['data.ExpData.subsample'] = self.subsample
    c['data.ExpData.__getitem__'] = self.getitem
    ip.world = self
    self.Eta = ETA
    self.eta = ip.alloc(Obj(self.Eta, {'$tok': Num(z3.Int('tok0@')), '$fits': Num(iv(0)), '$fitbag': Num(iv(0)), '$fitidx': None,
                                       '$fitmain': False, '$reset': False, '$fitpart': False}))
    self.fits, self.scored, self.splits = [], [], []   # of this path, outside loops
    self.parts = None
    sr = lambda nm: sym_real(ip, nm)
    self.par = {}
    self.vars = None
    tr = TRANSFORMER
    if kind == 'split':
      enum = get(ip, 'arms.CIAlgorithm')
      p = dict(sub_gscale=sr('g'), eta_sub_gscale=sr('eg'), tau_bound=sr('tau'), burn_in=sr('m'), rho=sr('rho'), cost=sr('cost'))
      ip.assume(And(p['sub_gscale'].v > 0, p['tau_bound'].v > 0, p['burn_in'].v > 1, p['eta_sub_gscale'].v > 0, p['rho'].v > 0, p['cost'].v > 0))
      self.par = p
      mk = lambda: call(ip, get(ip, 'arms.SampleSplittingArm'), 'arm', self.eta, tr, ci_algorithm=ip.getattr(enum, alg),
                        stable_splits=stable, **p)
    elif kind == 'boot':
      self.nb = Num(pos_int(ip, 'nb', 2)) if boots else 0
      mk = lambda: call(ip, get(ip, 'arms.BootstrapArm'), 'arm', self.eta, tr, n_bootstraps=self.nb, stable_splits=stable)
    self.total = Num(iv(0))
    self.count = Num(iv(0))
    self.batchno = 0
    # shape of the state after an update, from a first update of a twin
    h, sv = dict(ip.heap), ip.pc
    self.quiet = True
    self.arm = mk()
    self.built = dict(ip.heap)
    tw = attempt(ip, lambda: meth(ip, self.arm, 'update', self.batch(), Num(z3.Real('delta_t@'))))
    if tw[0] != 'ok':
      raise Infeasible()
    self.shape_heap = dict(ip.heap)
    self.shape_arm = self.arm
    self.quiet = False
    self.fits.clear()
    self.scored.clear()
    self.splits.clear()
    if not later:
      ip.heap = {**ip.heap, **{k: v for k, v in self.built.items()}}
    else:
      self.generalise()

  # ---- datasets
  def data(self, n, bag, idx, split, tag, ver=None):
    ip = self.ip
    arrs = {k: ip.alloc_at(lib.freshlam(ip, tag + k, (Dim(n), Dim(self.nf)) if k == 'cov' else (Dim(n),))) for k in ('cov', 'exp', 'rsp')}
    return ip.alloc_at(Obj(self.cls, dict(n_units=Num(n), n_features=Num(self.nf), **arrs, **{
        '$bag': bag, '$idx': idx, '$split': split, '$ver': ver or Num(ip.fresh('ver', I)), '$part': False, '$given': False})))

  def isdata(self, r):
    return isinstance(r, Ref) and isinstance(self.ip.cell(r), Obj) and self.ip.cell(r).cls is self.cls and '$bag' in self.ip.cell(r).f

  def df(self, r):
    if not self.isdata(r):
      raise Unsupported('a dataset that was not made by k_fold, append or the data transformer')
    return self.ip.cell(r).f

  def batch(self):
    ip = self.ip
    n = ip.fresh('nb', I)
    ip.fact(n >= 1)
    self.batchno += 1
    b = self.data(n, Num(ip.fresh('rawbag', I)), None, None, 'batch')
    ip.setattr(b, '$given', True)
    ip.setattr(b, '$tbag', Num(ip.fresh('tbag', I)))
    return b

  def transform(self, ip, a, k):
    f = self.df(a[0])
    if '$tbag' not in f:
      raise Unsupported('the data transformer is applied to something else than the given data')
    t = self.data(f['n_units'].v, f['$tbag'], None, 0, 'tdata')
    ip.setattr(t, '$given', True)   # it may be the very object that was given
    return t

  def k_fold(self, ip, b):
    d, k = b['self'], b['k']
    if not isinstance(k, int):
      raise Unsupported('k_fold with a symbolic fold count')
    if k < 1:
      raise SymRaise('ValueError')
    f = self.df(d)
    n, bag = lift(f['n_units']).v, lift(f['$bag']).v
    out, sn, sb = [], [], []
    for i in range(k):
      ni = ip.fresh('fold', I) if k > 1 else n
      bi = ip.fresh('bag', I) if k > 1 else bag
      sn.append(ni)
      sb.append(bi)
      sp = f['$split']
      out.append(self.data(ni, Num(bi), i, sp + 1 if isinstance(sp, int) else None, 'fold'))
    for a in sn:
      ip.fact(a >= 0)
      for c in sn:
        ip.fact(a - c <= 1)
    ip.fact(n == z3.Sum(sn))
    ip.fact(bag == z3.Sum(sb))
    self.splits.append((f['$bag'], k, [Num(b) for b in sb]))
    return ip.alloc(PyL(out))

  def append(self, ip, b):
    d, e = b['self'], b['new_data']
    f, g = self.df(d), self.df(e)
    if not self.quiet:
      ip.oblige('data given to the arm is not modified', f['$given'] is False)
    n = n_add(f['n_units'], g['n_units'])
    new = self.data(lift(n).v, n_add(f['$bag'], g['$bag']), f['$idx'] if f['$idx'] == g['$idx'] else None,
                    f['$split'] if f['$split'] == g['$split'] else None, 'app')
    nf = dict(self.df(new))
    nf['$given'] = f['$given']
    ip.setcell(d, Obj(self.cls, nf))
    return None

  def subsample(self, ip, b):
    d, p = b['self'], b['p']
    f = self.df(d)
    good = And(n_le(0, p), n_le(p, 1))
    if not ip.prove(zb(good)):
      if not ip.branch(good):
        raise SymRaise('ValueError')
    n, bag = lift(f['n_units']).v, lift(f['$bag']).v
    n1, n2, b1, b2 = [ip.fresh(s, I) for s in ('sub', 'sub', 'bag', 'bag')]
    ip.fact(And(n1 >= 0, n2 >= 0, n == n1 + n2, bag == b1 + b2))
    out = []
    for ni, bi in ((n1, b1), (n2, b2)):
      o = self.data(ni, Num(bi), f['$idx'], f['$split'], 'part')
      ip.setattr(o, '$part', True)
      ip.setattr(o, '$whole', f['$bag'])
      ip.setattr(o, '$wholever', f['$ver'])
      out.append(o)
    return tuple(out)

  def getitem(self, ip, b):
    raise Unsupported('an arm indexes a dataset')

  # ---- the nuisance estimator
  def fit(self, ip, a, k):
    d = a[1] if len(a) > 1 else k['d']
    f = self.df(d)
    e = ip.cell(a[0]).f
    tok = ip.fresh('tok', I)
    part = f['$part'] is True
    ip.fact(Implies(ENOUGH(tok), lift(f['n_units']).v >= 2))
    ip.setcell(a[0], Obj(self.Eta, {**e, '$tok': Num(tok), '$fits': n_add(e['$fits'], 1), '$fitbag': f['$bag'], '$fitidx': f['$idx'],
                                    '$fitpart': part}))
    if 'folds' in self.want and not self.quiet:
      ip.oblige('the estimator is fit on data of one fold only', f['$idx'] == self.fitidx())
      if self.kind == 'split':
        ip.oblige('the estimator is fit on a whole fold', not part)
    if not part:
      self.fits.append((d, f['$bag']))
    return None

  def fitidx(self):
    """Fold index the estimator is fit on (as in the twin's first update)."""
    return 0

  def enough(self, ip, a, k):
    if self.quiet:   # the twin only provides the shape of the state
      return False
    return mkbool(ENOUGH(lift(ip.cell(a[0]).f['$tok']).v))

  def score(self, ip, a, k):
    d = a[1] if len(a) > 1 else k['d']
    f = self.df(d)
    e = ip.cell(a[0]).f
    tok, ver = lift(e['$tok']).v, lift(f['$ver']).v
    p = param('x')
    kd = FIN
    if self.finite is not True and not self.quiet:
      if self.finite == 'nan':   # all scores NaN
        kd = NAN
      else:
        kd = SCOREK(tok, ver, p)
        q = z3.FreshConst(I, 'sk')
        ip.fact(z3.ForAll([q], z3.And(SCOREK(tok, ver, q) >= 0, SCOREK(tok, ver, q) <= 3)))
    n = lift(f['n_units']).v
    r = ip.alloc_at(Arr((Dim(n),), Lam((p,), Num(SCORE(tok, ver, p), kd, True)), 'f'))
    if f['$part'] is True:
      ip.fact(n >= 1)
      if 'boot' in self.want and not self.quiet:
        ip.oblige('the scores come from the complement of the part the estimator was just fit on',
                  And(e['$fitpart'] is True, n_eq(n_add(f['$bag'], e['$fitbag']), f['$whole'])))
        ip.oblige('the parts are those of the first fold', And(f['$idx'] == 0, self.fold(0) is not None and
                                                               n_eq(f['$wholever'], self.df(self.fold(0))['$ver'])))
        ip.libs['$append'](ip, self.vars, ip.call_lib('numpy.var', [r], {}))
    else:
      self.scored.append((d, f['$bag']))
      if 'folds' in self.want and not self.quiet:
        ip.oblige('scores are evaluated on data of the other fold', f['$idx'] == 1 - self.fitidx())
    return r

  def width(self, ip, a, k):
    names = ['delta', 'sub_g', 'rho']
    kw = dict(zip(names, a[1:]), **dict(k.items()))
    tok = lift(ip.cell(a[0]).f['$tok']).v
    ar = [tok] + [to_real(lift(num(kw[n])).v) for n in names]
    v, kd = WIDTH(*ar), WIDTHK(*ar)
    ip.fact(z3.And(v >= 0, z3.Or(kd == FIN, kd == PINF)))
    if 'interval' in self.want and not self.quiet:
      # the nuisance sequence may be consulted with these arguments only
      pass
    return Num(v, kd, True)

  def eta_reset(self, ip, a, k):
    e = ip.cell(a[0]).f
    tok = ip.fresh('tok', I)
    ip.fact(Not(ENOUGH(tok)))
    ip.setcell(a[0], Obj(self.Eta, {**e, '$tok': Num(tok), '$reset': True}))

  # ---- arbitrary state after some number of updates
  def generalise(self):
    """Replace the twin's state by an arbitrary one of the same shape."""
    ip = self.ip
    self.seen = set()
    self.bags = []
    h0 = self.built

    def num_like(v, old):
      if self.intlike(v, old):
        return Num(ip.fresh('st', I))
      return ip.fresh_xr('st')

    def gen(v, old):
      if isinstance(v, (tuple,)):
        return tuple(gen(x, None) for x in v)
      if isinstance(v, Ref):
        c = ip.heap[v.oid]
        if v.oid in self.seen or v.idx:
          return v
        self.seen.add(v.oid)
        if isinstance(c, PyL):
          ip.setcell(v, PyL([gen(x, None) for x in c.items]))
        elif isinstance(c, Obj) and c.cls is self.cls:
          n, b = ip.fresh('n', I), ip.fresh('bag', I)
          ip.fact(n >= 0)
          nd = self.data(n, Num(b), c.f['$idx'], c.f['$split'], 'held')
          ip.setcell(v, ip.cell(nd))
          self.bags.append(Num(b))
        elif isinstance(c, Obj) and c.cls is self.Eta:
          ip.setcell(v, Obj(c.cls, {**c.f, '$tok': Num(ip.fresh('tok', I)), '$fits': Num(iv(0))}))
        return v
      if isinstance(v, bool) or v is None or isinstance(v, (str, EnumVal, Bi)):
        if v is None or isinstance(old, type(v)) and old == v:
          return v
        if isinstance(v, bool):
          return SBool(ip.fresh('stb', B))
        return v
      if isinstance(v, SBool):
        return v if isinstance(old, SBool) and veq_syn(v, old) else SBool(ip.fresh('stb', B))
      if isinstance(v, (Num, int, float)):
        if old is not None and isinstance(old, (Num, int, float)) and veq_syn(v, old):
          return v
        return num_like(v, old)
      raise Unsupported('arm state of an unknown kind')

    c, o = ip.heap[self.arm.oid], h0[self.arm.oid]
    ip.setcell(self.arm, Obj(c.cls, {k: gen(v, o.f.get(k)) for k, v in c.f.items()}))
    tot = Num(iv(0))
    for b in self.bags:
      tot = n_add(tot, b)
    self.total = tot
    self.count = Num(ip.fresh('updates', I))
    ip.fact(self.count.v >= 1)
    ip.fact(zb(tb(n_eq(ip.getattr(self.arm, 'num_pulled'), self.count))))
    ip.fact(zb(tb(n_eq(meth(ip, self.arm, 'get_num_units'), self.units_held()))))

  def intlike(self, v, old):
    """Counters stay integers: the initial value was one already."""
    isint = lambda x: isinstance(x, (int, Num)) and not isinstance(x, bool) and lift(x).v.sort() == I
    return isint(v) and isint(old)

  def held(self, heap=None):
    """Datasets reachable from the arm (refs), without repetition."""
    ip = self.ip
    out, seen = [], set()

    def walk(v):
      if isinstance(v, (tuple, list)):
        for x in v:
          walk(x)
      elif isinstance(v, Ref) and v.oid not in seen:
        seen.add(v.oid)
        c = ip.heap[v.oid]
        if isinstance(c, PyL):
          walk(c.items)
        elif isinstance(c, Obj) and c.cls is self.cls:
          out.append(v)
        elif isinstance(c, Seq):
          raise Unsupported('the arm keeps a list of symbolic length')
    walk(tuple(ip.heap[self.arm.oid].f.values()))
    return out

  def units_held(self):
    n = Num(iv(0))
    for d in self.held():
      n = n_add(n, self.df(d)['n_units'])
    return n

  def conforms(self):
    """The state has the shape that generalise() assumes."""
    ip = self.ip
    fs = []

    def num_ok(a, b):
      return isinstance(a, (Num, int, float)) and not isinstance(a, bool)

    def chk(v, w, old):
      """v now, w in the twin, old at construction."""
      if isinstance(w, tuple):
        return isinstance(v, tuple) and len(v) == len(w) and all([chk(x, y, None) for x, y in zip(v, w)])
      if isinstance(w, Ref):
        if not isinstance(v, Ref) or v.idx != w.idx:
          return False
        c, cw = ip.heap[v.oid], self.shape_heap[w.oid]
        if isinstance(cw, PyL):
          return isinstance(c, PyL) and len(c.items) == len(cw.items) and all([chk(x, y, None) for x, y in zip(c.items, cw.items)])
        if isinstance(cw, Obj) and cw.cls is self.cls:
          return self.isdata(v) and c.f['$idx'] == cw.f['$idx'] and c.f['$given'] is False and (
              not self.stable or c.f['$split'] == cw.f['$split'])
        return v.oid == w.oid
      if isinstance(w, bool) or w is None or isinstance(w, (str, EnumVal, Bi)):
        if isinstance(w, bool) and not (isinstance(old, bool) and old == w):
          return isinstance(v, (bool, SBool))
        return v is w or v == w
      if isinstance(w, (Num, int, float)):
        if old is not None and isinstance(old, (Num, int, float)) and veq_syn(w, old):
          if not num_ok(v, w):
            return False
          fs.append(ip.same(v, w))
          return True
        return num_ok(v, w) and not (self.intlike(w, old) and lift(v).v.sort() != I)
      return True

    c, w, o = ip.heap[self.arm.oid], self.shape_heap[self.arm.oid], self.built[self.arm.oid]
    bad = [k for k in w.f if not (k in c.f and chk(c.f[k], w.f[k], o.f.get(k)))]
    good = set(c.f) == set(w.f) and not bad
    self.misfit = bad
    hs = self.held()
    return And(good, len({h.oid for h in hs}) == len(hs), *fs)

  # ---- one update
  def update(self, delta=None):
    """Runs update on a fresh batch; returns attempt(...)."""
    ip = self.ip
    b = self.batch()
    self.delta = delta or sym_real(ip, 'delta')
    self.new_bag = self.df(b)['$tbag']
    self.before = dict(ip.heap)
    self.total0 = self.total
    if 'boot' in self.want:
      self.vars = ip.alloc(Seq(Dim(0), Lam((param('t'),), Poison('empty'))))
    out = attempt(ip, lambda: meth(ip, self.arm, 'update', b, self.delta))
    self.total = n_add(self.total, self.new_bag)
    self.count = n_add(self.count, 1)
    return out

  def unchanged(self, name):
    """The arm and its data are as before the update."""
    ip = self.ip
    h0 = self.before
    o0, o1 = h0[self.arm.oid], ip.heap[self.arm.oid]
    fs = [set(o0.f) == set(o1.f)]
    for k in o0.f:
      if k in o1.f:
        fs.append(ip.same(o0.f[k], o1.f[k]))
    for oid, c in h0.items():
      if isinstance(c, (PyL, Obj)) and ip.heap.get(oid) is not c:
        if oid == self.arm.oid:
          continue
        fs.append(ip.same_cell(c, ip.heap[oid]))
    ip.oblige(name, And(*fs))

  def fold(self, i):
    """The held dataset with fold index i."""
    l = [d for d in self.held() if self.df(d)['$idx'] == i]
    return l[0] if len(l) == 1 else None

  def units_eval(self):
    """Number of evaluation units (second fold)."""
    d = self.fold(1)
    if d is None:
      raise Unsupported('the arm holds no evaluation fold')
    return self.df(d)['n_units']

  def lib(self, name, *a):
    return self.ip.call_lib(name, list(a), {})

  def root(self):
    """Term under the root of the finite-sample width."""
    g, m, d = self.par['sub_gscale'], self.par['burn_in'], self.delta
    n = self.units_eval()
    lam = self.lib('builtins.max', g, n_mul(8, lib.s_sq(g)))
    return n_add(n_add(n_div(n_mul(2, self.lib('numpy.log', n_div(n_mul(lam, n), m))), n), Num(z3.RealVal('1/2'))),
                 self.lib('numpy.log', n_div(4, d)))

  def root_ok(self):
    return n_le(0, self.root())
