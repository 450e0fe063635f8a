"""Abstract arms, data source and ghost state for the bandit algorithms."""
from vc.spec import *

ALG = {'uniform': 'UniformAlgorithm', 'lucb': 'LUCBAlgorithm', 'se': 'SuccessiveEliminationAlgorithm'}


class World:
  """n >= 2 arbitrary arms, a data source, ghost accounting of a run."""

  def __init__(self, ip, alg, stable, limit='real', want=()):
    self.ip, self.alg, self.stable, self.want = ip, alg, stable, set(want)
    self.n = pos_int(ip, 'n', 2)
    n = self.n
    p = param('p')
    f = lambda nm, s: z3.Function(nm, I, s)(p)
    xr = lambda nm: Num(f(nm, R), f(nm + '_k', I))
    q = z3.Int('q@')
    for nm in ('lo', 'hi', 'var'):
      k = z3.Function(nm + '_k', I, I)
      ip.assume(z3.ForAll([q], z3.And(0 <= k(q), k(q) <= 2)))
    c = z3.Function('cost', I, R)
    ip.assume(z3.ForAll([q], c(q) > 0))
    POSITIVE.add('cost')
    noop = Bi('reset', lambda ip_, a, k_: None)
    self.Arm = ClassVal('Arm', 'spec.Arm', [], {
        'update': Bi('update', self.update), 'get_num_units': Bi('get_num_units', self.units), 'reset': noop,
        '__len__': Bi('len', self.units)}, None)
    nm = z3.Function('name', I, lib.Key)
    self.arms = ip.alloc(Fam((p,), Obj(self.Arm, {
        'cost': Num(f('cost', R)), 'ci': (xr('lo'), xr('hi')), 'var_est': xr('var'), 'name': Opaque(nm(p), 'name'),
        '$units': Num(iv(0)), '$round': Num(iv(0)), '$upd': Num(iv(0)), '$alive': True})))
    self.alist = ip.alloc(Seq(Dim(n), Lam((p,), Ref(self.arms.oid, (p,)))))
    # data sources
    self.Batch = ClassVal('Batch', 'spec.Batch', [], {'__len__': Bi('len', lambda ip_, a, k_: ip_.getattr(a[0], 'n_units'))}, None)
    self.Gen = ClassVal('Generator', 'spec.Generator', [], {'generate': Bi('generate', self.generate)}, None)
    self.Data = ClassVal('Dataset', 'spec.Dataset', [], {'__getitem__': Bi('getitem', self.block)}, None)
    self.gen = ip.alloc(Obj(self.Gen, {}))
    self.data = ip.alloc(Obj(self.Data, {})) if stable else None
    # parameters
    self.u = pos_int(ip, 'units', 1)
    self.ep = sym_real(ip, 'error_prob')
    self.tol = sym_real(ip, 'error_tol')
    ip.assume(And(self.ep.v > 0, self.ep.v < 1, self.tol.v >= 0))
    conf = Num(z3.Real('confidence@'))
    ip.assume(And(conf.v > 0, conf.v < 1))
    if limit == 'real':
      self.lim = sym_real(ip, 'limit')
      ip.assume(self.lim.v >= 0)
      lim = self.lim
    else:
      self.lim = const_float(float('inf'))
      lim = None
    self.bandit = ip.call(get(ip, 'bandits.' + ALG[alg]), [], dict(
        arm_list=self.alist, prob_model=self.gen, error_prob=self.ep, error_tol=self.tol, confidence=conf,
        sample_limit=lim, units_per_round=Num(self.u)))
    # ghost state of the run
    E = lambda: ip.alloc(Seq(Dim(0), Lam((param('t'),), Poison('empty'))))
    G = ClassVal('Ghost', 'spec.Ghost', [], {}, None)
    self.g = ip.alloc(Obj(G, dict(total=Num(iv(0)), start=Num(iv(0)), dirty=False, gens=Num(iv(0)), batch=None, rounds=Num(iv(0)),
                                  seen=False)))
    self.hist = {}
    if 'hist' in self.want:
      t = param('t')
      for k in ('lcb', 'ucb', 'var', 'smp'):
        self.hist[k] = ip.alloc(Fam((p,), Seq(Dim(0), Lam((t,), Poison('empty')))))
      self.hist['cum'] = E()
    ip.hooks['loop_head'] = self.loop_head
    if 'limit' in self.want:
      ip.ghost_inv.append(('the total is within the limit', lambda ip: tb(n_le(self.G('total'), self.lim))))
    if self.hist:
      def lens(ip):
        q = param('q')
        m = ip.heap[self.hist['cum'].oid]
        m = m.dim.zn if isinstance(m, Seq) else iv(len(m.items))
        c = ip.heap[self.hist['lcb'].oid]
        return z3.ForAll([q], z3.Implies(self.inr(q), ip.fam_at(c, (q,)).dim.zn == m))
      ip.ghost_inv.append(('one entry per round', lens))
    if 'drop' in self.want:
      ip.ghost_inv.append(('some arm survives', lambda ip: self.some_arm(lambda q: tb(self.af(q, '$alive')))))
    if alg == 'uniform' and ('data' in self.want or 'hist' in self.want):
      def same_units(ip):
        q = param('q')
        return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), zb(tb(n_eq(self.af(q, '$units'), self.af(z3.IntVal(0), '$units'))))))
      ip.ghost_inv.append(('all arms got the same number of units', same_units))
    self.sel = ip.alloc(PyL(())) if 'sel' in self.want else None
    self.arms0 = None
    if 'sel' in self.want or 'drop' in self.want:
      self.arms0 = ip.alloc(ip.heap[self.arms.oid])

  # ---- ghost access
  def G(self, k):
    return self.ip.cell(self.g).f[k]

  def setG(self, **kw):
    c = self.ip.cell(self.g)
    self.ip.setcell(self.g, Obj(c.cls, {**c.f, **kw}))

  def arm(self, p):
    return Ref(self.arms.oid, (p,))

  def af(self, p, k):
    return self.ip.cell(self.arm(p)).f[k]

  def each_arm(self, fn):
    """Replace every arm's fields at once: fn(p, fields) -> changed fields."""
    ip = self.ip
    c = ip.heap[self.arms.oid]
    f = c.cell.f
    ip.heap[self.arms.oid] = Fam(c.params, Obj(c.cell.cls, {**f, **fn(c.params[0], f)}))

  # ---- abstract operations
  def is_arm(self, r):
    return isinstance(r, Ref) and r.oid == self.arms.oid

  def units(self, ip, a, k):
    return ip.cell(a[0]).f['$units']

  def generate(self, ip, a, k):
    a = list(a[1:]) + list(k.values())
    cnt = a[0]
    ip.oblige('no data is generated when a dataset is given', not self.stable) if 'data' in self.want else None
    if 'data' in self.want:
      ip.oblige('a generated batch has units_per_round units', n_eq(cnt, Num(self.u)))
    b = ip.alloc(Obj(self.Batch, {'n_units': cnt, '$src': 'gen', '$used': Num(iv(0)), '$round': self.G('rounds')}))
    self.setG(gens=n_add(self.G('gens'), 1), batch=b)
    return b

  def block(self, ip, a, k):
    key = a[1]
    if not isinstance(key, SliceV) or (key.step is not None and key.step != 1):
      raise Unsupported('dataset indexed by something else than a range')
    lo = Num(iv(0)) if key.lo is None else lift(key.lo)
    if key.hi is None:
      raise Unsupported('open-ended block of the dataset')
    hi = lift(key.hi)
    return ip.alloc_at(Obj(self.Batch, {'n_units': n_sub(hi, lo), '$src': 'data', '$lo': lo}))

  def shared(self):
    return self.alg == 'uniform' or (self.alg == 'lucb' and self.G('seen') is False)

  def update(self, ip, a, k):
    arm, rest = a[0], list(a[1:])
    names = ['new_data', 'delta']
    for nm in names[len(rest):]:
      if nm in k:
        rest.append(k[nm])
    if len(rest) != 2:
      raise Unsupported('arm.update called with other arguments')
    batch, delta = rest
    if not isinstance(batch, Ref) or not isinstance(ip.cell(batch), Obj) or ip.cell(batch).cls is not self.Batch:
      raise Unsupported('an arm is updated with something that is no batch')
    b = ip.cell(batch).f
    f = ip.cell(arm).f
    cnt = b['n_units']
    if 'level' in self.want:
      ip.oblige('error level is error_prob / number of arms', n_eq(delta, n_div(self.ep, Num(self.n))))
    if 'limit' in self.want:
      ip.oblige('no round starts after the limit is exceeded', n_le(self.G('start'), self.lim))
    if 'data' in self.want:
      if self.stable:
        ip.oblige('the batch is a block of the dataset', b['$src'] == 'data')
        if b['$src'] == 'data':
          ip.oblige('blocks are consecutive from the first unit', n_eq(b['$lo'], f['$units']))
        ip.oblige('blocks have units_per_round units', n_eq(cnt, Num(self.u)))
      else:
        ip.oblige('the batch was generated in this round', And(b['$src'] == 'gen', n_eq(b['$round'], self.G('rounds')) if b['$src'] == 'gen' else False))
        if self.shared():
          gb = self.G('batch')
          ip.oblige('all arms share one batch', isinstance(gb, Ref) and gb.oid == batch.oid and gb.idx == batch.idx)
        else:
          ip.oblige('the batch was not used before', n_eq(b['$used'], 0))
          ip.setattr(batch, '$used', n_add(b['$used'], 1))
    ip.setattr(arm, '$units', n_add(f['$units'], cnt))
    ip.setattr(arm, '$round', n_add(f['$round'], cnt))
    ip.setattr(arm, '$upd', n_add(f['$upd'], 1))
    lo, hi, v = [ip.fresh_xr(s, nan=False) for s in ('lo', 'hi', 'var')]
    ip.setattr(arm, 'ci', (lo, hi))
    ip.setattr(arm, 'var_est', v)
    self.setG(total=n_add(self.G('total'), cnt), dirty=True)
    if self.sel is not None:
      ip.libs['$append'](ip, self.sel, arm)
    return (lo, hi)

  # ---- rounds
  def round_end(self):
    ip = self.ip
    if 'limit' in self.want:
      ip.oblige('the total grows in every round', n_lt(self.G('start'), self.G('total')))
    if self.hist:
      s = {'lcb': lambda f: n_mul(f['cost'], f['ci'][0]), 'ucb': lambda f: n_mul(f['cost'], f['ci'][1]),
           'var': lambda f: n_mul(f['cost'], f['var_est']), 'smp': lambda f: f['$round']}
      c = ip.heap[self.arms.oid]
      q, F = c.params[0], c.cell.f
      for k, fn in s.items():
        o = ip.heap[self.hist[k].oid]
        lst = o.cell
        v = subst(fn(F), [(q, o.params[0])])
        t = param('t')
        m = lst.dim.zn
        old = lst.lam(t)
        r = self.inr(o.params[0])
        body = v if isinstance(old, Poison) else ip.merge(z3.And(r, m <= t), v, old)
        ip.heap[self.hist[k].oid] = Fam(o.params, Seq(Dim(z3.If(r, 1 + m, m)), Lam((t,), body)))
      ip.libs['$append'](ip, self.hist['cum'], self.G('total'))
    for fn in self.at_round_end:
      fn()
    self.each_arm(lambda p, f: {'$round': Num(iv(0)), '$upd': Num(iv(0))})
    self.setG(start=self.G('total'), dirty=False, rounds=n_add(self.G('rounds'), 1), seen=True, batch=None)
    if self.sel is not None:
      ip.setcell(self.sel, PyL(()))
    if self.arms0 is not None:
      ip.heap[self.arms0.oid] = ip.heap[self.arms.oid]

  at_round_end = ()

  def loop_head(self, ip):
    back = ip.loopdepth > 0
    d = self.G('dirty')
    if d is True or (d is not False and ip.branch(tb(d))):
      self.round_end()
    elif back and 'limit' in self.want:
      ip.oblige('every loop iteration samples some arm', False)

  def run(self):
    """('ok', BanditData) with the last round closed."""
    ip = self.ip
    out = attempt(ip, lambda: meth(ip, self.bandit, 'run', *([self.data] if self.stable else [])))
    if not ok(ip, out, 'the run returns'):
      return None
    d = self.G('dirty')
    if d is True or (d is not False and ip.branch(tb(d))):
      self.round_end()
    return out[1]

  # ---- values of the arms
  def est(self, p, f=None):
    f = f or self.ip.cell(self.arm(p)).f
    return n_mul(f['cost'], f['var_est'])

  def lcb(self, p, f=None):
    f = f or self.ip.cell(self.arm(p)).f
    return n_mul(f['cost'], f['ci'][0])

  def ucb(self, p, f=None):
    f = f or self.ip.cell(self.arm(p)).f
    return n_mul(f['cost'], f['ci'][1])

  def inr(self, p):
    return z3.And(p >= 0, p < self.n)

  def all_arms(self, fn):
    q = param('q')
    return z3.ForAll([q], z3.Implies(self.inr(q), zb(tb(fn(q)))))

  def some_arm(self, fn):
    q = param('q')
    return z3.Exists([q], z3.And(self.inr(q), zb(tb(fn(q)))))

  def member(self, lst, p):
    """Arm p is in the returned list."""
    dim, el = self.ip.libs['$iter'](self.ip, lst)
    t = param('t')
    e = el(t)
    if not isinstance(e, Ref) or e.oid != self.arms.oid:
      raise Unsupported('the result lists something else than arms')
    return z3.Exists([t], z3.And(zb(tb(dim.dom(t))), e.idx[0] == p))

  def items(self, lst):
    """Concrete list of refs or None."""
    c = self.ip.heap.get(lst.oid) if isinstance(lst, Ref) else None
    if isinstance(c, PyL) and all(self.is_arm(x) for x in c.items):
      return list(c.items)
    return None

  def exactly(self, lst, pred):
    """Formula: the list consists of exactly the arms satisfying pred."""
    its = self.items(lst)
    if its is not None:
      mem = lambda q: Or(*[q == x.idx[0] for x in its])
    else:
      mem = lambda q: self.member(lst, q)
    return self.all_arms(lambda q: Iff(mem(q), tb(pred(q))))

  def minimal(self, p):
    e = self.est(p)
    return self.all_arms(lambda q: n_le(e, self.est(q)))
