"""Abstract SCMs: an arbitrary number of variables with arbitrary names,
parents and distributions; sampling is tracked by tokens."""
from props.datalib import *
from vc.loops import inv_loop

NM = z3.DeclareSort('VarName')
SM = z3.DeclareSort('Sample')
FN = z3.DeclareSort('Distribution')
NAME = z3.Function('var_name', I, NM)
POS = z3.Function('position', NM, I)
NP = z3.Function('n_parents', NM, I)
PAR = z3.Function('parent', NM, I, NM)
COV = z3.Function('cov_name', I, NM)
CPD = z3.Function('cpd', NM, FN)
SMP = z3.Function('sample', I, NM, SM)
PDOM = z3.Function('has_parents', NM, B)
CDOM = z3.Function('has_cpd', NM, B)


class SCMWorld:

  def __init__(self, ip, distinct=True, ncov=1):
    self.ip = ip
    ip.world = self
    self.N, self.NC = pos_int(ip, 'N', 1), pos_int(ip, 'NC', ncov)
    self.T, self.Y = z3.Const('T@', NM), z3.Const('Y@', NM)
    self.round = -1
    i, v = param('i'), param('v', NM)
    if distinct:
      ip.fact(forall([i], Implies(And(i >= 0, i < self.N), POS(NAME(i)) == i)))
    ip.fact(forall([v], NP(v) >= 0))
    nm = lambda t: Opaque(t, 'key')
    self.names = ip.alloc(Seq(Dim(self.N), Lam((i,), nm(NAME(i)))))
    j = param('j')
    self.covs = ip.alloc(Seq(Dim(self.NC), Lam((j,), nm(COV(j)))))
    p = param('p', NM)
    lists = ip.alloc(Fam((p,), Seq(Dim(NP(p)), Lam((j,), nm(PAR(p, j))))))
    q = param('q', NM)
    self.parents = ip.alloc(MapD(NM, Lam((q,), mkbool(PDOM(q))), Lam((q,), Ref(lists.oid, (q,)))))
    self.cpds = ip.alloc(MapD(NM, Lam((q,), mkbool(CDOM(q))), Lam((q,), Opaque(CPD(q), 'cpd'))))
    self.made = []
    ip.hooks = dict(ip.hooks, **{'for': self.loop, 'call:cpd': self.sample, 'column_stack': self.stack})
    ip.contracts['data.ExpData'] = self.expdata

  def build(self):
    ip = self.ip
    return call(ip, get(ip, 'scm.SCM'), 'scm', self.names, self.parents, self.cpds, self.covs,
                Opaque(self.T, 'key'), Opaque(self.Y, 'key'))

  def isvar(self, t):
    i = param('i')
    return exists([i], And(i >= 0, i < self.N, NAME(i) == t))

  def wellformed(self):
    i, j = param('i'), param('j')
    dom = And(i >= 0, i < self.N)
    return And(forall([i], Implies(dom, PDOM(NAME(i)))), forall([i], Implies(dom, CDOM(NAME(i)))),
               self.isvar(self.T), self.isvar(self.Y),
               forall([j], Implies(And(j >= 0, j < self.NC), self.isvar(COV(j)))))

  # ---- positions
  def before(self, v, k):
    """v is one of the first k variables."""
    return And(POS(v) >= 0, POS(v) < k, NAME(POS(v)) == v)

  def topological(self, k):
    i, j = param('i'), param('j')
    return forall([i, j], Implies(And(i >= 0, i < k, j >= 0, j < NP(NAME(i))), self.before(PAR(NAME(i), j), i)))

  # ---- contracts
  def start(self, n):
    self.round += 1
    self.n = n
    self.made = []
    v = param('v', NM)
    self.ip.ghost['calls'] = Lam((v,), Num(iv(0)))

  def sample(self, ip, f, a, kw):
    """A distribution: called with n and its parents' samples."""
    kw = dict(kw)
    for k, x in zip(('n_samples', 'parent_samples'), a):
      kw[k] = x
    t = f.t
    if not (z3.is_app(t) and t.decl().eq(CPD)) or len(a) > 2 or set(kw) != {'n_samples', 'parent_samples'}:
      raise Unsupported('call of a distribution')
    v = t.arg(0)
    calls = ip.ghost['calls']
    ip.oblige('a distribution is evaluated with n', ip.same(kw['n_samples'], Num(self.n)))
    ps = kw['parent_samples']
    s = ip.as_seq(ip.cell(ps)) if isinstance(ps, Ref) and isinstance(ip.cell(ps), (PyL, Seq)) else None
    if s is None:
      its = lib.concrete_items(ip, ps)
      if its is None:
        raise Unsupported('parents of a distribution')
      s = ip.as_seq(PyL(its))
    j = param('j')
    fs = [lib_eq(dimlen(ip, s.dim), NP(v))]
    if isinstance(s.lam.body, Poison):
      fs.append(NP(v) == 0)
    elif s.dim.keep is None:
      fs.append(forall([j], Implies(And(j >= 0, j < NP(v)), ip.same(s.lam(j), Opaque(SMP(self.round, PAR(v, j)), 'sample')))))
    else:
      raise Unsupported('filtered parents')
    ip.oblige("a distribution gets its parents' samples in declared order", And(*fs))
    ip.oblige('a distribution is evaluated once', lift(calls(v)).v == 0)
    q = param('v', NM)
    ip.ghost['calls'] = Lam((q,), ip.merge(q == v, Num(lift(calls(v)).v + 1), calls(q)))
    return Opaque(SMP(self.round, v), 'sample')

  def stack(self, ip, v):
    s = ip.as_seq(lib.to_seq(ip, v))
    out = Opaque(ip.fresh('stack', SM), 'sample')
    ip.events = ip.events + [('stack', dict(out=out, seq=s))]
    return out

  def expdata(self, ip, a, kw):
    kw = dict(kw)
    for k, x in zip(('covariates', 'exposures', 'response'), a):
      kw[k] = x
    if len(a) > 3:
      raise SymRaise('TypeError')
    r = ip.alloc(Obj(get(ip, 'data.ExpData'), {'$' + k: x for k, x in kw.items()}))
    self.made.append((r, kw))
    return r

  # ---- the sampling loop
  def loop(self, ip, s, dim, elem, body, env):
    k0 = z3.Int('probe@')
    try:
      e = elem(k0)
    except Unsupported:
      return False
    if not (isinstance(e, Opaque) and e.t.eq(NAME(k0))) or dim.keep is not None:
      return False
    if not (isinstance(e, Opaque) and veq_syn(dim, Dim(self.N))):
      return False
    fr = ip.frames[env.fid]
    used = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name)}
    ds = {v.oid: v for n, v in fr.items() if n in used and isinstance(v, Ref) and not v.idx and isinstance(ip.cell(v), PyD)
          and not ip.cell(v).d and ip.cell(v).default is None}
    if len(ds) != 1:
      return False
    ref, = ds.values()
    rnd = self.round

    def havoc(k):
      p = param('p', NM)
      ip.setcell(ref, MapD(NM, Lam((p,), mkbool(self.before(p, k))), Lam((p,), Opaque(SMP(rnd, p), 'sample'))))
      ip.ghost['calls'] = Lam((p,), Num(Ite(self.before(p, k), iv(1), iv(0))))
      ip.assume(self.topological(k))

    def check(k, when):
      c = ip.cell(ref)
      p = param('p', NM)
      if isinstance(c, PyD) and not c.d:
        ip.oblige(f'samples of the first variables, {when}', forall([p], Not(self.before(p, k))))
      elif isinstance(c, MapD):
        ip.oblige(f'samples of the first variables, {when}', And(
            forall([p], Iff(tb(c.dom(p)), self.before(p, k))),
            forall([p], Implies(self.before(p, k), ip.same(c.val(p), Opaque(SMP(rnd, p), 'sample'))))))
      else:
        raise Unsupported('the samples')
      calls = ip.ghost['calls']
      ip.oblige(f'each of the first variables was evaluated once, {when}',
                forall([p], lift(calls(p)).v == Ite(self.before(p, k), iv(1), iv(0))))
      ip.oblige(f'the first variables come after their parents, {when}', self.topological(k))

    inv_loop(ip, s, self.N, elem, body, env, [ref], havoc, check)
    return True
