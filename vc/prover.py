"""Discharging obligations: skolemisation, instantiation, congruence of big
operators, then z3 (cvc5 as a second opinion on unknown)."""
import itertools
import os
import time
import z3
from vc import poly
from vc.terms import *

# registered symbols ---------------------------------------------------------
PAIRS = []  # fns terms -> formulas relating several applications
FACTS = {}  # decl name -> fn(*args) -> list of formulas (true for all args)
BIG = {}  # decl name -> spec: {arg index: (dim arg index or int const, ...)}
BIG['Sum'] = {1: (0,)}
BIG['Cnt'] = {1: (0,)}


def cnt_facts(n, lam):
  c = CNT(n, lam)
  i, j = z3.FreshConst(I, 'ci'), z3.FreshConst(I, 'cj')
  r = lambda v: z3.And(0 <= v, v < n, sel(lam, [v]))
  return [
      c >= 0, z3.Or(n < 0, c <= n),
      z3.Or(c == 0, z3.Exists([i], r(i))),
      z3.ForAll([i], z3.Implies(r(i), c >= 1)),
      z3.Or(c <= 1, z3.Exists([i, j], z3.And(r(i), r(j), i != j))),
      z3.ForAll([i, j], z3.Implies(z3.And(r(i), r(j), i != j), c >= 2)),
      z3.Implies(z3.And(n >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), sel(lam, [i])))), c == n),
      z3.Implies(c == n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), sel(lam, [i])))),
  ]


def exp_split(a):
  """exp(x + y) = exp(x) exp(y), exp(-x) = 1/exp(x)."""
  if not z3.is_app(a) or a.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
    return []
  try:
    r = poly.from_poly(poly.exp_poly(poly.to_poly(a)))
  except poly.TooBig:
    return []
  return [] if r.eq(EXP(a)) else [EXP(a) == r]


def real_facts():
  x = lambda f: FACTS.__setitem__(f[0], f[1])
  x(('inv', lambda a: [Implies(a != 0, a * INV(a) == 1), Implies(a == 0, INV(a) == 0),
                       Implies(a > 0, INV(a) > 0), Implies(a < 0, INV(a) < 0)]))
  x(('sqrt', lambda a: [Implies(a >= 0, z3.And(SQRT(a) >= 0, SQRT(a) * SQRT(a) == a)),
                        Implies(a > 0, SQRT(a) > 0)]))
  x(('exp', lambda a: exp_split(a) + [EXP(a) > 0, Implies(a <= 0, EXP(a) <= 1), Implies(a == 0, EXP(a) == 1),
                       Implies(a >= 0, EXP(a) >= 1)]))
  x(('log', lambda a: [Implies(a >= 1, LOG(a) >= 0), Implies(z3.And(a > 0, a <= 1), LOG(a) <= 0),
                       Implies(a > 1, LOG(a) > 0), Implies(a == 1, LOG(a) == 0)]))
  x(('floor_', lambda a: [z3.ToReal(FLOOR(a)) <= a, a < z3.ToReal(FLOOR(a)) + 1]))
  x(('Cnt', cnt_facts))
  x(('pow', lambda a, b: [Implies(a > 0, POW(a, b) > 0), Implies(b == 1, POW(a, b) == a),
                          Implies(b == 2, POW(a, b) == a * a), Implies(b == 0, POW(a, b) == 1)]))


real_facts()


class Stats:
  def __init__(self):
    self.queries = 0
    self.time = 0.0
    self.backends = {}
    self.used_facts = set()


STATS = Stats()
DEBUG = float(os.environ.get('VERIF_SLOW', '0'))
_cache = {}
_factcache = {}
_keepalive = []


_LIGHT = False


class OutOfTime(Exception):
  pass


class Expander:
  """QF expansion of a set of formulas over a growing set of ground terms."""

  def __init__(self, fs, limit=24, deadline=None):
    self.fs = fs
    self.deadline = deadline
    self.tick = 0
    self.sk = {}
    self.cand = {}  # sort name -> list of terms
    self.limit = limit
    self.named = {}
    self.extra = []
    self.nsk = 0

  def skolem(self, q):
    key = q.get_id()
    if key not in self.sk:
      vs = []
      for i in range(q.num_vars()):
        vs.append(z3.Const(f'sk!{len(self.sk)}!{q.var_name(i)}', q.var_sort(i)))
      self.sk[key] = (q, vs)
    return self.sk[key][1]

  def ex(self, f, pos):
    if isinstance(f, bool):
      return z3.BoolVal(f)
    self.tick += 1
    if self.deadline is not None and self.tick % 256 == 0 and time.time() > self.deadline:
      raise OutOfTime()
    if not node(f).hasq:
      return f
    if z3.is_quantifier(f) and not f.is_lambda():
      univ = f.is_forall() == pos
      if not univ:
        return self.ex(open_quant(f, self.skolem(f)), pos)
      cs = [self.cand.get(f.var_sort(i).name(), []) for i in range(f.num_vars())]
      n = 1
      for c in cs:
        n *= max(1, len(c))
      if n > 700:
        k = max(1, int(700**(1 / len(cs))))
        cs = [c[:k] for c in cs]
      insts = [
          self.ex(open_quant(f, list(a)), pos) for a in itertools.product(*cs)
      ]
      insts = [i for i in insts]
      if not insts:
        return z3.BoolVal(True) if pos else z3.BoolVal(False)
      return (z3.And if pos else z3.Or)(*insts) if len(insts) > 1 else insts[0]
    if not z3.is_app(f):
      return f
    k = f.decl().kind()
    if k == z3.Z3_OP_AND:
      return z3.And(*[self.ex(c, pos) for c in f.children()])
    if k == z3.Z3_OP_OR:
      return z3.Or(*[self.ex(c, pos) for c in f.children()])
    if k == z3.Z3_OP_NOT:
      return z3.Not(self.ex(f.arg(0), not pos))
    if k == z3.Z3_OP_IMPLIES:
      return z3.Or(z3.Not(self.ex(f.arg(0), not pos)), self.ex(f.arg(1), pos))
    if self.hasq(f):
      if k == z3.Z3_OP_EQ and f.arg(0).sort() == B or k == z3.Z3_OP_XOR:
        a, b = f.arg(0), f.arg(1)
        if k == z3.Z3_OP_XOR:
          b = z3.Not(b)
        return z3.And(self.ex(z3.Or(z3.Not(a), b), pos),
                      self.ex(z3.Or(a, z3.Not(b)), pos)) if pos else z3.Or(
                          self.ex(z3.And(a, b), pos) , self.ex(z3.And(z3.Not(a), z3.Not(b)), pos)) if False else self.exiff(a, b, pos)
      if k == z3.Z3_OP_ITE and f.sort() == B:
        c, a, b = f.children()
        return self.exite(c, a, b, pos)
      # quantifier inside a term: name it
      return self.name_quants(f)
    return f

  def exiff(self, a, b, pos):
    return self.ex(z3.And(z3.Or(z3.Not(a), b), z3.Or(a, z3.Not(b))), pos)

  def exite(self, c, a, b, pos):
    return self.ex(z3.And(z3.Or(z3.Not(c), a), z3.Or(c, b)), pos)

  def hasq(self, f):
    return not isinstance(f, bool) and node(f).hasq

  def name_quants(self, f):
    subs = []
    for t in subterms([f]):
      if z3.is_quantifier(t) and not t.is_lambda() and not has_var(t):
        key = t.get_id()
        if key not in self.named:
          self.named[key] = (t, z3.Const(f'nq!{len(self.named)}', B))
        subs.append(self.named[key])
    return z3.substitute(f, *subs) if subs else f

  def run(self, rounds=3):
    fs = [zb(f) for f in self.fs]
    qf = []
    for r in range(rounds + 1):
      # named quantifiers: b => Q and not b => not Q
      qf = [self.ex(f, True) for f in fs]
      for t, b in list(self.named.values()):
        qf.append(z3.Or(z3.Not(b), self.ex(t, True)))
        qf.append(z3.Or(b, z3.Not(self.ex(t, False))))
      facts = self.attached(qf)
      qf += facts
      if not self.grow(qf):
        break
    return qf

  def attached(self, qf):
    out = []
    done = set()
    work = list(qf)
    for _ in range(4):
      new = []
      for nd in nodes(work):
        if nd.unint:
          nm, t = nd.name, nd.t
          if nm in FACTS and nd.id not in done and nd.vd == 0:
            done.add(nd.id)
            _keepalive.append(t)
            STATS.used_facts.add(nm)
            if t.get_id() not in _factcache:
              _factcache[t.get_id()] = (t, FACTS[nm](*t.children()))
            for g in _factcache[t.get_id()][1]:
              if g is True:
                continue
              new.append(self.ex(zb(g), True))
      if not new:
        break
      out += new
      work = new
    ts = {}
    for nd in nodes(list(qf) + out):
      if nd.unint and nd.name in FACTS and nd.vd == 0:
        ts[nd.id] = nd.t
    for fn in PAIRS:
      out += [zb(f) for f in fn(list(ts.values()))]
    return out

  def grow(self, qf):
    new = {}
    for nd in nodes(qf):
      if not nd.app:
        continue
      if nd.unint and nd.ch:
        for c in nd.ch:
          if c.vd:
            continue
          s = c.t.sort()
          if s == R or s == B or s.kind() == z3.Z3_ARRAY_SORT:
            continue
          new.setdefault(s.name(), {})[c.id] = c.t
      elif nd.dk == z3.Z3_OP_MOD and nd.vd == 0:
        new.setdefault('Int', {})[nd.id] = nd.t
      elif nd.unint and not nd.ch:
        t = nd.t
        s = t.sort()
        if s == I:
          if nd.name.startswith('sk!') or '@' in nd.name:
            new.setdefault(s.name(), {})[nd.id] = t
        elif s not in (R, B):
          new.setdefault(s.name(), {})[nd.id] = t
    ch = False
    for s, d in new.items():
      cur = self.cand.setdefault(s, [])
      have = {c.get_id() for c in cur}
      add = [c for i, c in d.items() if i not in have]
      add.sort(key=size)
      for c in add:
        if len(cur) >= self.limit:
          break
        cur.append(c)
        ch = True
    return ch


def size(t):
  n = 0
  for _ in subterms([t]):
    n += 1
    if n > 60:
      break
  return n


_anybig = {}


def anybig(f):
  """Does a big operator occur in f (also below a binder)?"""
  k = f.get_id()
  r = _anybig.get(k)
  if r is None or not r[0].eq(f):
    r = _anybig[k] = (f, any(n.unint and n.ch and (n.name in BIG or n.name.startswith('SumK!')) for n in nodes([f])))
  return r[1]


def big_terms(fs):
  return [n.t for n in nodes(fs) if n.unint and n.ch and n.vd == 0 and (n.name in BIG or n.name.startswith('SumK!'))]


_oc = [0]


def congruence(qf, hyps, depth, deadline, deep=True):
  """Abstract big operators; equal ones (provably) share a constant. Without
  deep only those with the same normal form are identified; the result then
  also says whether anything was left to try."""
  bigs = big_terms(qf)
  tries = 0
  if not bigs:
    return qf if deep else (qf, False)
  subs = []
  reps = {}
  lemmas = []
  for t in sorted(bigs, key=size):
    nm = t.decl().name()
    c = poly.canon_safe(t)
    found = None
    for r, rc, const in reps.get(nm, []):
      if c.eq(rc) or (c.sort() in (I, R) and c is not t and poly.equal(c, rc)):
        found = const
        break
    if found is None and not deep:
      tries += nm in reps
    elif found is None and depth < (1 if nm == 'Cnt' else 3):
      for r, rc, const in reps.get(nm, []):
        if big_equal(t, r, hyps, depth, deadline):
          found = const
          break
    if found is None:
      _oc[0] += 1
      found = z3.Const(f'big!{nm}!{_oc[0]}', t.sort())
      reps.setdefault(nm, []).append((t, c, found))
      if deep and (c.eq(t) or not is_sum(t)):
        lemmas += big_lemmas(t, found, hyps, depth, deadline)
    subs.append((t, found))
  subs.sort(key=lambda s: -size(s[0]))
  out = [z3.substitute(f, *subs) for f in qf]
  out += [z3.substitute(zb(f), *subs) for f in lemmas]
  return out if deep else (out, tries > 0)


def big_equal(a, b, hyps, depth, deadline):
  spec = BIG.get(a.decl().name(), {0: (None,)})
  goals = []
  for i in range(a.num_args()):
    x, y = a.arg(i), b.arg(i)
    if i not in spec:
      if x.eq(y):
        continue
      goals.append(x == y)
  for g in goals:
    if prove(hyps, g, depth=depth + 1, deadline=deadline, quick=True) != 'proved':
      return False
  for i, dims in spec.items():
    x, y = a.arg(i), b.arg(i)
    if x.eq(y):
      continue
    ks, dom = [], []
    for j, d in enumerate(dims):
      _oc[0] += 1
      k = z3.Const(f'op@{_oc[0]}', x.sort().domain() if len(dims) == 1 else I)
      ks.append(k)
      n = None if d is None else a.arg(d) if isinstance(d, int) else d(a)
      if n is not None:
        dom += [k >= 0, k < n]
    gx = sel(x, ks)
    gy = sel(y, ks)
    if gx.eq(gy):
      continue
    g = gx == gy
    if prove(hyps + dom, g, depth=depth + 1, deadline=deadline, quick=True) != 'proved':
      return False
  return True


def args_equal(a, b, hyps, depth, deadline):
  """Equality of two applications of one function by equality of arguments."""
  if a.eq(b):
    return True
  if a.sort() in (I, R) and not (z3.is_app(a) and a.decl().name() in BIG) and poly.equal(a, b):
    return True
  if not (z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl())):
    return a.sort() in (I, R) and prove(hyps, a == b, depth=depth + 1, deadline=deadline, quick=True) == 'proved'
  if a.decl().name() in BIG:
    return big_equal(a, b, hyps, depth, deadline)
  if a.decl().kind() != z3.Z3_OP_UNINTERPRETED:
    return prove(hyps, a == b, depth=depth + 1, deadline=deadline, quick=True) == 'proved'
  return all(args_equal(x, y, hyps, depth, deadline) for x, y in zip(a.children(), b.children()))


def by_arguments(hyps, goal, depth, deadline):
  """Goal (or a disjunct) f(..big..) = f(..big..) by congruence alone."""
  lits = goal.children() if z3.is_or(goal) else [goal]
  for l in lits:
    if not (z3.is_eq(l) and z3.is_app(l.arg(0)) and z3.is_app(l.arg(1)) and l.arg(0).num_args() and l.arg(0).decl().eq(l.arg(1).decl())):
      continue
    d = l.arg(0).decl()
    if d.kind() != z3.Z3_OP_UNINTERPRETED or d.name() in BIG or not big_terms([l]):
      continue
    rest = [z3.Not(x) if not z3.is_not(x) else x.arg(0) for x in lits if x is not l]
    if args_equal(l.arg(0), l.arg(1), hyps + rest, depth, deadline):
      return True
  return False


def sel(arr, ks):
  if is_lam(arr):
    return open_quant(arr, ks)
  return z3.Select(arr, *ks)


BIGLEMMA = {}  # decl name -> fn(term, const, hyps, prover) -> formulas


def sum_lemmas(t, c, hyps, depth, deadline):
  """n >= 0 facts about Sum: sign and vanishing, each proved for a generic
  index."""
  if depth >= 2:
    return []
  _oc[0] += 1
  if t.num_args() == 1:
    lam = t.arg(0)
    k = z3.Const(f'op@{_oc[0]}', t.arg(0).sort().domain())
    dom = []
    n = None
  else:
    n, lam = t.arg(0), t.arg(1)
    k = z3.Const(f'op@{_oc[0]}', I)
    dom = [k >= 0, k < n]
  body = sel(lam, [k])
  out = []
  hs = hyps if big_terms([body]) else [h for h in hyps if not anybig(zb(h))]
  p = lambda g: prove(hs + dom, g, depth=depth + 1, deadline=deadline, quick=True) == 'proved'
  if p(body >= 0):
    out.append(c >= 0)
    # some positive element makes the sum positive
    ws = []
    if n is not None and p(body > 0):
      out.append(z3.Or(n <= 0, c > 0))
    if n is not None and p(body <= 1):
      out.append(z3.Or(n < 0, c <= z3.ToReal(n)))
    x = z3.Const('x!q', I)
    bx = sel(lam, [x])
    ex = Expander([], 0)
    # sum = 0 -> every element is 0 (contrapositive instantiated by caller)
    out.append(('zero', n, lam, c))
  elif p(body <= 0):
    out.append(c <= 0)
  if n is not None:
    out.append(z3.Or(n > 0, c == 0))
  return out


def square(t):
  """Syntactically nonnegative."""
  if z3.is_rational_value(t) or z3.is_int_value(t):
    return t.as_fraction() >= 0 if z3.is_rational_value(t) else t.as_long() >= 0
  k = t.decl().kind() if z3.is_app(t) else None
  if k == z3.Z3_OP_ADD:
    return all(square(c) for c in t.children())
  if k == z3.Z3_OP_MUL:
    cnt = {}
    for c in t.children():
      cnt.setdefault(c.get_id(), [c, 0])[1] += 1
    return all(n % 2 == 0 or square(c) for c, n in cnt.values())
  if k == z3.Z3_OP_ITE:
    return square(t.arg(1)) and square(t.arg(2))
  return False


def cheap_lemmas(t):
  """Sign facts about a sum that need no proof."""
  if not is_sum(t):
    return []
  n, lam = (None, t.arg(0)) if t.num_args() == 1 else (t.arg(0), t.arg(1))
  out = []
  if n is not None:
    out.append(z3.Or(n > 0, t == 0))
  if is_lam(lam) and square(open_quant(lam, [z3.Const('x!q', lam.sort().domain())])):
    out.append(t >= 0)
  return out


def count_links(ts):
  """A count is the sum of its indicator; kept where two counts share one."""
  cs = [t for t in ts if t.decl().eq(CNT)]
  if len(cs) < 2:
    return []
  forms = {}
  for t in cs:
    c = poly.canon_safe(z3.ToReal(t))
    if c.sort() == R and not c.eq(z3.ToReal(t)):
      forms[t.get_id()] = (t, c, {x.get_id() for x in big_terms([c])})
  out = []
  for i, (t, c, atoms) in forms.items():
    if any(j != i and atoms & o[2] for j, o in forms.items()):
      out.append(z3.ToReal(t) == c)
  return out


def big_lemmas(t, c, hyps, depth, deadline):
  nm = t.decl().name()
  out = []
  if is_sum(t):
    for l in sum_lemmas(t, c, hyps, depth, deadline):
      if isinstance(l, tuple):
        _, n, lam, cc = l
        # instances at ground indices present in the hypotheses
        cands = index_terms(hyps, 'Int' if n is not None else t.arg(0).sort().domain().name())
        for w in cands[:12]:
          b = sel(lam, [w])
          out.append(z3.Implies(z3.And(0 <= w, w < n), b <= cc) if n is not None else b <= cc)
      else:
        out.append(l)
  if nm in BIGLEMMA:
    out += BIGLEMMA[nm](t, c, hyps,
                        lambda h, g: prove(h, g, depth=depth + 1, deadline=deadline, quick=True) == 'proved')
  return out


def index_terms(fs, sort='Int'):
  e = Expander([], 12)
  e.grow([zb(f) for f in fs if not isinstance(f, bool)])
  return e.cand.get(sort, [])


class Result(str):
  model = None


def prove(hyps, goal, timeout=8.0, depth=0, deadline=None, quick=False, want_model=False, light=False):
  """'proved' | 'failed' (counter-model) | 'unknown'."""
  global _LIGHT
  if isinstance(goal, bool):
    if goal:
      return 'proved'
    goal = z3.BoolVal(False)
  hyps = [zb(h) for h in hyps if h is not True]
  hyps = [h for h in hyps if not z3.is_true(h)]
  if z3.is_true(goal):
    return 'proved'
  key = (tuple(sorted({node(h).key for h in hyps})), node(goal).key, light or _LIGHT)
  r = _cache.get(key) or _cache.get(key[:2] + (False,))
  if r is not None and not want_model:
    return r
  t0 = time.time()
  if deadline is None:
    deadline = t0 + (8 if light else 40)
  oldl = _LIGHT
  _LIGHT = _LIGHT or light
  try:
    res = _prove(hyps, goal, min(timeout, 3.0 if quick else timeout), depth, deadline, want_model, light)
  finally:
    _LIGHT = oldl
  if DEBUG and time.time() - t0 > DEBUG:
    print('SLOW', round(time.time() - t0, 2), res, 'hyps', len(hyps), 'depth', depth, 'goal', str(goal)[:300], flush=True)
    if os.environ.get('VERIF_HYPS'):
      for h in hyps:
        print('   H', str(h).replace(chr(10), ' ')[:600], flush=True)
  if depth == 0:
    STATS.time += time.time() - t0
    STATS.queries += 1
  _keepalive.append((hyps, goal))
  if not want_model:
    _cache[key] = str(res)
  return res


def _eq_fast(goal):
  if z3.is_eq(goal) and goal.arg(0).sort() in (I, R):
    return poly.equal(goal.arg(0), goal.arg(1))
  if z3.is_and(goal):
    return all(_eq_fast(c) for c in goal.children())
  return False


def _prove(hyps, goal, timeout, depth, deadline, want_model, light=False):
  if time.time() > deadline:
    return 'unknown'
  if _eq_fast(goal):
    _use('ring')
    return 'proved'
  s = z3.SolverFor('QF_UF') if False else z3.Solver()
  if z3.is_and(goal) and depth == 0 and not want_model:
    for g in goal.children():
      r = prove(hyps, g, timeout, depth, deadline)
      if r != 'proved':
        return r
    return 'proved'
  if depth < 2 and not want_model and not (light or _LIGHT) and by_arguments(hyps, goal, depth, deadline):
    _use('congruence')
    return 'proved'
  if not want_model:
    r = native(hyps, goal, timeout, depth, deadline, light or _LIGHT)
    if r is not None:
      return r
  light = light or _LIGHT
  if light and len(hyps) > 25:
    return Result('unknown')
  hyps = list({h.get_id(): h for h in hyps}.values())
  if light and depth > 1:
    return Result('unknown')
  e = Expander(hyps + [z3.Not(goal)], 7 if light else 24 if depth == 0 else 12, deadline)
  try:
    qf = e.run(2 if light or depth else 3)
  except OutOfTime:
    return Result('unknown')
  # try without big operators first when there are none
  old = poly.nonzero_oracle[0]
  if big_terms(qf):
    if depth < 3:
      memo = {}

      def nz(x):
        k = x.get_id()
        if k not in memo:
          memo[k] = (x, prove(hyps, x != 0, depth=3, deadline=deadline, quick=True) == 'proved')
        return memo[k][1]

      poly.nonzero_oracle[0] = nz
      poly.clear_cache()
    try:
      if depth == 0 and _eq_fast(goal):
        _use('ring')
        return 'proved'
      pre = count_links(big_terms(qf))
      for t in big_terms(qf):
        pre += [zb(f) for f in big_lemmas(t, t, hyps, depth, deadline)]
      qf = [poly.canon_sums(f) for f in qf + pre]
      qf = congruence(qf, hyps, depth, deadline)
      # new ground applications from lemmas
      qf += Expander([]).attached(qf)
    finally:
      poly.nonzero_oracle[0] = old
      poly.clear_cache()
  s = z3.Solver()
  s.set('timeout', int(1000 * max(0.2, min(timeout, deadline - time.time()))))
  for f in qf:
    s.add(f)
  r = s.check()
  if r == z3.unsat:
    _use('z3')
    return 'proved'
  if r == z3.unknown and depth == 0 and deadline - time.time() > 1:
    r2 = cvc5_check(s, min(timeout, deadline - time.time()))
    if r2 == 'unsat':
      _use('cvc5')
      return 'proved'
  if r == z3.sat:
    res = Result('failed')
    if want_model:
      res.model = s.model()
    return res
  return Result('unknown')


_special = {}


def special(f):
  """Does f mention an operator whose facts are instantiated on demand?"""
  k = f.get_id()
  r = _special.get(k)
  if r is None or not r[0].eq(f):
    v = False
    for n in nodes([f]):
      if n.lam:
        v = True
      elif n.unint:
        v = n.name in FACTS or n.name in BIG or n.name.startswith('SumK!')
      if v:
        break
    r = _special[k] = (f, v)
  return r[1]


def nonlinear(f):
  for t in subterms([f]):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in t.children()) > 1:
      return True
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_rational_value(t.arg(1)) and not z3.is_int_value(t.arg(1)):
      return True
  return False


def quick_qf(hyps, goal):
  """Does the goal follow from the quantifier-free hypotheses alone?"""
  s = z3.Solver()
  s.set('timeout', 300)
  s.set('smt.arith.nl.nra', False)
  for f in hyps:
    if not Expander.hasq(None, f):
      s.add(f)
  s.add(z3.Not(goal))
  return s.check() == z3.unsat


def native(hyps, goal, timeout, depth, deadline, light=False):
  """z3's own quantifier instantiation; None when it does not answer."""
  fs = {}
  for h in hyps:
    fs[h.get_id()] = h
  fs = list(fs.values())
  ng = z3.Not(goal)
  sp = any(special(f) for f in fs) or special(ng)
  left = deadline - time.time()
  # quantifier-free part first
  s = z3.Solver()
  s.set('timeout', int(1000 * max(0.1, min(0.5, left))))
  if sp:
    s.set('smt.arith.nl.nra', False)
  nq = 0
  for f in fs:
    if Expander.hasq(None, f):
      nq += 1
    else:
      s.add(f)
  s.add(ng)
  r = s.check()
  if r == z3.unsat:
    _use('z3')
    return 'proved'
  if nq == 0 and not sp and not Expander.hasq(None, ng):
    if r == z3.sat:
      return Result('failed')
    return None
  if not sp:
    s = z3.Solver()
    s.set('timeout', int(1000 * max(0.1, min(timeout, 0.5 if light else 1.5, left))))
    for f in fs:
      s.add(f)
    s.add(ng)
    r = s.check()
    if r == z3.unsat:
      _use('z3')
      return 'proved'
    return Result('failed') if r == z3.sat else None
  # skolemise what is existential at the top, instantiate the operators' facts
  # at ground terms, leave the other quantifiers to z3
  e = Expander([])
  qf = [top(e, f, True) for f in fs + [ng]]
  out = []
  done = set()
  work = list(qf)
  for _ in range(3):
    new = []
    for nd in nodes(work):
      t = nd.t
      if nd.unint and nd.ch and nd.name in FACTS and nd.id not in done and nd.vd == 0:
        done.add(nd.id)
        _keepalive.append(t)
        STATS.used_facts.add(t.decl().name())
        if t.get_id() not in _factcache:
          _factcache[t.get_id()] = (t, FACTS[t.decl().name()](*t.children()))
        new += [top(e, zb(g), True) for g in _factcache[t.get_id()][1] if g is not True]
    if not new:
      break
    out += new
    work = new
  ts = [n.t for n in nodes(qf + out) if n.unint and n.name in FACTS and n.vd == 0]
  for fn in PAIRS:
    out += [zb(f) for f in fn(ts)]
  qf += out
  if big_terms(qf) and depth < 3:
    old = poly.nonzero_oracle[0]
    try:
      cheap = count_links(big_terms(qf))
      qf += cheap
      for t in big_terms(qf):
        cheap += [top(e, zb(f), True) for f in cheap_lemmas(t)]
      q1, more = congruence([poly.canon_sums(f) for f in qf + cheap], hyps, depth, deadline, False)
      s = z3.Solver()
      s.set('timeout', int(1000 * max(0.1, min(timeout, 0.5 if light else 1.0, deadline - time.time()))))
      s.set('mbqi', False)
      for f in q1:
        s.add(f)
      if s.check() == z3.unsat:
        _use('z3')
        return 'proved'
      pre = []
      for t in big_terms(qf):
        pre += [top(e, zb(f), True) for f in big_lemmas(t, t, hyps, depth, deadline)]
      qf = [poly.canon_sums(f) for f in qf + pre]
      qf = congruence(qf, hyps, depth, deadline)
    finally:
      poly.nonzero_oracle[0] = old
      poly.clear_cache()
  s = z3.Solver()
  s.set('timeout', int(1000 * max(0.1, min(timeout, 1.0 if light else 2.0, deadline - time.time()))))
  s.set('mbqi', False)
  for f in qf:
    s.add(f)
  if s.check() == z3.unsat:
    _use('z3')
    return 'proved'
  return None


def top(e, f, pos):
  """Skolemise existentials that are not below a universal quantifier."""
  if isinstance(f, bool):
    return z3.BoolVal(f == pos)
  if not Expander.hasq(None, f):
    return f if pos else z3.Not(f)
  if z3.is_quantifier(f):
    if f.is_forall() != pos:
      return top(e, open_quant(f, e.skolem(f)), pos)
    return f if pos else z3.Not(f)
  k = f.decl().kind()
  if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
    c = [top(e, x, pos) for x in f.children()]
    return z3.And(*c) if (k == z3.Z3_OP_AND) == pos else z3.Or(*c)
  if k == z3.Z3_OP_NOT:
    return top(e, f.arg(0), not pos)
  if k == z3.Z3_OP_IMPLIES:
    a, b = top(e, f.arg(0), not pos), top(e, f.arg(1), pos)
    return z3.Or(a, b) if pos else z3.And(a, b)
  if k == z3.Z3_OP_EQ and f.arg(0).sort() == B:
    a, b = f.arg(0), f.arg(1)
    if pos:
      return z3.And(top(e, z3.Or(z3.Not(a), b), True), top(e, z3.Or(a, z3.Not(b)), True))
    return z3.Or(z3.And(top(e, a, True), top(e, b, False)), z3.And(top(e, a, False), top(e, b, True)))
  if k == z3.Z3_OP_ITE and f.sort() == B:
    c, a, b = f.children()
    return z3.Or(z3.And(top(e, c, True), top(e, a, pos)), z3.And(top(e, c, False), top(e, b, pos)))
  return f if pos else z3.Not(f)


def _use(b):
  STATS.backends[b] = STATS.backends.get(b, 0) + 1


def cvc5_check(s, timeout):
  try:
    import cvc5
    txt = s.to_smt2()
    slv = cvc5.Solver()
    slv.setOption('tlimit', str(int(timeout * 1000)))
    slv.setLogic('ALL')
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
    sm = p.getSymbolManager()
    out = ''
    while True:
      c = p.nextCommand()
      if c.isNull():
        break
      out = c.invoke(slv, sm) or out
    return out.strip()
  except Exception:  # pylint: disable=broad-except
    return 'unknown'


# ------------------------------------------------------- counting residues
RQ = z3.Function('quot_', I, I, I)
RR = z3.Function('rem_', I, I, I)


def cnt_residue(t, c, hyps, pv):
  """#{0 <= p < n : p mod k = e} = n div k + [e < n mod k] for 0 <= e < k
  (Mathlib: Nat.count_modEq_card)."""
  n, lam = t.arg(0), t.arg(1)
  v = z3.FreshConst(I, 'rs')
  b = poly.unperm(sel(lam, [v]), v, poly.canon(n))
  if not z3.is_eq(b):
    return []
  for x, e in ((b.arg(0), b.arg(1)), (b.arg(1), b.arg(0))):
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MOD and x.arg(0).eq(v):
      k = x.arg(1)
      if v.decl().name() in consts_of(k) | consts_of(e):
        continue
      STATS.used_facts.add('count of a residue class')
      return [z3.Implies(z3.And(n >= 0, k >= 1, 0 <= e, e < k), c == RQ(n, k) + z3.If(e < RR(n, k), 1, 0))]
  return []


BIGLEMMA['Cnt'] = cnt_residue
