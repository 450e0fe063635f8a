"""Loop summaries: for-loops and comprehensions by solving the effect of one
generic iteration; while-loops by inferred inductive invariants."""
import ast
import itertools
import z3
from vc import poly, prover
from vc.terms import *
from vc.values import *
from vc.interp import (ReturnEx, BreakEx, ContinueEx, SymRaise, Outcome, veq_syn,
                       vconsts, Env, Infeasible)


# ------------------------------------------------------------------ locations
def locs_changed(base, st):
  """Locations existing in base whose contents differ in st."""
  out = []
  bheap, bframes, bghost = base[0], base[1], base[2]
  for oid, c in bheap.items():
    d = st[0].get(oid)
    if d is c or d is None:
      continue
    if isinstance(c, Obj) and isinstance(d, Obj) and c.cls is d.cls:
      for f in set(c.f) | set(d.f):
        if f not in c.f or f not in d.f or not veq_syn(c.f[f], d.f[f]):
          out.append(('h', oid, f))
      continue
    if not veq_syn(c, d):
      out.append(('h', oid))
  for fid, fr in bframes.items():
    fr2 = st[1].get(fid, {})
    for v in set(fr) | set(fr2):
      if v not in fr:
        out.append(('n', fid, v))  # new variable
      elif v not in fr2:
        out.append(('d', fid, v))
      elif fr[v] is not fr2[v] and not veq_syn(fr[v], fr2[v]):
        out.append(('f', fid, v))
  for g in set(bghost) | set(st[2]):
    if g not in bghost:
      out.append(('ng', g))
    elif g in st[2] and bghost[g] is not st[2][g] and not veq_syn(bghost[g], st[2][g]):
      out.append(('g', g))
  return out


MISSING = Poison('not assigned on every path')


def getloc(st, loc):
  k = loc[0]
  if k == 'h':
    c = st[0].get(loc[1])
    if len(loc) == 3:
      return c.f.get(loc[2], MISSING)
    return c
  if k in ('f', 'n', 'd'):
    return st[1].get(loc[1], {}).get(loc[2], MISSING)
  return st[2].get(loc[1], MISSING)


def putloc(ip, loc, v):
  k = loc[0]
  if k == 'h':
    if len(loc) == 3:
      c = ip.heap[loc[1]]
      f = dict(c.f)
      f[loc[2]] = v
      ip.heap[loc[1]] = Obj(c.cls, f)
    else:
      ip.heap[loc[1]] = v
  elif k in ('f', 'n', 'd'):
    ip.frames[loc[1]][loc[2]] = v
  else:
    ip.ghost[loc[1]] = v


# ------------------------------------------------------------ placeholders
class Leaf:
  """An uninterpreted function standing for a value at iteration k."""

  def __init__(self, fn, args):
    self.fn, self.args = fn, args


def app(ip, base, sort, args):
  nm = ip.newname(base)
  full = list(args)
  if not full:
    return z3.Const(nm, sort), None
  f = z3.Function(nm, *[a.sort() for a in full], sort)
  return f(*full), f


def placeholder(ip, v, args, names, hint=None):
  """A symbolic stand-in for a loop-carried value; names collects symbols."""
  def mk(base, sort):
    t, f = app(ip, base, sort, args)
    names.add(t.decl().name())
    return t

  if isinstance(v, (bool, SBool)):
    return mkbool(mk('L', B))
  if isinstance(v, (int, Fraction, Num)):
    n = lift(v)
    xr = hint == 'xr' or not (isinstance(n.k, int) and n.k == FIN)
    isint = n.isint and hint not in ('real', 'xr')
    t = mk('L', I if isint else R)
    k = mk('Lk', I) if xr else FIN
    return Num(t, k, n.np)
  if isinstance(v, tuple):
    return tuple(placeholder(ip, x, args, names) for x in v)
  if isinstance(v, Opaque):
    return Opaque(mk('L', v.t.sort()), v.tag)
  if isinstance(v, (PyL, Seq)):
    return PlaceL(ip.newname('pl'))
  if isinstance(v, Arr):
    ps = [param('a', d.sort) for d in v.dims]
    body = v.lam(*ps)
    return Arr(v.dims, Lam(ps, placeholder(ip, body, list(args) + ps, names, hint)), v.dt)
  if isinstance(v, MapD):
    p = param('a', v.sort)
    return MapD(v.sort, Lam((p,), placeholder(ip, SBool(z3.BoolVal(True)), list(args) + [p], names)),
                Lam((p,), placeholder(ip, v.val(p), list(args) + [p], names, hint)), v.default)
  if isinstance(v, PyD):
    return PyD({k: placeholder(ip, x, args, names) for k, x in v.d.items()}, v.default)
  return Poison('changed by a loop in a way that is not tracked')


def mentions(v, names):
  """Value mentions one of the placeholder symbols."""
  def chk(t):
    for s in subterms([t]):
      if z3.is_app(s) and s.decl().name() in names:
        return True
    return False

  found = [False]

  def walk(x):
    if found[0] or x is None:
      return
    if z3.is_expr(x):
      found[0] = found[0] or chk(x)
    elif isinstance(x, Num):
      walk(x.v)
      if not isinstance(x.k, int):
        walk(x.k)
    elif isinstance(x, SBool):
      walk(x.b)
    elif isinstance(x, Opaque):
      walk(x.t)
    elif isinstance(x, (tuple, list)):
      for y in x:
        walk(y)
    elif isinstance(x, Ref):
      walk([iv(i) for i in x.idx])
    elif isinstance(x, Lam):
      walk(x.body)
    elif isinstance(x, Dim):
      walk(iv(x.n) if x.n is not None else None)
      walk(x.keep)
    elif isinstance(x, Arr):
      walk(x.dims)
      walk(x.lam)
    elif isinstance(x, Seq):
      walk(x.dim)
      walk(x.lam)
    elif isinstance(x, PyL):
      walk(x.items)
    elif isinstance(x, PlaceL):
      walk(x.app)
    elif isinstance(x, PyD):
      walk(list(x.d.values()))
    elif isinstance(x, MapD):
      walk(x.dom)
      walk(x.val)
    elif isinstance(x, FamD):
      walk(x.dim), walk(x.key), walk(x.val)
    elif isinstance(x, Obj):
      walk(list(x.f.values()))
    elif isinstance(x, Fam):
      walk(x.cell)
      for ix, c in x.writes:
        walk(ix), walk(c)

  walk(v)
  return found[0]


# ------------------------------------------------------------- generic run
class Result:
  pass


def run_generic(ip, dim, elem, body, tag):
  """Effect of body(elem(k)) for every position k of dim, in order."""
  if isinstance(dim.n, int) and dim.sort == I and dim.n == 0:
    return
  if dim.sort == I and dim.keep is None and not isinstance(dim.n, int):
    if ip.branch(dim.zn <= 0):
      return
  key = (ip.scope, ip.cnt, tag, ip.dry > 0, len(ip.pc))
  res = ip.loopcache.get(key)
  if res is None:
    res = summarize(ip, dim, elem, body)
    ip.loopcache[key] = res
  apply_result(ip, dim, res)


def apply_result(ip, dim, res):
  if res.raises:
    k = res.k
    rc = [exists([k], And(dim.dom(k), c)) for c, _ in res.raises]
    allc = Or(*rc)
    if ip.branch(allc):
      i = ip.choose(len(res.raises)) if len(res.raises) > 1 else 0
      ip.assume(rc[i])
      for loc in res.touched:
        if loc[0] == 'h':
          ip.tainted.add(loc[1])
        elif loc[0] in ('f', 'n'):
          ip.frames[loc[1]][loc[2]] = Poison('assigned in a loop that raised')
        elif loc[0] in ('g', 'ng'):
          ip.ghost[loc[1]] = Poison('assigned in a loop that raised')
      raise SymRaise(res.raises[i][1].cls, res.raises[i][1].args)
  ip.heap = dict(res.heap)
  ip.frames = {k: dict(v) for k, v in res.frames.items()}
  ip.ghost = dict(res.ghost)
  for f in res.facts:
    ip.pc.append(('f', f))
  ip.cnt = res.cnt
  ip.nsub = res.nsub
  ip.viewed = ip.viewed | res.viewed


def summarize(ip, dim, elem, body):
  ip.flatten()
  base = ip.snapshot()
  k = z3.Const(ip.newname('k'), dim.sort)
  cnt0 = ip.cnt
  places, hints = {}, {}
  names = set()
  boxes = {}   # variables rebound to a new array by each iteration -> their private cell

  def boxed(x):
    body(x)
    for loc, oid in boxes.items():
      v = ip.frames[loc[1]].get(loc[2])
      if isinstance(v, Ref) and v.oid == oid:
        continue
      c = ip.cell(v) if isinstance(v, Ref) else None
      old = ip.heap[oid]
      if not isinstance(c, Arr) or c.ndim != old.ndim or old is not places.get(('h', oid), base[0][oid]):
        raise Unsupported(f'{loc[2]}: changed by a loop in a way that is not tracked')
      for d, e in zip(c.dims, old.dims):
        if not (veq_syn(d, e) or ip.prove(ip.dims_eq(d, e))):
          raise Unsupported(f'{loc[2]}: an array whose shape changes in a loop')
      ps = [param('a', d.sort) for d in old.dims]
      ip.heap[oid] = Arr(old.dims, Lam(ps, c.lam(*ps)), 'f' if 'f' in (c.dt, old.dt) else c.dt)
      ip.frames[loc[1]][loc[2]] = Ref(oid)
      ip.viewed = ip.viewed | {oid}

  def run(dry):
    ip.restore(base)
    ip.cnt = cnt0
    ip.bound = ip.bound + [k]
    ip.pc = ip.pc + [('c', zb(dim.dom(k)))]
    for loc, v in places.items():
      putloc(ip, loc, v)
    log = []
    ip.readlog.append(log)
    ip.dry += dry
    start = ip.snapshot()
    try:
      outs = ip.explore(lambda: boxed(elem(k)))
    finally:
      ip.dry -= dry
      ip.readlog.pop()
    return outs, log, start

  for rnd in range(14):
    outs, log, start = run(1)
    new = False
    for o in outs:
      if o.kind == 'raise':
        continue
      for loc in locs_changed(start, o.state):
        if loc[0] in ('n', 'ng') or loc in places:
          continue
        v0 = getloc(base, loc)
        if isinstance(v0, Fam):
          continue
        if loc[0] == 'h' and len(loc) == 3 and v0 is MISSING:
          continue
        if loc[0] == 'f' and isinstance(v0, Ref) and not v0.idx and isinstance(base[0].get(v0.oid), Arr) and o.kind in ('ok', 'continue'):
          w = getloc(o.state, loc)
          if isinstance(w, Ref) and not w.idx and isinstance(o.state[0].get(w.oid), Arr) and w.oid not in base[0]:
            ip.restore(base)
            ip.cnt = cnt0
            x = ip.alloc(base[0][v0.oid])
            cnt0 = ip.cnt
            base = base[:5] + (ip.cnt,) + base[6:]   # the name of the cell stays taken
            base[0][x.oid] = ip.heap[x.oid]
            base[1][loc[1]][loc[2]] = x
            boxes[loc] = x.oid
            new = True
            break
        places[loc] = placeholder(ip_at(ip, base, cnt0), v0, list(ip_bound(base)) + [k], names)
        cnt0 = ip.cnt
        new = True
    # kinds/sorts that turn out wider than the placeholder
    for o in outs:
      if o.kind not in ('ok', 'continue'):
        continue
      for loc in list(places):
        h = wider(ip, places[loc], getloc(o.state, loc), o)
        if h and hints.get(loc) != h and hints.get(loc) != 'xr':
          hints[loc] = h
          places[loc] = placeholder(ip_at(ip, base, cnt0), getloc(base, loc), list(ip_bound(base)) + [k], names, h)
          cnt0 = ip.cnt
          new = True
    if not new:
      break
  else:
    raise Unsupported('loop state does not stabilise')
  if ip.dry:
    pass
  else:
    outs, log, start = run(0)
  ip.restore(base)
  ip.cnt = cnt0
  return solve(ip, dim, k, base, start, places, names, outs, log)


def ip_at(ip, base, cnt):
  ip.restore(base)
  ip.cnt = cnt
  return ip


def ip_bound(base):
  return base[7]


def wider(ip, p, v, o):
  """Hint when value v does not fit the placeholder p."""
  if isinstance(p, Num) and isinstance(v, (int, Fraction, Num)) and not isinstance(v, bool):
    n = lift(v)
    if not (isinstance(n.k, int) and n.k == FIN) and isinstance(p.k, int):
      return 'xr'
    if p.isint and not n.isint:
      return 'real'
    return None
  if isinstance(p, Num) and not isinstance(v, (int, Fraction, Num)):
    return None
  if isinstance(p, Arr) and isinstance(v, Arr):
    return wider(ip, p.lam.body, v.lam(*p.lam.params) if len(v.dims) == len(p.dims) else None, o)
  if isinstance(p, MapD) and isinstance(v, MapD):
    return wider(ip, p.val.body, v.val(*p.val.params), o)
  return None


def solve(ip, dim, k, base, start, places, names, outs, log):
  res = Result()
  res.k = k
  normal = [o for o in outs if o.kind in ('ok', 'continue')]
  exits = [o for o in outs if o.kind in ('break', 'return')]
  raises = [o for o in outs if o.kind == 'raise']
  if exits:
    raise Unsupported('loop over a symbolic range with break or return')
  res.raises = [(o.cond(), o.val) for o in raises]
  touched = set(places)
  for o in outs:
    for loc in locs_changed(start, o.state):
      touched.add(loc)
  res.touched = touched
  res.viewed = frozenset().union(*[o.state[9] for o in outs]) if outs else frozenset()

  # ---- state the merged iteration ends in
  newoids = []
  for o in normal:
    for oid in o.state[0]:
      if oid not in base[0] and oid not in newoids:
        newoids.append(oid)
  newset = set(newoids)

  def lift_ref(r):
    if r.oid in newset:
      return Ref(r.oid, (k,) + tuple(r.idx))
    return r

  ip.pc = ip.pc + [('c', zb(dim.dom(k)))]
  ip.bound = ip.bound + [k]
  if normal:
    # a heap in which merging may dereference
    work = dict(base[0])
    for o in reversed(normal):
      for oid in newoids:
        if oid in o.state[0]:
          work[oid] = o.state[0][oid]
    ip.heap = work
    mheap = {}
    for oid in newoids:
      have = [o for o in normal if oid in o.state[0]]
      v = have[-1].state[0][oid]
      for o in reversed(have[:-1]):
        v = ip_merge_cells(ip, o.cond(), o.state[0][oid], v)
      mheap[oid] = v
    ip.heap.update(mheap)

  def merged(loc):
    vals = [getloc(o.state, loc) for o in normal]
    v = vals[-1]
    for o, x in zip(reversed(normal[:-1]), reversed(vals[:-1])):
      if x is v or veq_syn(x, v):
        continue
      if x is MISSING or v is MISSING:
        v = MISSING
        break
      try:
        if isinstance(x, (Obj, PyL, Seq, Arr, PyD, MapD, FamD, PlaceL, Fam)):
          v = ip_merge_cells(ip, o.cond(), x, v)
        else:
          v = ip.merge(o.cond(), x, v)
      except Unsupported as e:
        v = Poison(str(e))
        break
    return v

  final = {}
  fams = {}
  newvars = {}
  if normal:
    extra = [l for l in touched if l not in places]
    for loc in list(places) + sorted(extra, key=str):
      if loc[0] == 'h' and len(loc) == 2 and isinstance(base[0].get(loc[1]), Fam):
        fams[loc] = merge_fams(ip, dim, k, loc, base, normal, log)
        continue
      if loc[0] == 'h' and isinstance(places.get(loc), PlaceL):
        final[loc] = ('list', None)
        continue
      final[loc] = ('v', merged(loc))
  # objects allocated by the merge itself
  for oid in ip.heap:
    if oid not in base[0] and oid not in newset:
      newset.add(oid)
      newoids.append(oid)
  created = {oid: ip.heap[oid] for oid in newoids} if normal else {}
  allnames = set(names)

  # ---- back to the state before the loop, then write the results
  facts = []
  seen = set()
  common = None
  for o in outs:
    ids = {f.get_id() for f in o.facts}
    common = ids if common is None else common & ids
  for o in outs:
    for f in o.facts:
      if f.get_id() in common:
        g = f
        kk = ('c', f.get_id())
      else:
        g = zb(Implies(o.cond(), f))
        kk = (id(o), f.get_id())
      if kk in seen:
        continue
      seen.add(kk)
      facts.append(g)
  mergefacts = [f for t, f in ip.pc[len(base[3]) + 1:] if t == 'f']
  facts += mergefacts
  dom = dim.dom(k)
  usedplaces = set()

  ip.restore(base)
  ip.cnt = max(ip.cnt, 0)
  res.heap = dict(base[0])
  res.frames = {a: dict(b) for a, b in base[1].items()}
  res.ghost = dict(base[2])
  res.facts = []
  ip.nsub += 1
  ip.scope_saved = None

  for oid, c in created.items():
    if isinstance(c, Fam):
      ps = tuple(param('f', q.sort()) for q in c.params)
      if c.writes:
        raise Unsupported('pending writes in a loop-local family')
      cc = subst(c.cell, list(zip(c.params, ps)))
    else:
      ps, cc = (), c
    q = param('f', k.sort())
    cc = map_refs(cc, lift_ref)
    ip.heap[oid] = Fam((q,) + ps, subst(cc, [(k, q)]))
  needdef = set()  # placeholder symbols that need a defining recurrence
  results = {}
  for loc, (kind, v) in final.items():
    v0 = getloc(base, loc)
    p = places.get(loc)
    if kind == 'list':
      apps = [(o.cond(), getloc(o.state, loc)) for o in normal]
      results[loc] = solve_list(ip, dim, k, v0, p, apps, lift_ref, newset)
      continue
    v = map_refs(v, lift_ref) if v is not None else None
    if loc[0] in ('n', 'ng', 'd') or p is None:
      results[loc] = last_value(ip, dim, k, v, MISSING, allnames)
      continue
    results[loc] = solve_leaf(ip, dim, k, v0, p, v, names, needdef)
  # recurrences are shared: define every remaining placeholder in use
  used = set()
  for loc, r in results.items():
    collect_names(r, names, used)
  for f in facts:
    collect_names(f, names, used)
  for oid, c in created.items():
    collect_names(c, names, used)
  for loc, c in fams.items():
    collect_names(c, names, used)
  for _ in range(6):
    todo = used - needdef
    if not todo:
      break
    for loc, (kind, v) in final.items():
      p = places.get(loc)
      if p is None or kind == 'list':
        continue
      ns = set()
      collect_names(p, names, ns)
      if ns & todo:
        vv = map_refs(v, lift_ref)
        define(ip, dim, k, getloc(base, loc), p, vv, res.facts)
        collect_names(vv, names, used)
        needdef |= ns
    break_ = used - needdef
    if break_ == todo:
      break
  if used - needdef:
    raise Unsupported('loop-carried value used in a way that is not tracked')
  for loc, r in results.items():
    store = res.heap if loc[0] == 'h' else None
    if loc[0] == 'h':
      if len(loc) == 3:
        c = store[loc[1]]
        f = dict(c.f)
        f[loc[2]] = r
        store[loc[1]] = Obj(c.cls, f)
      else:
        store[loc[1]] = r
    elif loc[0] in ('f', 'n'):
      res.frames[loc[1]][loc[2]] = r
    elif loc[0] == 'd':
      res.frames[loc[1]].pop(loc[2], None)
    else:
      res.ghost[loc[1]] = r
  for loc, c in fams.items():
    pp, old, newc = c
    newc = map_refs(newc, lift_ref)
    p = pp
    own = subst(newc, [(k, p[0])])
    old2 = subst(old.cell, list(zip(old.params, p)))
    # cells are written for positions in the domain only
    ip.heap = dict(res.heap, **{o: c for o, c in ip.heap.items() if o not in base[0]})
    cell = ip_merge_cells(ip, dim.dom(p[0]), own, old2)
    res.heap[loc[1]] = Fam(p, cell)
  for o, c in ip.heap.items():
    if o not in base[0]:
      res.heap[o] = c
  for f in facts:
    res.facts.append(zb(forall([k], Implies(dom, f))))
  for f in [f for t, f in ip.pc[len(base[3]):] if t == 'f']:
    res.facts.append(f)
  if res.raises:
    for c, _ in res.raises:
      res.facts.append(zb(forall([k], Implies(dom, Not(c)))))
  res.cnt, res.nsub = ip.cnt, ip.nsub
  ip.restore(base)
  return res


def ip_merge_cells(ip, c, a, b):
  if isinstance(a, Fam) or isinstance(b, Fam):
    if veq_syn(a, b):
      return a
    raise Unsupported('merge of families')
  return ip.merge_cells(c, a, b)


def collect_names(v, names, out):
  for n in list(names):
    if n not in out and mentions(v, {n}):
      out.add(n)


def merge_fams(ip, dim, k, loc, base, normal, log):
  """Family written by the loop: only the iteration's own member allowed."""
  oid = loc[1]
  old = base[0][oid]
  for o, idx in log:
    if o == oid and not (len(idx) >= 1 and z3.is_expr(idx[0]) and idx[0].eq(k)):
      if not (idx and ip.prove(iv(idx[0]) == k, timeout=2, quick=True)):
        raise Unsupported('a loop iteration touches the object of another iteration')
  if len(old.params) != 1:
    # nested families: every write must be at (k, own parameters)
    raise Unsupported('loop writes a nested family')
  v = None
  for o in reversed(normal):
    c = o.state[0][oid]
    for ix, _ in c.writes:
      if not ix[0].eq(k) and not ip.prove(ix[0] == k, timeout=2, quick=True):
        raise Unsupported('a loop iteration writes the object of another iteration')
    x = c.writes[-1][1] if c.writes else subst(old.cell, [(old.params[0], k)])
    v = x if v is None else (v if veq_syn(v, x) else ip_merge_cells(ip, o.cond(), x, v))
  return ((param('f', old.params[0].sort()),), old, v)


def last_value(ip, dim, k, v, entry, names):
  """Value after the loop of something overwritten in each iteration."""
  if v is MISSING:
    return Poison('not assigned on every path of a loop')
  if isinstance(v, Poison):
    return v
  if not depends(v, k) and dim.keep is None and not (dim.sort != I):
    r = v
  elif dim.sort == I and dim.keep is None:
    r = subst(v, [(k, dim.zn - 1 if not isinstance(dim.n, int) else z3.IntVal(dim.n - 1))])
  else:
    return Poison('last value of a filtered loop')
  return r


def depends(v, k):
  return k.decl().name() in vconsts(v)


def inner_domain(dim, k, body, zero):
  if dim.sort == I and dim.keep is None:
    return body
  return z3.If(zb(And(*([tb(dim.keep(k))] if dim.keep is not None else []))), body, zero) if dim.keep is not None else body


def branches(t):
  """[(conds, leaf)] of nested ites."""
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
    c, a, b = t.children()
    return [([c] + cs, x) for cs, x in branches(a)] + [([Not(c)] + cs, x) for cs, x in branches(b)]
  return [([], t)]


def eq_subst(t, conds):
  """Rewrite with the equalities between constants among the conditions."""
  subs = []
  for c in conds:
    for d in (c.children() if z3.is_and(c) else [c]):
      if z3.is_eq(d) and d.arg(0).sort() not in (R, B):
        a, b = d.arg(0), d.arg(1)
        if a.eq(b):
          continue
        if z3.is_app(a) and a.num_args() == 0 and '%' in a.decl().name():
          subs.append((a, b))
        elif z3.is_app(b) and b.num_args() == 0 and '%' in b.decl().name():
          subs.append((b, a))
  return z3.substitute(t, *subs) if subs else t


def additive(t, pt, names):
  """t = pt + delta with delta free of loop placeholders: [(conds, delta)]."""
  out = []
  for cs, x in branches(t):
    p2 = eq_subst(pt, cs)
    x2 = eq_subst(x, cs)
    try:
      d = poly.padd(poly.to_poly(to_real(x2)), poly.to_poly(to_real(p2)), -1)
    except poly.TooBig:
      return None
    if t.sort() == I:
      dt = poly.int_from_poly(d)
      if dt is None:
        return None
    else:
      dt = poly.from_poly(d)
    if mentions(dt, names) or any(mentions(c, names) for c in cs):
      return None
    out.append((cs, dt))
  return out


def solve_leaf(ip, dim, k, v0, p, v, names, needdef):
  """Value after the loop."""
  if v is p or veq_syn(v, p):
    return v0
  if isinstance(v, Poison):
    return v
  if isinstance(p, Poison):
    if mentions(v, names):
      return Poison('carried around a loop')
    r = last_value(ip, dim, k, v, v0, names)
    return r
  if isinstance(p, tuple) and isinstance(v, tuple) and len(p) == len(v):
    return tuple(solve_leaf(ip, dim, k, a, b, c, names, needdef) for a, b, c in zip(v0, p, v))
  if isinstance(p, (SBool, bool)) and isinstance(v, (SBool, bool)):
    vb, pb = zb(tb(v)), zb(tb(p))
    t = z3.substitute(vb, (pb, z3.BoolVal(True)))
    f = z3.substitute(vb, (pb, z3.BoolVal(False)))
    if not mentions(t, names) and not mentions(f, names):
      ts, fs = simp(ip, t), simp(ip, f)
      if z3.is_true(ts):  # accumulates a disjunction
        return mkbool(Or(tb(v0), exists([k], And(dim.dom(k), fs))))
      if z3.is_false(fs):
        return mkbool(And(tb(v0), forall([k], Implies(dim.dom(k), ts))))
      if not mentions(v, names):
        return last_value(ip, dim, k, v, v0, names)
    needdef_add(p, needdef, names)
    return recurrence(ip, dim, k, v0, p, v)
  if isinstance(p, Num) and isinstance(v, (int, Fraction, Num)) and not isinstance(v, bool):
    n = lift(v)
    if not mentions(v, names):
      r = last_value(ip, dim, k, v, v0, names)
      if not isinstance(r, Poison):
        return r
    finp = isinstance(n.k, int) and n.k == FIN and isinstance(p.k, int)
    if not finp and isinstance(p.k, int) and False:
      pass
    nv = n.v if n.v.sort() == p.v.sort() else to_real(n.v)
    add = additive(nv, p.v if p.v.sort() == nv.sort() else to_real(p.v), names) if finp else None
    if add is not None:
      return total(ip, dim, k, lift(v0), add, p.isint and n.isint, p.np or n.np)
    return recurrence(ip, dim, k, v0, p, v)
  if isinstance(p, Opaque) and isinstance(v, Opaque):
    if not mentions(v, names):
      return last_value(ip, dim, k, v, v0, names)
    return recurrence(ip, dim, k, v0, p, v)
  if isinstance(p, Arr) and isinstance(v, Arr):
    ps = p.lam.params
    b = solve_leaf(ip, dim, k, v0.lam(*ps), p.lam.body, v.lam(*ps), names, needdef)
    if isinstance(b, Poison):
      raise Unsupported(b.why)
    return Arr(v0.dims, Lam(ps, b), v.dt)
  if isinstance(p, MapD) and isinstance(v, MapD):
    q = p.dom.params[0]
    d0 = v0.dom(q)
    dm = solve_leaf(ip, dim, k, d0 if isinstance(d0, bool) else d0, p.dom.body, v.dom(q), names, needdef)
    q2 = p.val.params[0]
    val = solve_leaf(ip, dim, k, v0.val(q2), p.val.body, v.val(q2), names, needdef)
    return MapD(v.sort, Lam((q,), dm), Lam((q2,), val), v0.default)
  if isinstance(p, PyD) and isinstance(v, PyD) and list(p.d) == list(v.d):
    return PyD({a: solve_leaf(ip, dim, k, v0.d[a], p.d[a], v.d[a], names, needdef) for a in p.d}, p.default)
  if not mentions(v, names):
    return last_value(ip, dim, k, v, v0, names)
  return Poison('carried around a loop')


def needdef_add(p, needdef, names):
  pass


def simp(ip, t):
  t = z3.simplify(t)
  return t


def total(ip, dim, k, v0, add, isint, np):
  """v0 plus the sum of the per-iteration increments."""
  keep = tb(dim.keep(k)) if dim.keep is not None else True
  live = [(cs, d) for cs, d in add if not (is_num(d) and num_val(d) == 0)]
  if not live:
    return lower(v0)
  if dim.sort != I:
    lam = z3.Lambda([k], zb_real(live, keep))
    s = sumk(dim.sort)(lam)
    if isint:
      z = ip.fresh('tot', I)
      ip.fact(z3.ToReal(z) == to_real(v0.v) + s)
      return Num(z, FIN, np)
    return Num(tadd(to_real(v0.v), s), FIN, np)
  n = dim.zn
  if isint:
    acc = v0.v
    for cs, d in live:
      if depends(Num(d), k):
        break
      c = And(keep, *cs)
      if c is True:
        acc = tadd(acc, tmul(d, n))
      else:
        acc = tadd(acc, tmul(d, CNT(n, z3.Lambda([k], zb(c)))))
    else:
      if all(And(keep, *cs) is not True for cs, d in live) or True:
        ip.fact(n >= 0) if False else None
        return lower(Num(acc, FIN, np))
    z = ip.fresh('tot', I)
    s = SUM(n, z3.Lambda([k], zb_real(live, keep)))
    ip.fact(z3.ToReal(z) == to_real(v0.v) + s)
    return Num(z, FIN, np)
  s = SUM(n, z3.Lambda([k], zb_real(live, keep)))
  return Num(tadd(to_real(v0.v), s), FIN, np)


def zb_real(live, keep):
  t = z3.RealVal(0)
  for cs, d in live:
    c = And(keep, *cs)
    dr = to_real(d)
    t = tadd(t, dr if c is True else z3.If(zb(c), dr, z3.RealVal(0)))
  return t


def recurrence(ip, dim, k, v0, p, v):
  """Result as the value of the placeholder function after n steps."""
  if dim.sort != I:
    return Poison('order-dependent loop over a set')
  n = dim.zn
  return subst(p, [(k, n)])


def define(ip, dim, k, v0, p, v, facts):
  """L(0) = entry, L(k+1) = step(k) as facts."""
  if dim.sort != I:
    raise Unsupported('order-dependent loop over a set')
  if isinstance(p, Poison):
    raise Unsupported(p.why)
  ps = ()
  def deps(p, v, v0, ps, dom):
    if isinstance(p, tuple):
      for a, b, c in zip(p, v, v0):
        deps(a, b, c, ps, dom)
      return
    if isinstance(p, Arr):
      qs = p.lam.params
      deps(p.lam.body, v.lam(*qs), v0.lam(*qs), tuple(ps) + tuple(qs), dom)
      return
    if isinstance(p, MapD):
      q = p.dom.params
      deps(p.dom.body, v.dom(*q), v0.dom(*q), tuple(ps) + tuple(q), dom)
      q = p.val.params
      deps(p.val.body, v.val(*q), v0.val(*q), tuple(ps) + tuple(q), dom)
      return
    if isinstance(p, PyD):
      for a in p.d:
        deps(p.d[a], v.d[a], v0.d[a], ps, dom)
      return
    if isinstance(v, Poison) or isinstance(v0, Poison):
      raise Unsupported('loop-carried value is not tracked')
    at0 = subst(p, [(k, z3.IntVal(0))])
    at1 = subst(p, [(k, k + 1)])
    if dim.keep is not None:
      v = ip.merge(tb(dim.keep(k)), v, p)
    facts.append(zb(forall(list(ps), zb(ip.same(at0, v0)))))
    facts.append(zb(forall([k] + list(ps), Implies(dim.inrange(k), zb(ip.same(at1, v))))))
  deps(p, v, v0, ps, None)


def solve_list(ip, dim, k, v0, p, apps, lift_ref, newset):
  """A list appended to in each iteration."""
  if all(isinstance(v, PlaceL) and v.tag == p.tag and not v.app for _, v in apps):
    return v0
  for _, v in apps:
    if not isinstance(v, PlaceL) or v.tag != p.tag:
      return PlaceLost
  ms = {len(v.app) for _, v in apps}
  m = max(ms)
  items = []
  for j in range(m):
    x = None
    for c, v in reversed(apps):
      if len(v.app) <= j:
        continue
      y = map_refs(v.app[j], lift_ref)
      x = y if x is None else merge_safe(ip, c, y, x)
    items.append(x)
  s0 = ip.as_seq(v0) if isinstance(v0, PyL) else v0
  empty0 = isinstance(s0.dim.n, int) and s0.dim.n == 0
  if len(ms) == 1 and dim.keep is None and dim.sort == I:
    n0 = s0.dim.n
    t = param('t')
    if m == 1:
      if empty0:
        return Seq(Dim(dim.n), Lam((t,), subst(items[0], [(k, t)])))
      if s0.dim.keep is not None:
        pass
      z0 = s0.dim.zn
      new = subst(items[0], [(k, t - z0)])
      keep = None
      if s0.dim.keep is not None:
        keep = Lam((t,), mkbool(Or(t >= z0, tb(s0.dim.keep(t)))))
      return Seq(Dim(z0 + dim.zn, keep), Lam((t,), ip.merge(t < z0, s0.lam(t), new)))
    z0 = s0.dim.zn
    q = (t - z0) if not empty0 else t
    d = q / m
    v = subst(items[-1], [(k, d)])
    for j in range(m - 2, -1, -1):
      v = ip.merge(q % m == j, subst(items[j], [(k, d)]), v)
    if not empty0:
      v = ip.merge(t < z0, s0.lam(t), v)
    return Seq(Dim((z0 if not empty0 else z3.IntVal(0)) + m * dim.zn), Lam((t,), v))
  if m == 1:
    cond = Or(*[c for c, v in apps if len(v.app) == 1])
    t = param('t', dim.sort)
    keep = And(tb(dim.keep(k)) if dim.keep is not None else True, cond)
    kp = Lam((t,), mkbool(keep if isinstance(keep, bool) else zsub(keep, [(k, t)])))
    kp = named_keep(ip, kp)
    if empty0:
      return Seq(Dim(dim.n, None if kp.body is True else kp, dim.sort), Lam((t,), subst(items[0], [(k, t)])))
    if dim.sort == I:
      z0 = s0.dim.zn
      k0 = tb(s0.dim.keep(t)) if s0.dim.keep is not None else True
      kk = Or(And(t < z0, k0), And(t >= z0, zsub(zb(keep), [(k, t - z0)])))
      return Seq(Dim(z0 + dim.zn, Lam((t,), mkbool(kk))),
                 Lam((t,), ip.merge(t < z0, s0.lam(t), subst(items[0], [(k, t - z0)]))))
  raise Unsupported('list built by a loop with a varying number of appends')


PlaceLost = Poison('list overwritten in a loop')


def named_keep(ip, lam, limit=40):
  """Abbreviate a large filter condition by a defined predicate."""
  b = tb(lam.body)
  if isinstance(b, bool) or prover.size(b) <= limit:
    return lam
  t = lam.params[0]
  K = ip.fresh_fn('keep', [t.sort()], B)
  ip.fact(z3.ForAll([t], K(t) == b, patterns=[K(t)]))
  return Lam((t,), mkbool(K(t)))


def merge_safe(ip, c, a, b):
  return ip.merge(c, a, b)


# ------------------------------------------------------------- entry points
def for_loop(ip, s, itv, env):
  if s.orelse:
    raise Unsupported('for-else over a symbolic range')
  dim, elem = ip.libs['$iter'](ip, itv)

  def body(x):
    ip.assign(s.target, x, env)
    try:
      ip.exec_block(s.body, env)
    except ContinueEx:
      pass

  h = ip.hooks.get('for')
  if h and h(ip, s, dim, elem, body, env):
    return
  run_generic(ip, dim, elem, body, id(s))


def inv_loop(ip, s, n, elem, body, env, refs, havoc, check):
  """A loop over elem(0..n-1) by an explicit invariant: check(k) states it,
  havoc(k) sets an arbitrary state satisfying it (cells refs may change)."""
  check(iv(0), 'on entry')
  mod = {x.id for b in [s.target] + s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}

  def forget():
    for x in mod:
      ip.frames[env.fid][x] = Poison('assigned in a loop proved by an invariant')

  if ip.choose(2) == 0:
    k = ip.fresh('k', I)
    ip.assume(And(k >= 0, k < n))
    forget()
    havoc(k)
    before = dict(ip.heap)
    names = set(ip.frames[env.fid])
    try:
      body(elem(k))
    except BreakEx:
      raise Unsupported('break in a loop proved by an invariant')
    for oid, c in before.items():
      if oid not in {r.oid for r in refs} and ip.heap.get(oid) is not c and not veq_syn(c, ip.heap.get(oid)):
        raise Unsupported('the loop changes state outside its invariant')
    if set(ip.frames[env.fid]) - names - mod:
      raise Unsupported('the loop binds names outside its invariant')
    check(k + 1, 'preserved')
    raise Infeasible()
  forget()
  havoc(n)


def new_env(ip, env):
  fid = ip.newname('cf')
  fr = {}
  if env.fid is not None:
    for kx in ('$qual', '$cls', '$self'):
      if kx in ip.frames[env.fid]:
        fr[kx] = ip.frames[env.fid][kx]
    if '$self' in fr and fr['$self'] in ip.frames[env.fid]:
      fr[fr['$self']] = ip.frames[env.fid][fr['$self']]
  ip.frames[fid] = fr
  return Env(fid, env if env.fid is not None else None, env.globals_)


def comprehend(ip, e, env):
  """List/generator comprehension: returns a LenPos/list of values."""
  env2 = new_env(ip, env)
  tmp = ip.alloc(PyL(()))

  def level(gi):
    if gi == len(e.generators):
      v = ip.eval(e.elt, env2)
      ip.libs['$append'](ip, tmp, v)
      return
    g = e.generators[gi]
    itv = ip.eval(g.iter, env2 if gi else env)

    def body(x):
      ip.assign(g.target, x, env2)
      for cnd in g.ifs:
        if not ip.branch(ip.truth(ip.eval(cnd, env2))):
          return
      level(gi + 1)

    items = ip.libs['$concrete_items'](ip, itv)
    if items is not None:
      for x in items:
        body(x)
      return
    dim, elem = ip.libs['$iter'](ip, itv)
    run_generic(ip, dim, elem, body, (id(e), gi))

  level(0)
  ip.frames.pop(env2.fid, None)
  return tmp


def dict_comp(ip, e, env):
  if len(e.generators) != 1:
    raise Unsupported('nested dict comprehension')
  g = e.generators[0]
  itv = ip.eval(g.iter, env)
  items = ip.libs['$concrete_items'](ip, itv)
  env2 = new_env(ip, env)
  if items is not None:
    d = ip.alloc(PyD({}))
    for x in items:
      ip.assign(g.target, x, env2)
      if all(ip.branch(ip.truth(ip.eval(c, env2))) for c in g.ifs):
        kk = ip.eval(e.key, env2)
        ip.setitem(d, kk, ip.eval(e.value, env2))
    return d
  if g.ifs:
    raise Unsupported('filtered dict comprehension')
  dim, elem = ip.libs['$iter'](ip, itv)
  keys, vals = ip.alloc(PyL(())), ip.alloc(PyL(()))

  def body(x):
    ip.assign(g.target, x, env2)
    ip.libs['$append'](ip, keys, ip.eval(e.key, env2))
    ip.libs['$append'](ip, vals, ip.eval(e.value, env2))

  run_generic(ip, dim, elem, body, id(e))
  ip.frames.pop(env2.fid, None)
  return ip.libs['$mkdict'](ip, keys, vals)


# ------------------------------------------------------------- while loops
class Head:
  """Symbolic loop-head state built from templates and equality classes."""

  def __init__(self, ip):
    self.ip = ip
    self.leaves = {}  # path -> (sig, params)
    self.cls = {}  # path -> class id
    self.sym = {}  # class id -> name
    self.facts = []


def _isfin(n):
  return isinstance(n.k, int) and n.k == FIN


def t_of(ip, v, ps):
  """Template of a single value (under parameters ps)."""
  if isinstance(v, (bool, SBool)):
    return ('bool',)
  if isinstance(v, (int, Fraction, Num)):
    n = lift(v)
    return ('num', n.isint, not _isfin(n), n.np)
  if isinstance(v, Opaque):
    return ('opq', v.t.sort(), v.tag)
  if isinstance(v, tuple):
    return ('tuple', [t_of(ip, x, ps) for x in v])
  if isinstance(v, Ref) and v.oid in ip.heap and isinstance(ip.heap[v.oid], (PyL, Seq)) and not v.idx:
    return ('cell', c_of(ip, ip.heap[v.oid], ps))
  if v is None or isinstance(v, (Ref, str, EnumVal, FuncVal, BoundM, ClassVal, Lib, FamD, OpaqueStr)):
    return ('same', v, tuple(ps))
  return ('poison', f'{type(v).__name__} changed by a loop')


def c_of(ip, c, ps):
  if isinstance(c, (PyL, Seq)):
    s = ip.as_seq(c)
    t = param('t')
    b = s.lam(t)
    return ('seq', ('len',) if s.dim.keep is None else ('poison', ''), None if isinstance(b, Poison) else t_of(ip, b, tuple(ps) + (t,)), t)
  return ('samec', c, tuple(ps))


def t_join(ip, T, v, head, ps):
  """Least template above T that also covers v (head: value T stands for)."""
  if head is not None and veq_syn(v, head):
    return T
  k = T[0]
  if k == 'poison':
    return T
  if k == 'same':
    v0 = subst(T[1], list(zip(T[2], ps))) if T[2] else T[1]
    return t_gen(ip, v0, v, ps)
  if k == 'bool':
    return T if isinstance(v, (bool, SBool)) else ('poison', 'type changes')
  if k == 'num':
    if isinstance(v, (bool, SBool)) or not isinstance(v, (int, Fraction, Num)):
      return ('poison', 'type changes')
    n = lift(v)
    return ('num', T[1] and n.isint, T[2] or not _isfin(n), T[3] or n.np)
  if k == 'opq':
    return T if isinstance(v, Opaque) and v.t.sort() == T[1] else ('poison', 'type changes')
  if k == 'tuple':
    if not isinstance(v, tuple) or len(v) != len(T[1]):
      return ('poison', 'tuple length changes')
    hs = head if isinstance(head, tuple) else (None,) * len(v)
    return ('tuple', [t_join(ip, a, b, h, ps) for a, b, h in zip(T[1], v, hs)])
  if k == 'cell':
    if not isinstance(v, Ref):
      return ('poison', 'type changes')
    hc = ip.heap.get(head.oid) if isinstance(head, Ref) else None
    return ('cell', c_join(ip, T[1], ip.cell(v), hc, ps))
  raise Unsupported('template')


def t_gen(ip, a, b, ps):
  if veq_syn(a, b):
    return ('same', a, tuple(ps))
  if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
    return ('tuple', [t_gen(ip, x, y, ps) for x, y in zip(a, b)])
  if isinstance(a, Ref) and isinstance(b, Ref) and not a.idx and not b.idx:
    ca, cb = ip.heap.get(a.oid), ip.heap.get(b.oid)
    if isinstance(ca, (PyL, Seq)) and isinstance(cb, (PyL, Seq)):
      return ('cell', c_gen(ip, ca, cb, ps))
    return ('poison', 'object replaced in a loop')
  if isnumeric(a) and isnumeric(b):
    T = t_of(ip, a, ps)
    return t_join(ip, T, b, None, ps)
  if isinstance(a, Opaque) and isinstance(b, Opaque):
    return t_join(ip, t_of(ip, a, ps), b, None, ps)
  return ('poison', f'{type(a).__name__} becomes {type(b).__name__} in a loop')


def c_gen(ip, a, b, ps):
  """Template over two cells."""
  if veq_syn(a, b):
    return ('samec', a, tuple(ps))
  if isinstance(a, (PyL, Seq)) and isinstance(b, (PyL, Seq)):
    if isinstance(a, PyL) and isinstance(b, PyL) and len(a.items) == len(b.items):
      return ('pyl', [t_gen(ip, x, y, ps) for x, y in zip(a.items, b.items)])
    a, b = ip.as_seq(a), ip.as_seq(b)
    t = param('t')
    va, vb = a.lam(t), b.lam(t)
    pst = tuple(ps) + (t,)
    if isinstance(va, Poison) and isinstance(vb, Poison):
      E = None
    elif isinstance(va, Poison):
      E = t_of(ip, vb, pst)
    elif isinstance(vb, Poison):
      E = t_of(ip, va, pst)
    else:
      E = t_gen(ip, va, vb, pst)
    return ('seq', dim_gen(a.dim, b.dim, ps), E, t)
  if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls:
    return ('obj', a.cls, {f: t_gen(ip, a.f.get(f, MISSING), b.f.get(f, MISSING), ps) for f in set(a.f) | set(b.f)})
  if isinstance(a, Fam) and isinstance(b, Fam):
    qs = a.params
    return ('fam', qs, c_gen(ip, a.cell, ip_fam(ip, b, qs), tuple(ps) + qs))
  if isinstance(a, Arr) and isinstance(b, Arr) and len(a.dims) == len(b.dims) and all(veq_syn(x, y) for x, y in zip(a.dims, b.dims)):
    qs = a.lam.params
    return ('arr', a.dims, t_gen(ip, a.lam.body, b.lam(*qs), tuple(ps) + qs), qs, b.dt)
  return ('poisonc', f'{type(a).__name__} becomes {type(b).__name__} in a loop')


def ip_fam(ip, c, qs):
  return ip.fam_at(c, qs)


def dim_gen(a, b, ps):
  if veq_syn(a, b):
    return ('same', a, tuple(ps))
  if a.sort != I or b.sort != I:
    return ('poison', '')
  if a.keep is None and b.keep is None:
    return ('len',)
  if veq_syn(a.n, b.n) or (not isinstance(a.n, int) and not isinstance(b.n, int) and poly.equal(a.zn, b.zn)):
    return ('keep', a.n, tuple(ps))
  return ('poison', '')


def dim_join(T, d, head, ps):
  if head is not None and veq_syn(d, head):
    return T
  if T[0] == 'same':
    return dim_gen(subst(T[1], list(zip(T[2], ps))) if T[2] else T[1], d, ps)
  if T[0] == 'len':
    return T if d.keep is None and d.sort == I else ('poison', '')
  if T[0] == 'keep':
    n0 = zsub(iv(T[1]), list(zip(T[2], ps))) if T[2] else iv(T[1])
    return T if poly.equal(n0, d.zn) else ('poison', '')
  return T


def c_join(ip, T, c, head, ps):
  if head is not None and veq_syn(c, head):
    return T
  k = T[0]
  if k == 'poisonc':
    return T
  if k == 'samec':
    c0 = subst(T[1], list(zip(T[2], ps))) if T[2] else T[1]
    return c_gen(ip, c0, c, ps)
  if k == 'pyl':
    if not isinstance(c, PyL) or len(c.items) != len(T[1]):
      return ('poisonc', 'list length')
    hs = head.items if isinstance(head, PyL) else (None,) * len(T[1])
    return ('pyl', [t_join(ip, a, b, h, ps) for a, b, h in zip(T[1], c.items, hs)])
  if k == 'seq':
    if not isinstance(c, (PyL, Seq)):
      return ('poisonc', 'type changes')
    s = ip.as_seq(c)
    t = T[3]
    hs = ip.as_seq(head) if isinstance(head, (PyL, Seq)) else None
    D = dim_join(T[1], s.dim, hs.dim if hs else None, ps)
    v = s.lam(t)
    pst = tuple(ps) + (t,)
    if isinstance(v, Poison):
      E = T[2]
    elif T[2] is None:
      E = t_of(ip, v, pst)
    else:
      E = t_join(ip, T[2], v, hs.lam(t) if hs and not isinstance(hs.lam.body, Poison) else None, pst)
    return ('seq', D, E, t)
  if k == 'obj':
    if not isinstance(c, Obj) or c.cls is not T[1]:
      return ('poisonc', 'type changes')
    hf = head.f if isinstance(head, Obj) else {}
    out = {}
    for f in set(T[2]) | set(c.f):
      if f not in T[2] or f not in c.f:
        out[f] = ('poison', f'attribute {f} is not always set')
      else:
        out[f] = t_join(ip, T[2][f], c.f[f], hf.get(f), ps)
    return ('obj', T[1], out)
  if k == 'fam':
    qs = T[1]
    if not isinstance(c, Fam):
      return ('poisonc', 'type changes')
    hc = subst(head.cell, list(zip(head.params, qs))) if isinstance(head, Fam) else None
    return ('fam', qs, c_join(ip, T[2], ip_fam(ip, c, qs), hc, tuple(ps) + qs))
  if k == 'arr':
    if not isinstance(c, Arr) or len(c.dims) != len(T[1]) or not all(veq_syn(x, y) for x, y in zip(c.dims, T[1])):
      return ('poisonc', 'array shape changes')
    qs = T[3]
    hv = head.lam(*qs) if isinstance(head, Arr) else None
    return ('arr', T[1], t_join(ip, T[2], c.lam(*qs), hv, tuple(ps) + qs), qs, c.dt)
  raise Unsupported('template cell')


# ---- instantiation: build values, registering leaves
def t_inst(h, T, ps, path):
  k = T[0]
  if k == 'same':
    return subst(T[1], list(zip(T[2], ps))) if T[2] else T[1]
  if k == 'poison':
    return Poison(T[1])
  if k == 'bool':
    return mkbool(h.leaf(path, ('bool',), ps))
  if k == 'num':
    return h.num(path, T, ps)
  if k == 'opq':
    return Opaque(h.leaf(path, ('opq', T[1].name()), ps, T[1]), T[2])
  if k == 'tuple':
    return tuple(t_inst(h, x, ps, path + (i,)) for i, x in enumerate(T[1]))
  if k == 'cell':
    return h.ip.alloc(c_inst(h, T[1], ps, path + ('*',)))
  raise Unsupported('template')


def c_inst(h, T, ps, path):
  k = T[0]
  if k == 'samec':
    return subst(T[1], list(zip(T[2], ps))) if T[2] else T[1]
  if k == 'poisonc':
    raise Unsupported(T[1])
  if k == 'pyl':
    return PyL(t_inst(h, x, ps, path + (i,)) for i, x in enumerate(T[1]))
  if k == 'seq':
    D, E, _ = T[1], T[2], T[3]
    t = param('t')
    if D[0] == 'same':
      d = subst(D[1], list(zip(D[2], ps))) if D[2] else D[1]
    elif D[0] == 'len':
      n = h.num(path + ('len',), ('num', True, False, False), ps)
      h.facts.append(forall(list(ps), n.v >= 0))
      d = Dim(n.v)
    elif D[0] == 'keep':
      n0 = zsub(iv(D[1]), list(zip(D[2], ps))) if D[2] else D[1]
      kp = h.leaf(path + ('keep',), ('bool',), tuple(ps) + (t,))
      d = Dim(n0, Lam((t,), mkbool(kp)))
    else:
      return Seq(Dim(0), Lam((t,), Poison('list not tracked'))) if False else _raise('list filtered in a loop')
    if E is None:
      return Seq(d, Lam((t,), Poison('element of an empty list')))
    return Seq(d, Lam((t,), t_inst(h, E, tuple(ps) + (t,), path + ('el',))))
  if k == 'obj':
    return Obj(T[1], {f: t_inst(h, x, ps, path + (f,)) for f, x in T[2].items()})
  if k == 'fam':
    qs = tuple(param('f', q.sort()) for q in T[1])
    return Fam(qs, c_inst(h, T[2], tuple(ps) + qs, path + ('fam',)))
  if k == 'arr':
    qs = tuple(param('a', q.sort()) for q in T[3])
    return Arr(T[1], Lam(qs, t_inst(h, T[2], tuple(ps) + qs, path + ('el',))), T[4])
  raise Unsupported('template cell')


def _raise(m):
  raise Unsupported(m)


def _leaf(h, path, sig, ps, sort=None):
  ip = h.ip
  full = tuple(ip.bound) + tuple(ps)
  sg = sig + tuple(p.sort().name() for p in ps)
  h.leaves[path] = (sg, ps)
  c = h.cls.setdefault(path, ('new', sg))
  nm = h.sym.setdefault((c, sg), f'W{len(h.sym)}!{h.tag}')
  srt = sort if sort is not None else (B if sig[0] == 'bool' else I if sig[0] == 'int' else R)
  f = z3.Function(nm, *[p.sort() for p in full], srt) if full else None
  return f(*full) if full else z3.Const(nm + '@', srt)


def _num(h, path, T, ps):
  _, isint, xr, np = T
  if not xr:
    return Num(h.leaf(path, ('int',) if isint else ('real',), ps), FIN, np)
  t = h.leaf(path, ('xr',), ps)
  full = tuple(h.ip.bound) + tuple(ps)
  nm = t.decl().name() + 'k'
  k = z3.Function(nm, *[p.sort() for p in full], I)(*full) if full else z3.Const(nm, I)
  h.facts.append(forall(list(ps), z3.And(k >= 0, k <= 3)))
  return Num(t, k, np)


Head.leaf = _leaf
Head.num = _num


def leafvals(ip, T, v, ps, path, dom, out):
  """Collect (path -> (value, params, domain)) of an actual value."""
  k = T[0]
  if k in ('same', 'poison'):
    return
  if k in ('bool', 'num', 'opq'):
    out[path] = (v, tuple(ps), dom)
  elif k == 'tuple':
    for i, (x, y) in enumerate(zip(T[1], v)):
      leafvals(ip, x, y, ps, path + (i,), dom, out)
  elif k == 'cell':
    cleafvals(ip, T[1], ip.cell(v), ps, path + ('*',), dom, out)


def cleafvals(ip, T, c, ps, path, dom, out):
  k = T[0]
  if k in ('samec', 'poisonc'):
    return
  if k == 'pyl':
    for i, (x, y) in enumerate(zip(T[1], c.items)):
      leafvals(ip, x, y, ps, path + (i,), dom, out)
  elif k == 'seq':
    s = ip.as_seq(c)
    t = param('t')
    if T[1][0] == 'len':
      out[path + ('len',)] = (lower(Num(s.dim.zn)), tuple(ps), dom)
    elif T[1][0] == 'keep':
      kp = mkbool(tb(s.dim.keep(t))) if s.dim.keep is not None else True
      out[path + ('keep',)] = (kp, tuple(ps) + (t,), And(dom, s.dim.inrange(t)))
    if T[2] is not None:
      b = s.lam(t)
      if not isinstance(b, Poison):
        leafvals(ip, T[2], b, tuple(ps) + (t,), path + ('el',), And(dom, s.dim.dom(t)), out)
      else:
        empties(T[2], tuple(ps) + (t,), path + ('el',), out)
  elif k == 'obj':
    for f, x in T[2].items():
      leafvals(ip, x, c.f[f], ps, path + (f,), dom, out)
  elif k == 'fam':
    qs = tuple(param('f', q.sort()) for q in T[1])
    cleafvals(ip, T[2], ip.fam_at(c, qs), tuple(ps) + qs, path + ('fam',), dom, out)
  elif k == 'arr':
    qs = tuple(param('a', q.sort()) for q in T[3])
    d = And(dom, *[x.dom(q) for x, q in zip(c.dims, qs)])
    leafvals(ip, T[2], c.lam(*qs), tuple(ps) + qs, path + ('el',), d, out)


def empties(T, ps, path, out):
  k = T[0]
  if k in ('bool', 'num', 'opq'):
    out[path] = (None, tuple(ps), False)
  elif k == 'tuple':
    for i, x in enumerate(T[1]):
      empties(x, ps, path + (i,), out)


def loc_template(ip, base, loc):
  v0 = getloc(base, loc)
  if loc[0] == 'h' and len(loc) == 2:
    return ('samec', v0, ())
  return ('same', v0, ())


class _Exit(Exception):
  pass


def while_loop(ip, s, env):
  key = (ip.scope, ip.cnt, id(s), ip.dry > 0, len(ip.pc))
  if key not in ip.loopcache:
    ip.loopcache[key] = while_summary(ip, s, env)
  exits, after = ip.loopcache[key]
  if not exits:
    raise Infeasible()
  i = ip.choose(len(exits))
  o = exits[i]
  scope, cnt = ip.scope, ip.cnt
  depth = ip.depth
  ip.restore(o.state)
  ip.scope, ip.cnt, ip.nsub, ip.depth = scope + f'w{i}', 0, 0, depth
  if o.kind == 'return':
    raise ReturnEx(o.val)
  if o.kind == 'raise':
    raise SymRaise(o.val.cls, o.val.args)
  if o.kind == 'ok' and s.orelse:
    ip.exec_block(s.orelse, env)


def while_summary(ip, s, env):
  hook = ip.hooks.get('loop_head')
  outer = ip.loopdepth == 0
  ip.flatten()
  if hook and outer:
    hook(ip)
    ip.flatten()
  base = ip.snapshot()
  cnt0 = ip.cnt
  T = {}
  cls = {}
  dropped = set()
  tag = ip.newname('w').split('@')[1]
  cnt0 = ip.cnt

  def iteration():
    if not ip.branch(ip.truth(ip.eval(s.test, env))):
      return 'exit'
    try:
      ip.exec_block(s.body, env)
    except ContinueEx:
      pass
    ip.flatten()
    if hook and outer:
      hook(ip)
      ip.flatten()
    return 'back'

  def autos(h):
    """Candidate invariants: (name, formula)."""
    out = []
    seen = set()
    for path, (sg, ps) in h.leaves.items():
      c = h.cls[path]
      if (c, sg) in seen:
        continue
      seen.add((c, sg))
      full = tuple(ps)
      nm = h.sym[(c, sg)]
      fl = tuple(ip.bound) + full
      def mk(n, sort):
        return z3.Function(n, *[p.sort() for p in fl], sort)(*fl) if fl else z3.Const(n + ('@' if n == nm else ''), sort)
      if sg[0] == 'int':
        out.append((f'nonneg:{path}', forall(list(full), mk(nm, I) >= 0)))
      if sg[0] == 'xr':
        kk = mk(nm + 'k', I) if fl else z3.Const(nm + '@k', I)
        out.append((f'notnan:{path}', forall(list(full), kk <= 2)))
        out.append((f'fin:{path}', forall(list(full), kk == 0)))
    return out

  def head(dry):
    ip.restore(base)
    ip.cnt = cnt0
    h = Head(ip)
    h.tag = tag
    h.cls = cls
    h.sym = {}
    for i, p in enumerate(sorted({(c) for c in cls.values()}, key=str)):
      pass
    hv = {}
    for loc, t in T.items():
      v = c_inst(h, t, (), (loc,)) if is_cellT(t) else t_inst(h, t, (), (loc,))
      hv[loc] = v
      putloc(ip, loc, v)
    for f in h.facts:
      ip.fact(f)
    h.cands = autos(h) + [(n, fn(ip)) for n, fn in ip.ghost_inv]
    for n, f in h.cands:
      if n not in dropped:
        ip.fact(zb(f))
    return h, hv

  def cand_at(ip, h, lv, n, f):
    """Candidate formula evaluated on actual leaf values: substitute."""
    return f

  for rnd in range(40):
    h, hv = head(1)
    hstate = ip.snapshot()
    ip.dry += 1
    ip.loopdepth += 1
    try:
      outs = ip.explore(iteration)
    finally:
      ip.dry -= 1
      ip.loopdepth -= 1
    back = [o for o in outs if o.kind == 'ok' and o.val == 'back']
    changed = False
    for o in back:
      ip.restore(o.state)
      for loc in locs_changed(hstate, o.state):
        if loc[0] in ('n', 'ng') or loc in T:
          continue
        if loc[0] == 'h' and len(loc) == 3 and getloc(base, loc) is MISSING:
          continue
        if loc[0] == 'h' and loc[1] not in base[0]:
          continue
        T[loc] = loc_template(ip, base, loc)
        changed = True
      for loc in list(T):
        v = getloc(o.state, loc)
        hd = hv.get(loc, getloc(base, loc))
        t = T[loc]
        t2 = c_join(ip, t, v, hd, ()) if is_cellT(t) else t_join(ip, t, v, hd, ())
        if not teq(t, t2):
          T[loc] = t2
          changed = True
    if changed:
      cls.clear()
      continue
    # ---- equality classes and candidate invariants
    lv0 = {}
    ip.restore(base)
    for loc, t in T.items():
      v = getloc(base, loc)
      (cleafvals if is_cellT(t) else leafvals)(ip, t, v, (), (loc,), True, lv0)
    if not cls_ready(cls, h):
      for p in h.leaves:
        cls[p] = ('c',) + h.leaves[p][0]
      split(ip, base, h, cls, lv0)
      continue
    ch = False
    bad = []
    for o in back:
      ip.restore(o.state)
      lv = {}
      for loc, t in T.items():
        (cleafvals if is_cellT(t) else leafvals)(ip, t, getloc(o.state, loc), (), (loc,), True, lv)
      if split(ip, o.state, h, cls, lv):
        ch = True
    if ch:
      continue
    bad = houdini(ip, base, back, h, T, cls, lv0, dropped)
    if bad:
      continue
    break
  else:
    raise Unsupported('no inductive invariant found for a while loop')
  if not ip.dry:
    h, hv = head(0)
    ip.loopdepth += 1
    try:
      outs = ip.explore(iteration)
    finally:
      ip.loopdepth -= 1
    from vc.interp import Obligation
    for n, f in h.cands:
      if n not in dropped:
        ip.obligations.append(Obligation(f'loop invariant {n}', 'discharged', '', ip.where))
    for c in {v for v in cls.values()}:
      m = [p for p in cls if cls[p] == c]
      if len(m) > 1:
        ip.obligations.append(Obligation(f'loop invariant equal: {m}', 'discharged', '', ip.where))
  exits = [o for o in outs if not (o.kind == 'ok' and o.val == 'back')]
  ip.restore(base)
  ip.cnt = cnt0
  return exits, None


def teq(a, b):
  """Templates equal up to irrelevant parameter names."""
  if type(a) is not type(b):
    return False
  if isinstance(a, z3.AstRef):
    return True
  if isinstance(a, tuple) or isinstance(a, list):
    if len(a) != len(b):
      return False
    if a and isinstance(a, tuple) and isinstance(a[0], str) and a[0] in ('same', 'samec', 'poison', 'poisonc'):
      return a[0] == b[0]
    return all(teq(x, y) for x, y in zip(a, b))
  if isinstance(a, dict):
    return set(a) == set(b) and all(teq(a[k], b[k]) for k in a)
  if isinstance(a, (str, int, bool, type(None))):
    return a == b
  return True


def is_cellT(t):
  return t[0] in ('samec', 'poisonc', 'pyl', 'seq', 'obj', 'fam', 'arr')


def cls_ready(cls, h):
  return set(cls) == set(h.leaves) and not any(c[0] == 'new' for c in cls.values())


def same_leaf(ip, a, b, psa, psb, dom):
  if a is None or b is None:
    return True
  b = subst(b, list(zip(psb, psa))) if psb else b
  if isnumeric(a) and isnumeric(b):
    if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)):
      return False
  eq = ip.same(a, b)
  return forall(list(psa), Implies(dom, eq))


def split(ip, state, h, cls, lv):
  """Split classes whose members are not provably equal in this state."""
  groups = {}
  for p, c in cls.items():
    groups.setdefault(c, []).append(p)
  changed = False
  for c, ms in groups.items():
    if len(ms) < 2:
      continue
    reps = []
    for m in ms:
      if m not in lv:
        reps.append([m])
        continue
      a, psa, dom = lv[m]
      for r in reps:
        if r[0] not in lv:
          continue
        b, psb, domb = lv[r[0]]
        f = same_leaf(ip, a, b, psa, psb, dom)
        if f is True or (f is not False and ip.prove(f, timeout=4, quick=True, light=True)):
          r.append(m)
          break
      else:
        reps.append([m])
    if len(reps) > 1:
      changed = True
      for i, r in enumerate(reps):
        for m in r:
          cls[m] = c + (i,)
  return changed


def houdini(ip, base, back, h, T, cls, lv0, dropped):
  """Drop candidates that fail at entry or after an iteration."""
  bad = set()
  for st in [base] + [o.state for o in back]:
    ip.restore(st)
    lv = {}
    for loc, t in T.items():
      (cleafvals if is_cellT(t) else leafvals)(ip, t, getloc(st, loc), (), (loc,), True, lv)
    for n, f in auto_at(ip, lv):
      if n not in dropped and n not in bad and any(n == x for x, _ in h.cands):
        if f is not True and not ip.prove(zb(f), timeout=4, quick=True, light=True):
          bad.add(n)
    for n, fn in ip.ghost_inv:
      if n not in dropped and n not in bad:
        f = fn(ip)
        if f is not True and not ip.prove(zb(f), timeout=6):
          bad.add(n)
  dropped |= bad
  return bad


def auto_at(ip, lv):
  out = []
  for p, (v, ps, dom) in lv.items():
    if v is None or isinstance(v, (bool, SBool)) or not isinstance(v, (int, Fraction, Num)):
      continue
    n = lift(v)
    if n.isint:
      out.append((f'nonneg:{p}', forall(list(ps), Implies(dom, n_le(0, n)))))
    out.append((f'notnan:{p}', forall(list(ps), Implies(dom, Not(isk(n, NAN))))))
    out.append((f'fin:{p}', forall(list(ps), Implies(dom, isk(n, FIN)))))
  return out
