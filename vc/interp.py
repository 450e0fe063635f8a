"""Symbolic executor over the Python AST of the package under verification."""
import ast
import os
import sys
import z3
from vc import poly
from vc import prover
from vc.terms import *
from vc.values import *

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'causal_effect_bandits'

EXC_BASES = {
    'ValueError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'LookupError': 'Exception', 'TypeError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'ArithmeticError': 'Exception', 'AttributeError': 'Exception', 'AssertionError': 'Exception',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'Exception': 'BaseException',
    'StopIteration': 'Exception', 'NameError': 'Exception', 'UnboundLocalError': 'NameError',
    'BaseException': None, 'FloatingPointError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'AnyError': 'Exception',
}


def exc_is(name, base):
  while name is not None:
    if name == base:
      return True
    name = EXC_BASES.get(name)
  return False


RAISED, WHERE = [''], ['']  # where the last exception of the code came from


class SymRaise(Exception):

  def __init__(self, cls, args=()):
    super().__init__(cls)
    self.cls, self.eargs = cls, args
    f = sys._getframe(1)
    RAISED[0] = (RAISED[0] + ' < ' if 0 else '') + f'{WHERE[0]} ({os.path.basename(f.f_code.co_filename)}:{f.f_lineno})'


class ReturnEx(Exception):

  def __init__(self, v):
    super().__init__()
    self.v = v


class BreakEx(Exception):
  pass


class ContinueEx(Exception):
  pass


class Infeasible(Exception):
  pass


class Outcome:
  """One path of a sub-exploration."""

  def __init__(self, kind, val, state, conds, facts):
    self.kind, self.val, self.state = kind, val, state
    self.conds, self.facts = conds, facts

  def cond(self):
    return And(*self.conds)


class Env:
  __slots__ = ('fid', 'parent', 'globals_')

  def __init__(self, fid, parent, globals_):
    self.fid, self.parent, self.globals_ = fid, parent, globals_


class ModuleVal:

  def __init__(self, name, ns):
    self.name, self.ns = name, ns


class Obligation:

  def __init__(self, name, status, detail='', where='', key=None):
    self.name, self.status, self.detail, self.where = name, status, detail, where
    self.key = key


class KW(dict):
  """Keyword arguments that remember which of them the library contract looked at."""

  def __init__(self, kw):
    super().__init__(kw)
    self.left = set(kw)

  def __getitem__(self, k):
    self.left.discard(k)
    return super().__getitem__(k)

  def get(self, k, d=None):
    self.left.discard(k)
    return super().get(k, d)

  def pop(self, k, *d):
    self.left.discard(k)
    return super().pop(k, *d)

  def items(self):
    self.left = set()
    return super().items()

  def values(self):
    self.left = set()
    return super().values()


def tracked(ip, fn, name, kw, *args):
  """Calls a library contract; a keyword it ignored is outside the verified subset."""
  if not kw:
    return fn(ip, *args, kw)
  k = kw if isinstance(kw, KW) else KW(kw)
  r = fn(ip, *args, k)
  for x in k.left:
    v = dict.get(k, x)
    if v is None or x == 'order' and v in ('C', 'K') or x == 'copy' and v is True:
      continue
    raise Unsupported(f'keyword {x} of {name}')
  return r


class Interp:
  """One verification run over the current source."""

  def __init__(self, libs):
    self.libs = libs  # dict: dotted name -> callable or constant
    self.modules = {}
    self.obligations = []
    self.trusted = set()
    self.under_contract = set()
    self.inlined = set()
    self.contracts = {}  # qualname -> fn(interp, args, kwargs)
    self.hooks = {}
    self.dry = 0
    self.heap = {}
    self.frames = {}
    self.ghost = {}
    self.viewed = frozenset()
    self.pc = []  # list of (tag, formula) ; tag 'c' branch, 'f' fact
    self.decisions = []
    self.pos = 0
    self.pending = None
    self.scope = 's'
    self.cnt = 0
    self.bound = []  # bound position constants of generic contexts
    self.readlog = []  # stack of lists of (oid, idx)
    self.nsub = 0
    self.loopcache = {}
    self.depth = 0
    self.where = ''
    self.ghost_bounds = []  # (name, fn(interp)->Num) candidate upper bounds
    self.ghost_inv = []  # (name, fn(interp)->formula) candidate invariants
    self.on_backedge = None
    self.events = []
    self.tainted = set()
    self.loopdepth = 0

  # ------------------------------------------------------------ names, facts
  def newname(self, base):
    self.cnt += 1
    return f'{base}@{scope_id(self.scope)}.{self.cnt}'

  def fresh(self, base, sort, deps=None):
    """Fresh symbol; inside generic contexts a function of the position."""
    bs = self.bound
    if deps is not None:
      names = set()
      for d in deps:
        names |= vconsts(d)
      bs = [b for b in bs if b.decl().name() in names]
    nm = self.newname(base)
    if not bs:
      return z3.Const(nm, sort)
    f = z3.Function(nm, *[b.sort() for b in bs], sort)
    return f(*bs)

  def fresh_fn(self, base, argsorts, sort):
    """Fresh function symbol (curried over the bound positions)."""
    nm = self.newname(base)
    bs = list(self.bound)
    f = z3.Function(nm, *[b.sort() for b in bs], *argsorts, sort)
    return lambda *a: f(*bs, *a)

  def fresh_real(self, base, deps=None, np=False):
    return Num(self.fresh(base, R, deps), FIN, np)

  def fresh_xr(self, base, nan=True):
    k = self.fresh(base + '_k', I)
    v = self.fresh(base, R)
    self.fact(z3.And(k >= 0, k <= (3 if nan else 2)))
    return Num(v, k)

  def fresh_int(self, base, lo=None):
    n = Num(self.fresh(base, I))
    if lo is not None:
      self.fact(n.v >= lo)
    return n

  def fact(self, f):
    """A definitional truth (quantified over the bound positions on exit)."""
    if f is True:
      return
    self.pc.append(('f', zb(f)))

  def assume(self, f):
    if f is True:
      return
    self.pc.append(('c', zb(f)))

  def hyps(self):
    return [f for _, f in self.pc]

  def prove(self, goal, timeout=8.0, quick=False, light=False):
    if isinstance(goal, bool):
      if goal:
        return True
    return prover.prove(self.hyps(), goal, timeout=timeout, quick=quick, light=light) == 'proved'

  def oblige(self, name, goal, detail=''):
    """Record a proof obligation under the current path."""
    if self.dry:
      return
    g = goal
    if isinstance(g, SBool):
      g = g.b
    r = prover.prove(self.hyps(), zb(g), timeout=15)
    st = 'discharged' if r == 'proved' else r
    d = detail
    if st != 'discharged':
      d = (detail + ' | goal: ' + str(z3.simplify(zb(g)))[:1500])
    key = (zb(g).get_id(), tuple(sorted(h.get_id() for h in self.hyps())))
    self.obligations.append(Obligation(name, st, d, self.where, key))
    return st == 'discharged'

  # ------------------------------------------------------------ branching
  def branch(self, cond):
    """Decide a formula on this path (forks the exploration)."""
    if isinstance(cond, SBool):
      cond = cond.b
    if isinstance(cond, bool):
      return cond
    cond = z3.simplify(cond) if z3.is_app(cond) and cond.num_args() == 0 else cond
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    lab = (self.scope, 'B', prover.node(cond).key)
    d = self.replayed(lab)
    if d is None:
      h = self.hyps()
      q = dict(timeout=4.0, quick=True, light=True)
      hz = [zb(x) for x in h]
      if prover.quick_qf(hz, cond):
        d = 't!'
      elif prover.prove(h, z3.Not(cond), **q) == 'proved':
        d = 'f!'
      elif prover.prove(h, cond, **q) == 'proved':
        d = 't!'
      else:
        d = 't'
        self.pending.append(self.decisions[:self.pos] + [(lab, 'f')])
        self.decisions.insert(self.pos, (lab, d))
        self.pos += 1
    val = d[0] == 't'
    if len(d) == 1:
      self.scope = self.scope + d
      self.cnt = 0
      self.nsub = 0
      self.assume(cond if val else Not(cond))
    else:
      # implied by the path: remember as a lemma
      self.pc.append(('l', zb(cond if val else Not(cond))))
    return val

  def replayed(self, lab):
    """The recorded decision of this fork; forks that a prover answer has
    since made unnecessary are skipped."""
    for j in range(self.pos, len(self.decisions)):
      if self.decisions[j][0] == lab:
        del self.decisions[self.pos:j]
        self.pos += 1
        return self.decisions[self.pos - 1][1]
    return None

  def choose(self, n):
    """Nondeterministic choice among n alternatives."""
    if n == 1:
      return 0
    lab = (self.scope, 'C', n)
    d = self.replayed(lab)
    if d is None:
      d = '0'
      for i in range(n - 1, 0, -1):
        self.pending.append(self.decisions[:self.pos] + [(lab, str(i))])
      self.decisions.insert(self.pos, (lab, d))
      self.pos += 1
    self.scope = self.scope + '#' + d
    self.cnt = 0
    self.nsub = 0
    return int(d)

  def snapshot(self):
    return (dict(self.heap), {k: dict(v) for k, v in self.frames.items()},
            dict(self.ghost), list(self.pc), self.scope, self.cnt, self.nsub,
            list(self.bound), self.depth, self.viewed, set(self.tainted), list(self.events))

  def restore(self, s):
    self.heap = dict(s[0])
    self.frames = {k: dict(v) for k, v in s[1].items()}
    self.ghost = dict(s[2])
    self.pc = list(s[3])
    self.scope, self.cnt, self.nsub = s[4], s[5], s[6]
    self.bound = list(s[7])
    self.depth = s[8]
    self.viewed = s[9]
    self.tainted = set(s[10])
    self.events = list(s[11])

  def explore(self, fn, maxpaths=400):
    """All paths of fn from the current state (state restored afterwards)."""
    base = self.snapshot()
    base_pc = len(self.pc)
    saved = (self.decisions, self.pos, self.pending)
    self.nsub += 1
    sub = f'{self.scope}/{self.nsub}:'
    outs = []
    work = [[]]
    first = None
    while work:
      pre = work.pop()
      self.restore(base)
      self.scope = sub
      self.cnt = 0
      self.nsub = 0
      self.decisions, self.pos = list(pre), 0
      self.pending = work
      try:
        try:
          v = fn()
          kind = 'ok'
        except ReturnEx as e:
          kind, v = 'return', e.v
        except BreakEx:
          kind, v = 'break', None
        except ContinueEx:
          kind, v = 'continue', None
        except SymRaise as e:
          kind, v = 'raise', ExcV(e.cls, e.eargs)
      except Infeasible:
        continue
      new = self.pc[base_pc:]
      outs.append(
          Outcome(kind, v, self.snapshot(), [f for t, f in new if t == 'c'],
                  [f for t, f in new if t == 'f']))
      if len(outs) > maxpaths:
        raise Unsupported('too many paths')
    self.restore(base)
    self.nsub = base[6] + 1
    self.decisions, self.pos, self.pending = saved
    return outs

  # ------------------------------------------------------------ heap
  def alloc(self, cell):
    oid = self.newname('o')
    self.heap[oid] = cell
    return Ref(oid)

  def alloc_at(self, cell):
    """Allocate contents that may depend on position parameters."""
    ps = free_params(cell)
    if not ps:
      return self.alloc(cell)
    qs = [param('f', p.sort()) for p in ps]
    r = self.alloc(Fam(qs, subst(cell, list(zip(ps, qs)))))
    return Ref(r.oid, tuple(ps))

  def cell(self, ref):
    c = self.heap.get(ref.oid)
    if c is None:
      raise Unsupported(f'dangling reference {ref.oid}')
    if ref.oid in self.tainted:
      raise Unsupported('reading state left half-modified by a loop that raised')
    if isinstance(c, Fam):
      for log in self.readlog:
        log.append((ref.oid, ref.idx))
      return self.fam_at(c, ref.idx)
    for log in self.readlog:
      log.append((ref.oid, ()))
    return c

  def fam_at(self, c, idx):
    idx = [z3.IntVal(i) if isinstance(i, int) else i for i in idx]
    live = []
    base = None
    for ix, v in reversed(c.writes):
      eqs = [True if a.eq(b) else
             (False if is_num(a) and is_num(b) else a == b) for a, b in zip(ix, idx)]
      e = And(*eqs)
      if e is True:
        base = v
        break
      if e is False:
        continue
      live.append((e, v))
    if base is None:
      base = subst(c.cell, list(zip(c.params, idx)))
    keep = self.unwritten(c) if live else {}
    for e, v in reversed(live):
      if self.prove(Not(e), timeout=1.0, quick=True):
        continue
      old = base
      base = self.merge_cells(e, v, base)
      if keep and isinstance(old, Obj) and isinstance(base, Obj):
        base = Obj(base.cls, {**base.f, **{k: old.f[k] for k in keep if k in old.f}})
    return base

  def unwritten(self, c):
    """Fields that every pending write leaves as in the family's cell."""
    if not isinstance(c.cell, Obj):
      return ()
    out = set(c.cell.f)
    for ix, v in c.writes:
      if not isinstance(v, Obj) or v.cls is not c.cell.cls:
        return ()
      o = subst(c.cell, list(zip(c.params, ix)))
      out = {k for k in out if k in v.f and veq_syn(v.f[k], o.f[k])}
    return out

  def setcell(self, ref, cell):
    c = self.heap[ref.oid]
    if isinstance(c, Fam):
      idx = tuple(z3.IntVal(i) if isinstance(i, int) else i for i in ref.idx)
      w = [(ix, v) for ix, v in c.writes if not all(a.eq(b) for a, b in zip(ix, idx))]
      self.heap[ref.oid] = Fam(c.params, c.cell, w + [(idx, cell)])
    else:
      self.heap[ref.oid] = cell

  def flatten(self):
    """Merge pending single-index writes of families into their cells."""
    for oid, c in list(self.heap.items()):
      if isinstance(c, Fam) and c.writes:
        v = self.fam_at(c, c.params)
        self.heap[oid] = Fam(c.params, v)

  def arr(self, dims, lam, dt='f'):
    return self.alloc(Arr(dims, lam, dt))

  # ------------------------------------------------------------ merging
  def merge_cells(self, c, a, b):
    if a is b:
      return a
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls:
      ks = set(a.f) | set(b.f)
      f = {}
      for k in ks:
        if k not in a.f or k not in b.f:
          f[k] = Poison(f'attribute {k} only set on one path')
          continue
        try:
          f[k] = self.merge(c, a.f[k], b.f[k])
        except Unsupported as e:
          f[k] = Poison(str(e))
      return Obj(a.cls, f)
    if isinstance(a, PyL) and isinstance(b, PyL) and len(a.items) == len(b.items):
      return PyL(self.merge(c, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, (PyL, Seq)) and isinstance(b, (PyL, Seq)):
      return self.merge_seq(c, self.as_seq(a), self.as_seq(b))
    if isinstance(a, Arr) and isinstance(b, Arr):
      return self.merge_arr(c, a, b)
    if isinstance(a, PyD) and isinstance(b, PyD) and list(a.d) == list(b.d):
      return PyD({k: self.merge(c, a.d[k], b.d[k]) for k in a.d}, a.default)
    if isinstance(a, PyD) and isinstance(b, MapD):
      a = MapD(b.sort, Lam(b.dom.params, False), b.val, b.default) if not a.d else a
    if isinstance(b, PyD) and isinstance(a, MapD):
      b = MapD(a.sort, Lam(a.dom.params, False), a.val, a.default) if not b.d else b
    if isinstance(a, MapD) and isinstance(b, MapD):
      return MapD(a.sort, self.merge(c, a.dom, b.dom), self.merge(c, a.val, b.val), a.default)
    if type(a) is type(b) and isinstance(a, FamD) and a is b:
      return a
    if isinstance(a, FamD) and isinstance(b, FamD) and veq_syn(a, b):
      return a
    if isinstance(a, PlaceL) and isinstance(b, PlaceL) and a.tag == b.tag and not a.app and not b.app:
      return a
    raise Unsupported(f'cannot merge {type(a).__name__} with {type(b).__name__}')

  def as_seq(self, c):
    if isinstance(c, Seq):
      return c
    p = param()
    n = len(c.items)
    if n == 0:
      return Seq(Dim(0), Lam((p,), Poison('element of an empty list')))
    v = c.items[-1]
    for i in range(n - 2, -1, -1):
      v = self.merge(p == i, c.items[i], v)
    return Seq(Dim(n), Lam((p,), v))

  def merge_seq(self, c, a, b):
    p = a.lam.params[0]
    if a.dim.keep is None and b.dim.keep is None:
      n = Ite(c, a.dim.zn, b.dim.zn)
      if isinstance(a.dim.n, int) and a.dim.n == 0:
        lam = b.lam
      elif isinstance(b.dim.n, int) and b.dim.n == 0:
        lam = a.lam
      else:
        lam = Lam((p,), self.merge(c, a.lam.body, b.lam(p)))
      return Seq(Dim(n), lam)
    if veq_syn(a.dim.n, b.dim.n):
      ka = tb(a.dim.keep(p)) if a.dim.keep else True
      kb = tb(b.dim.keep(p)) if b.dim.keep else True
      return Seq(Dim(a.dim.n, Lam((p,), mkbool(Ite(c, ka, kb)))),
                 Lam((p,), self.merge(c, a.lam.body, b.lam(p))))
    raise Unsupported('merge of filtered lists')

  def merge_arr(self, c, a, b):
    if a.ndim != b.ndim:
      raise Unsupported('merge of arrays of different rank')
    dims = []
    for x, y in zip(a.dims, b.dims):
      if veq_syn(x.n, y.n) and veq_syn(x.keep, y.keep):
        dims.append(x)
      elif x.keep is None and y.keep is None:
        dims.append(Dim(Ite(c, x.zn, y.zn)))
      else:
        raise Unsupported('merge of filtered arrays')
    ps = a.lam.params
    dt = a.dt if a.dt == b.dt else ('o' if 'o' in (a.dt, b.dt) else 'f')
    return Arr(dims, Lam(ps, self.merge(c, a.lam.body, b.lam(*ps))), dt)

  def merge(self, c, a, b):
    """Value that is a where c holds and b elsewhere."""
    if c is True:
      return a
    if c is False:
      return b
    if a is b or veq_syn(a, b):
      return a
    if isnumeric(a) and isnumeric(b):
      if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(Ite(c, tb(a), tb(b)))
      return n_ite(c, a, b)
    if isinstance(a, Poison) or isinstance(b, Poison):
      return a if isinstance(a, Poison) else b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
      return tuple(self.merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.t.sort() == b.t.sort():
      return Opaque(z3.If(c, a.t, b.t), a.tag)
    if isinstance(a, (OpaqueStr, str)) and isinstance(b, (OpaqueStr, str)):
      return OpaqueStr()
    if isinstance(a, Ref) and isinstance(b, Ref):
      if a.oid == b.oid:
        return Ref(a.oid, tuple(Ite(c, iv(x), iv(y)) for x, y in zip(a.idx, b.idx)))
      ca, cb = self.cell(a), self.cell(b)
      if isinstance(ca, Arr) and isinstance(cb, Arr):
        return self.alloc_at(self.merge_arr(c, ca, cb))
      if isinstance(ca, (PyL, Seq)) and isinstance(cb, (PyL, Seq)):
        return self.alloc_at(self.merge_cells(c, ca, cb))
      if isinstance(ca, Obj) and isinstance(cb, Obj) and ca.cls is cb.cls:
        return self.alloc_at(self.merge_cells(c, ca, cb))
    if isinstance(a, Lam) and isinstance(b, Lam):
      return Lam(a.params, self.merge(c, a.body, b(*a.params)))
    raise Unsupported(f'cannot merge {type(a).__name__} with {type(b).__name__}')

  # ------------------------------------------------------------ equality
  def same(self, a, b, depth=0):
    """Formula: a and b are the same value (deep, nan same as nan)."""
    if a is b:
      return True
    if depth > 8:
      raise Unsupported('deep comparison')
    if isnumeric(a) and isnumeric(b):
      if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return Iff(tb(a), tb(b))
      return n_same(a, b)
    if a is None or b is None:
      return a is b
    if isinstance(a, tuple) and isinstance(b, tuple):
      if len(a) != len(b):
        return False
      return And(*[self.same(x, y, depth + 1) for x, y in zip(a, b)])
    if isinstance(a, Opaque) and isinstance(b, Opaque):
      if a.t.sort() != b.t.sort():
        return False
      return True if a.t.eq(b.t) else a.t == b.t
    if isinstance(a, str) or isinstance(b, str):
      return a == b if isinstance(a, str) and isinstance(b, str) else False
    if isinstance(a, EnumVal) and isinstance(b, EnumVal):
      return a.cls is b.cls and a.name == b.name
    if isinstance(a, Ref) and isinstance(b, Ref):
      if a.oid == b.oid:
        return And(*[
            True if iv(x).eq(iv(y)) else iv(x) == iv(y)
            for x, y in zip(a.idx, b.idx)
        ])
      return self.same_cell(self.cell(a), self.cell(b), depth + 1)
    if isinstance(a, (Arr, Seq, PyL, PyD, Obj)) and isinstance(b, (Arr, Seq, PyL, PyD, Obj)):
      return self.same_cell(a, b, depth + 1)
    if isinstance(a, Lib) and isinstance(b, Lib):
      return a.name == b.name
    if isinstance(a, FuncVal) and isinstance(b, FuncVal):
      return a.node is b.node and a.env is b.env
    if isinstance(a, BoundM) and isinstance(b, BoundM):
      return And(self.same(a.fn, b.fn, depth + 1), self.same(a.self_, b.self_, depth + 1))
    return False

  def same_cell(self, a, b, depth=0):
    if isinstance(a, Obj) and isinstance(b, Obj):
      if a.cls is not b.cls or set(a.f) != set(b.f):
        return False
      return And(*[self.same(a.f[k], b.f[k], depth + 1) for k in a.f])
    if isinstance(a, PyL) and isinstance(b, PyL):
      if len(a.items) != len(b.items):
        return False
      return And(*[self.same(x, y, depth + 1) for x, y in zip(a.items, b.items)])
    if isinstance(a, (PyL, Seq)) and isinstance(b, (PyL, Seq)):
      a, b = self.as_seq(a), self.as_seq(b)
      return self.same_dims((a.dim,), (b.dim,), a.lam, b.lam, depth)
    if isinstance(a, Arr) and isinstance(b, Arr):
      if a.ndim != b.ndim:
        return False
      return self.same_dims(a.dims, b.dims, a.lam, b.lam, depth)
    if isinstance(a, PyD) and isinstance(b, PyD):
      if set(a.d) != set(b.d):
        return False
      return And(*[self.same(a.d[k], b.d[k], depth + 1) for k in a.d])
    return False

  def same_dims(self, da, db, la, lb, depth):
    fs = []
    qs = []
    dom = True
    for x, y in zip(da, db):
      if not veq_syn(x.n, y.n):
        fs.append(x.zn == y.zn if not (isinstance(x.n, int) and isinstance(y.n, int)) else x.n == y.n)
      p = param('q')
      qs.append(p)
      ka = tb(x.keep(p)) if x.keep else True
      kb = tb(y.keep(p)) if y.keep else True
      fs.append(forall([p], Implies(x.inrange(p), Iff(ka, kb))))
      dom = And(dom, x.inrange(p), ka)
    va, vb = la(*qs), lb(*qs)
    if isinstance(va, Poison) or isinstance(vb, Poison):
      if all(isinstance(d.n, int) and d.n == 0 for d in da):
        return And(*fs)
      # elements only exist when both are nonempty: compare sizes alone
      if isinstance(va, Poison) and isinstance(vb, Poison):
        return And(*fs)
      return And(*fs, *[d.zn == 0 for d in da])
    eq = self.same(va, vb, depth + 1)
    fs.append(forall(qs, Implies(dom, eq)))
    return And(*fs)

  # ------------------------------------------------------------ modules
  def module(self, name):
    if name in self.modules:
      return self.modules[name]
    path = os.path.join(REPO, *name.split('.')) + '.py'
    if not os.path.exists(path):
      raise Unsupported(f'module {name}')
    with open(path) as f:
      tree = ast.parse(f.read(), path)
    ns = {}
    m = ModuleVal(name, ns)
    self.modules[name] = m
    env = Env(None, None, m)
    for st in tree.body:
      try:
        self.exec_module_stmt(st, env, m)
      except Unsupported:
        for t in getattr(st, 'targets', []):
          if isinstance(t, ast.Name):
            ns[t.id] = Poison('module constant not understood')
    return m

  def exec_module_stmt(self, st, env, m):
    ns = m.ns
    if isinstance(st, ast.Import):
      for a in st.names:
        nm = a.asname or a.name.split('.')[0]
        ns[nm] = self.import_name(a.name if a.asname else a.name.split('.')[0])
    elif isinstance(st, ast.ImportFrom):
      for a in st.names:
        full = f'{st.module}.{a.name}'
        ns[a.asname or a.name] = self.import_name(full)
    elif isinstance(st, ast.FunctionDef):
      ns[st.name] = self.make_func(st, env, m, f'{short(m.name)}.{st.name}')
    elif isinstance(st, ast.ClassDef):
      ns[st.name] = self.make_class(st, env, m)
    elif isinstance(st, (ast.Assign, ast.AnnAssign)):
      if st.value is None:
        return
      v = self.eval(st.value, env)
      ts = st.targets if isinstance(st, ast.Assign) else [st.target]
      for t in ts:
        if isinstance(t, ast.Name):
          ns[t.id] = v
    elif isinstance(st, ast.Expr):
      pass

  def import_name(self, full):
    if full == PKG:
      return Lib(PKG)
    if full.startswith(PKG + '.'):
      rest = full[len(PKG) + 1:]
      if '.' not in rest:
        return LazyMod(full)
      mod, attr = rest.rsplit('.', 1)
      return self.module(f'{PKG}.{mod}').ns[attr]
    return Lib(full)

  def make_func(self, node, env, m, qual, cls=None):
    defaults = [self.eval(d, env) for d in node.args.defaults]
    kw = {}
    for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
      if d is not None:
        kw[a.arg] = self.eval(d, env)
    return FuncVal(node, env, m, qual, defaults, kw, cls)

  def make_class(self, node, env, m):
    bases = []
    for b in node.bases:
      v = self.eval(b, env)
      bases.append(v)
    qual = f'{short(m.name)}.{node.name}'
    dc = any('dataclass' in ast.unparse(d) for d in node.decorator_list)
    ns = {}
    c = ClassVal(node.name, qual, bases, ns, m, dc)
    isenum = any(isinstance(b, Lib) and b.name.startswith('enum.') for b in bases)
    fields = []
    for st in node.body:
      if isinstance(st, ast.FunctionDef):
        f = self.make_func(st, env, m, f'{qual}.{st.name}', c)
        decs = [ast.unparse(d) for d in st.decorator_list]
        if 'property' in decs:
          f = Prop(f)
        elif 'staticmethod' in decs:
          f = StaticM(f)
        elif any(d not in ('abc.abstractmethod',) for d in decs):
          raise_later = decs
          f = Poison(f'decorator {raise_later}')
        ns[st.name] = f
      elif isinstance(st, ast.Assign):
        v = self.eval(st.value, env)
        for t in st.targets:
          if isenum:
            v2 = EnumVal(c, t.id, v)
            ns[t.id] = v2
          else:
            ns[t.id] = v
      elif isinstance(st, ast.AnnAssign):
        fields.append((st.target.id, self.eval(st.value, env) if st.value else None, st.value is not None))
        if st.value is not None:
          ns[st.target.id] = fields[-1][1]
    c.fields = fields
    return c

  # ------------------------------------------------------------ variables
  def lookup(self, name, env):
    e = env
    while e is not None:
      if e.fid is not None and name in self.frames[e.fid]:
        v = self.frames[e.fid][name]
        if isinstance(v, Poison):
          raise Unsupported(f'{name}: {v.why}')
        return v
      e = e.parent
    g = env.globals_
    if name in g.ns:
      v = g.ns[name]
      if isinstance(v, Poison):
        raise Unsupported(f'{name}: {v.why}')
      return v
    b = self.libs.get('builtins.' + name)
    if b is not None:
      return Bi(name, b) if callable(b) else b
    if name in EXC_BASES:
      return Lib('builtins.' + name)
    if name in ('True', 'False', 'None'):
      return {'True': True, 'False': False, 'None': None}[name]
    raise Unsupported(f'name {name}')

  def setvar(self, name, v, env):
    e = env
    fr = self.frames[env.fid]
    if '$nonlocal' in fr and name in fr['$nonlocal']:
      e = env.parent
      while e is not None and name not in self.frames[e.fid]:
        e = e.parent
      self.frames[e.fid][name] = v
      return
    fr[name] = v

  # ------------------------------------------------------------ statements
  def exec_block(self, stmts, env):
    for s in stmts:
      self.exec(s, env)

  def exec(self, s, env):
    m = getattr(self, 'x_' + type(s).__name__, None)
    if m is None:
      raise Unsupported(f'statement {type(s).__name__} at line {s.lineno}')
    old = self.where
    self.where = WHERE[0] = f'{short(env.globals_.name)}:{s.lineno}'
    try:
      m(s, env)
    finally:
      self.where = old

  def x_Expr(self, s, env):
    if isinstance(s.value, ast.Constant):
      return
    self.eval(s.value, env)

  def x_Pass(self, s, env):
    pass

  def x_Assign(self, s, env):
    v = self.eval(s.value, env)
    for t in s.targets:
      self.assign(t, v, env)

  def x_AnnAssign(self, s, env):
    if s.value is not None:
      self.assign(s.target, self.eval(s.value, env), env)

  def x_AugAssign(self, s, env):
    t = s.target
    if isinstance(t, ast.Name):
      cur = self.lookup(t.id, env)
      r = self.augop(s.op, cur, self.eval(s.value, env))
      self.setvar(t.id, r, env)
    elif isinstance(t, ast.Attribute):
      o = self.eval(t.value, env)
      cur = self.getattr(o, t.attr)
      r = self.augop(s.op, cur, self.eval(s.value, env))
      self.setattr(o, t.attr, r)
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, env)
      k = self.eval(t.slice, env)
      cur = self.getitem(o, k)
      r = self.augop(s.op, cur, self.eval(s.value, env))
      self.setitem(o, k, r)
    else:
      raise Unsupported('augmented assignment target')

  def augop(self, op, cur, val):
    if isinstance(cur, Ref):
      c = self.cell(cur)
      if isinstance(c, Arr):
        new = self.libs['$binop'](self, op, cur, val)
        nc = self.cell(new)
        self.array_inplace(cur, nc)
        return cur
      if isinstance(op, ast.Add) and isinstance(c, (PyL, Seq, PlaceL)):
        self.libs['$list_extend'](self, cur, val)
        return cur
    return self.binop(op, cur, val)

  def array_inplace(self, ref, nc):
    """Overwrite an array's contents (no aliasing views allowed)."""
    if ref.oid in self.viewed:
      raise Unsupported('in-place modification of an array that has views')
    old = self.cell(ref)
    if len(old.dims) != len(nc.dims):
      raise SymRaise('ValueError')
    if old.dt in 'ib' and nc.dt == 'f':
      raise SymRaise('TypeError')   # numpy: cannot cast the result to the array's type
    for x, y in zip(old.dims, nc.dims):
      if not (veq_syn(x.n, y.n) and veq_syn(x.keep, y.keep)):
        if not self.prove(self.dims_eq(x, y)):
          raise Unsupported('in-place operation changing an array shape')
    self.setcell(ref, Arr(old.dims, nc.lam, old.dt if old.dt == nc.dt else nc.dt))

  def dims_eq(self, x, y):
    if (x.keep is None) != (y.keep is None):
      p = param('q')
      k = x.keep or y.keep
      return And(x.zn == y.zn, forall([p], Implies(x.inrange(p), tb(k(p)))))
    if x.keep is None:
      if isinstance(x.n, int) and isinstance(y.n, int):
        return x.n == y.n
      return True if x.zn.eq(y.zn) else x.zn == y.zn
    p = param('q')
    return And(x.zn == y.zn,
               forall([p], Implies(x.inrange(p), Iff(tb(x.keep(p)), tb(y.keep(p))))))

  def x_If(self, s, env):
    if self.branch(self.truth(self.eval(s.test, env))):
      self.exec_block(s.body, env)
    else:
      self.exec_block(s.orelse, env)

  def x_Return(self, s, env):
    raise ReturnEx(self.eval(s.value, env) if s.value else None)

  def x_Raise(self, s, env):
    if s.exc is None:
      cur = self.ghost.get('$exc')
      if cur is None:
        raise Unsupported('bare raise')
      raise SymRaise(cur.cls, cur.args)
    v = self.eval(s.exc, env)
    if isinstance(v, ExcV):
      raise SymRaise(v.cls, v.args)
    if isinstance(v, Lib) and v.name.startswith('builtins.'):
      raise SymRaise(v.name[9:])
    raise Unsupported('raise of a non-builtin exception')

  def x_Assert(self, s, env):
    if not self.branch(self.truth(self.eval(s.test, env))):
      raise SymRaise('AssertionError')

  def x_Delete(self, s, env):
    for t in s.targets:
      if isinstance(t, ast.Name):
        self.frames[env.fid].pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
      else:
        raise Unsupported('del target')

  def x_FunctionDef(self, s, env):
    self.setvar(s.name, self.make_func(s, env, env.globals_, f'{self.frames[env.fid].get("$qual", "")}.<locals>.{s.name}'), env)

  def x_Nonlocal(self, s, env):
    fr = self.frames[env.fid]
    fr['$nonlocal'] = tuple(fr.get('$nonlocal', ())) + tuple(s.names)

  def x_Import(self, s, env):
    for a in s.names:
      self.setvar(a.asname or a.name.split('.')[0], self.import_name(a.name if a.asname else a.name.split('.')[0]), env)

  def x_ImportFrom(self, s, env):
    for a in s.names:
      self.setvar(a.asname or a.name, self.import_name(f'{s.module}.{a.name}'), env)

  def x_Break(self, s, env):
    raise BreakEx()

  def x_Continue(self, s, env):
    raise ContinueEx()

  def x_Try(self, s, env):
    try:
      try:
        self.exec_block(s.body, env)
      except SymRaise as e:
        for h in s.handlers:
          if self.handler_matches(h, e, env):
            if h.name:
              self.setvar(h.name, ExcV(e.cls, e.eargs), env)
            old = self.ghost.get('$exc')
            self.ghost['$exc'] = ExcV(e.cls, e.eargs)
            self.exec_block(h.body, env)
            self.ghost['$exc'] = old
            break
        else:
          raise
      else:
        self.exec_block(s.orelse, env)
    except (SymRaise, ReturnEx, BreakEx, ContinueEx):
      self.exec_block(s.finalbody, env)
      raise
    else:
      self.exec_block(s.finalbody, env)

  def handler_matches(self, h, e, env):
    if h.type is None:
      return True
    v = self.eval(h.type, env)
    vs = v if isinstance(v, tuple) else (v,)
    for x in vs:
      if not (isinstance(x, Lib) and x.name.startswith('builtins.')):
        raise Unsupported('exception class')
      if exc_is(e.cls, x.name[9:]):
        return True
      if e.cls == 'AnyError':
        raise Unsupported('handler for an unknown exception')
    return False

  def x_With(self, s, env):
    for it in s.items:
      v = self.eval(it.context_expr, env)
      if not isinstance(v, Opaque) or v.tag != 'ctx':
        raise Unsupported('with statement')
    self.exec_block(s.body, env)

  # ------------------------------------------------------------ assignment
  def assign(self, t, v, env):
    if isinstance(t, ast.Name):
      self.setvar(t.id, v, env)
    elif isinstance(t, (ast.Tuple, ast.List)):
      n = len(t.elts)
      items = self.unpack(v, n, any(isinstance(x, ast.Starred) for x in t.elts))
      if any(isinstance(x, ast.Starred) for x in t.elts):
        raise Unsupported('starred unpacking')
      for x, y in zip(t.elts, items):
        self.assign(x, y, env)
    elif isinstance(t, ast.Attribute):
      self.setattr(self.eval(t.value, env), t.attr, v)
    elif isinstance(t, ast.Subscript):
      self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
    else:
      raise Unsupported('assignment target')

  def unpack(self, v, n, star=False):
    if isinstance(v, tuple):
      if len(v) != n:
        raise SymRaise('ValueError')
      return v
    it = self.libs['$concrete_items'](self, v)
    if it is None:
      # symbolic length known to be n?
      d, lam = self.libs['$iter'](self, v)
      if d.keep is None and self.prove(d.zn == n):
        return [lam(i) for i in range(n)]
      raise Unsupported('unpacking a sequence of unknown length')
    if len(it) != n:
      raise SymRaise('ValueError')
    return it

  # ------------------------------------------------------------ loops
  def x_For(self, s, env):
    itv = self.eval(s.iter, env)
    self.run_for(s, itv, env)

  def run_for(self, s, itv, env):
    items = self.libs['$concrete_items'](self, itv)
    if items is not None:
      broke = False
      for x in items:
        self.assign(s.target, x, env)
        try:
          self.exec_block(s.body, env)
        except ContinueEx:
          continue
        except BreakEx:
          broke = True
          break
      if not broke:
        self.exec_block(s.orelse, env)
      return
    from vc import loops
    loops.for_loop(self, s, itv, env)

  def x_While(self, s, env):
    from vc import loops
    loops.while_loop(self, s, env)

  # ------------------------------------------------------------ expressions
  def eval(self, e, env):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      raise Unsupported(f'expression {type(e).__name__}')
    return m(e, env)

  def e_Constant(self, e, env):
    v = e.value
    if isinstance(v, float):
      return const_float(v)
    return v

  def e_Name(self, e, env):
    return self.lookup(e.id, env)

  def e_Attribute(self, e, env):
    return self.getattr(self.eval(e.value, env), e.attr)

  def e_Tuple(self, e, env):
    out = []
    for x in e.elts:
      if isinstance(x, ast.Starred):
        its = self.libs['$concrete_items'](self, self.eval(x.value, env))
        if its is None:
          raise Unsupported('starred element')
        out += its
      else:
        out.append(self.eval(x, env))
    return tuple(out)

  def e_List(self, e, env):
    return self.alloc(PyL(self.e_Tuple(e, env)))

  def e_Set(self, e, env):
    return self.libs['$mkset'](self, self.e_Tuple(e, env))

  def e_Dict(self, e, env):
    d = self.alloc(PyD({}))
    for k, v in zip(e.keys, e.values):
      if k is None:
        raise Unsupported('dict unpacking')
      kk = self.eval(k, env)
      self.setitem(d, kk, self.eval(v, env))
    return d

  def e_Subscript(self, e, env):
    return self.getitem(self.eval(e.value, env), self.eval(e.slice, env))

  def e_Slice(self, e, env):
    return SliceV(*[self.eval(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])

  def e_BinOp(self, e, env):
    return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

  def binop(self, op, a, b):
    return self.libs['$binop'](self, op, a, b)

  def e_UnaryOp(self, e, env):
    v = self.eval(e.operand, env)
    if isinstance(e.op, ast.Not):
      return mkbool(Not(self.truth(v)))
    return self.libs['$unop'](self, e.op, v)

  def e_BoolOp(self, e, env):
    isand = isinstance(e.op, ast.And)
    v = None
    for i, x in enumerate(e.values):
      v = self.eval(x, env)
      if i == len(e.values) - 1:
        return v
      t = self.truth(v)
      if isinstance(t, bool):
        if t != isand:
          return v
        continue
      if self.branch(t) != isand:
        return v if not isinstance(v, SBool) else (not isand)
    return v

  def e_Compare(self, e, env):
    left = self.eval(e.left, env)
    res = True
    for op, r in zip(e.ops, e.comparators):
      right = self.eval(r, env)
      c = self.libs['$compare'](self, op, left, right)
      if len(e.ops) == 1:
        return c
      res = And(res, self.truth(c))
      if res is False:
        return False
      left = right
    return mkbool(res)

  def e_IfExp(self, e, env):
    t = self.truth(self.eval(e.test, env))
    if self.branch(t):
      return self.eval(e.body, env)
    return self.eval(e.orelse, env)

  def e_Lambda(self, e, env):
    defaults = [self.eval(d, env) for d in e.args.defaults]
    return FuncVal(e, env, env.globals_, f'{self.frames[env.fid].get("$qual", "") if env.fid else ""}.<lambda>', defaults)

  def e_JoinedStr(self, e, env):
    out = ''
    for x in e.values:
      if isinstance(x, ast.Constant):
        out += x.value
      else:
        try:
          v = self.eval(x.value, env)
        except Unsupported:
          return OpaqueStr()
        if x.format_spec is None and isinstance(v, (str, int)) and not isinstance(v, bool):
          out += str(v)
        else:
          out = None
          return OpaqueStr()
    return out

  def e_FormattedValue(self, e, env):
    return OpaqueStr()

  def e_Starred(self, e, env):
    raise Unsupported('starred expression')

  def e_NamedExpr(self, e, env):
    v = self.eval(e.value, env)
    self.setvar(e.target.id, v, env)
    return v

  def e_ListComp(self, e, env):
    return self.libs['$mklist'](self, self.comprehend(e, env))

  def e_GeneratorExp(self, e, env):
    return self.libs['$mklist'](self, self.comprehend(e, env))

  def e_SetComp(self, e, env):
    r = self.comprehend(e, env)
    return self.libs['$mkset'](self, self.libs['$mklist'](self, r))

  def e_DictComp(self, e, env):
    from vc import loops
    return loops.dict_comp(self, e, env)

  def comprehend(self, e, env):
    from vc import loops
    return loops.comprehend(self, e, env)

  def e_Call(self, e, env):
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
      fr = self.frames[env.fid]
      return SuperV(fr['$cls'], fr[fr['$self']])
    f = self.eval(e.func, env)
    args = []
    for a in e.args:
      if isinstance(a, ast.Starred):
        its = self.libs['$concrete_items'](self, self.eval(a.value, env))
        if its is None:
          raise Unsupported('starred argument')
        args += its
      else:
        args.append(self.eval(a, env))
    kw = {}
    for k in e.keywords:
      if k.arg is None:
        raise Unsupported('** argument')
      kw[k.arg] = self.eval(k.value, env)
    return self.call(f, args, kw)

  # ------------------------------------------------------------ calls
  def call(self, f, args, kw=None):
    kw = kw or {}
    if isinstance(f, LazyMod):
      raise SymRaise('TypeError')
    if isinstance(f, Bi):
      return f.fn(self, args, kw)
    if isinstance(f, BoundM):
      if isinstance(f.fn, str):  # library method on a value
        return tracked(self, self.libs['$method'], f.fn, kw, f.self_, f.fn, args)
      return self.call(f.fn, [f.self_] + list(args), kw)
    if isinstance(f, FuncVal):
      return self.call_func(f, args, kw)
    if isinstance(f, ClassVal):
      return self.instantiate(f, args, kw)
    if isinstance(f, Lib):
      return self.call_lib(f.name, args, kw)
    if isinstance(f, Opaque):
      h = self.hooks.get('call:' + f.tag)
      if h:
        return h(self, f, args, kw)
    if isinstance(f, Ref):
      c = self.cell(f)
      if isinstance(c, Obj) and isinstance(c.cls, ClassVal):
        m, _ = c.cls.find('__call__')
        if m:
          return self.call(m, [f] + list(args), kw)
    if isinstance(f, Poison):
      raise Unsupported(f.why)
    raise Unsupported(f'call of {type(f).__name__}')

  def call_lib(self, name, args, kw):
    if name.startswith('builtins.') and name[9:] in EXC_BASES:
      return ExcV(name[9:], tuple(args))
    fn = self.libs.get(name)
    if fn is None:
      root = name.split('.')[0]
      if root in ('absl', 'logging', 'warnings'):
        return None
      raise Unsupported(f'library function {name}')
    self.trusted.add(name)
    return tracked(self, fn, name, kw, args)

  def bind(self, f, args, kw):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    args = list(args)
    if len(args) > len(names):
      if a.vararg is None:
        raise SymRaise('TypeError')
      out[a.vararg.arg] = tuple(args[len(names):])
      args = args[:len(names)]
    elif a.vararg is not None:
      out[a.vararg.arg] = ()
    for n, v in zip(names, args):
      out[n] = v
    kwonly = [x.arg for x in a.kwonlyargs]
    extra = {}
    for k, v in kw.items():
      if k in out and k in names:
        raise SymRaise('TypeError')
      if k not in names and k not in kwonly:
        if a.kwarg is None:
          raise SymRaise('TypeError')
        extra[k] = v
        continue
      out[k] = v
    if a.kwarg is not None:
      out[a.kwarg.arg] = self.alloc(PyD(extra))
    nd = len(f.defaults)
    for i, n in enumerate(names):
      if n not in out:
        j = i - (len(names) - nd)
        if j < 0:
          raise SymRaise('TypeError')
        out[n] = f.defaults[j]
    for n in kwonly:
      if n not in out:
        if n not in f.kwdefaults:
          raise SymRaise('TypeError')
        out[n] = f.kwdefaults[n]
    return out, names

  def call_func(self, f, args, kw, nocontract=False):
    c = None if nocontract else self.contracts.get(f.qual)
    if c is not None:
      self.under_contract.add(f.qual)
      b, _ = self.bind(f, args, kw)
      return c(self, b)
    if self.depth > 40:
      raise Unsupported('recursion')
    b, names = self.bind(f, args, kw)
    fid = self.newname('fr')
    self.frames[fid] = b
    b['$qual'] = f.qual
    if f.cls is not None:
      b['$cls'] = f.cls
      if names:
        b['$self'] = names[0]
    self.inlined.add(f.qual)
    env = Env(fid, f.env if f.env is not None and f.env.fid is not None else None, f.module)
    if isinstance(f.node, ast.Lambda):
      return self.eval(f.node.body, env)
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
      raise Unsupported('generator function')
    self.depth += 1
    try:
      self.exec_block(f.node.body, env)
    except ReturnEx as r:
      return r.v
    finally:
      self.depth -= 1
    return None

  def instantiate(self, cls, args, kw):
    h = self.contracts.get(cls.qual)
    if h is not None:
      self.under_contract.add(cls.qual)
      return h(self, args, kw)
    o = self.alloc(Obj(cls, {}))
    init, owner = cls.find('__init__')
    if init is not None:
      self.call(init, [o] + list(args), kw)
    elif cls.dataclass:
      flds = []
      for c in reversed(cls.mro()):
        flds += getattr(c, 'fields', [])
      vals = {}
      for (n, d, has), v in zip(flds, args):
        vals[n] = v
      for k, v in kw.items():
        if k not in [x[0] for x in flds] or k in vals:
          raise SymRaise('TypeError')
        vals[k] = v
      for n, d, has in flds:
        if n not in vals:
          if not has:
            raise SymRaise('TypeError')
          vals[n] = d
      self.setcell(o, Obj(cls, vals))
    elif args or kw:
      raise SymRaise('TypeError')
    return o

  # ------------------------------------------------------------ attributes
  def getattr(self, o, name):
    if isinstance(o, LazyMod):
      m = self.module(o.name)
      if name not in m.ns:
        raise SymRaise('AttributeError')
      v = m.ns[name]
      if isinstance(v, Poison):
        raise Unsupported(v.why)
      return v
    if isinstance(o, Lib):
      full = f'{o.name}.{name}'
      if o.name == PKG:
        return LazyMod(full)
      v = self.libs.get(full)
      if v is not None and not callable(v):
        return v
      return Lib(full)
    if isinstance(o, SuperV):
      mro = o.cls.mro()
      c = self.cell(o.self_)
      full = c.cls.mro()
      i = full.index(o.cls)
      for k in full[i + 1:]:
        if name in k.ns:
          return self.bindattr(k.ns[name], o.self_)
      if name == '__init__':
        return Bi('object.__init__', lambda ip, a, k: None)
      if name == 'reset':
        raise SymRaise('AttributeError')
      raise Unsupported(f'super().{name}')
    if isinstance(o, ClassVal):
      v, _ = o.find(name)
      if v is None:
        if name == '__name__':
          return o.name
        raise SymRaise('AttributeError')
      return v.fn if isinstance(v, StaticM) else v
    if isinstance(o, EnumVal):
      if name == 'name':
        return o.name
      if name == 'value':
        return o.value
      raise SymRaise('AttributeError')
    if isinstance(o, Ref):
      c = self.cell(o)
      if isinstance(c, Obj):
        if name in c.f:
          v = c.f[name]
          cl = c.cls.find(name)[0] if isinstance(c.cls, ClassVal) else None
          if not isinstance(cl, Prop):
            if isinstance(v, Poison):
              raise Unsupported(f'{name}: {v.why}')
            return v
        if isinstance(c.cls, ClassVal):
          v, _ = c.cls.find(name)
          if v is not None:
            return self.bindattr(v, o)
          if name == '__class__':
            return c.cls
          if name == '__dict__':
            raise Unsupported('__dict__')
          raise SymRaise('AttributeError')
        return self.libs['$objattr'](self, o, c, name)
      return self.libs['$valattr'](self, o, name)
    if isinstance(o, Poison):
      raise Unsupported(o.why)
    return self.libs['$valattr'](self, o, name)

  def bindattr(self, v, o):
    if isinstance(v, (FuncVal, Bi)):
      return BoundM(v, o)
    if isinstance(v, Prop):
      return self.call(v.fn, [o])
    if isinstance(v, StaticM):
      return v.fn
    if isinstance(v, Poison):
      raise Unsupported(v.why)
    return v

  def setattr(self, o, name, v):
    if isinstance(o, Ref):
      c = self.cell(o)
      if isinstance(c, Obj):
        if isinstance(c.cls, ClassVal):
          d, _ = c.cls.find(name)
          if isinstance(d, Prop):
            raise SymRaise('AttributeError')
        elif '$setattr' in c.cls:
          return c.cls['$setattr'](self, o, name, v)
        f = dict(c.f)
        f[name] = v
        self.setcell(o, Obj(c.cls, f))
        return
    raise Unsupported(f'setting attribute {name}')

  def getitem(self, o, k):
    return self.libs['$getitem'](self, o, k)

  def setitem(self, o, k, v):
    return self.libs['$setitem'](self, o, k, v)

  def delitem(self, o, k):
    return self.libs['$delitem'](self, o, k)

  def truth(self, v):
    """Formula/bool of Python truthiness."""
    if isinstance(v, bool):
      return v
    if v is None:
      return False
    if isinstance(v, SBool):
      return v.b
    if isinstance(v, (int, Fraction)):
      return v != 0
    if isinstance(v, Num):
      return Not(n_eq(v, 0))
    if isinstance(v, (str, tuple)):
      return len(v) > 0
    if isinstance(v, Ref):
      c = self.cell(v)
      if isinstance(c, Obj):
        if isinstance(c.cls, ClassVal):
          m, _ = c.cls.find('__bool__')
          if m is not None:
            return self.truth(self.call(m, [v]))
          m, _ = c.cls.find('__len__')
          if m is not None:
            return self.truth(self.call(m, [v]))
        return True
      if isinstance(c, Arr):
        n = self.libs['$size'](self, c)
        if self.branch(n_eq(n, 1)):
          return self.truth(self.libs['$only'](self, c))
        raise SymRaise('ValueError')
      return self.truth(self.libs['builtins.len'](self, [v], {}))
    if isinstance(v, (FuncVal, ClassVal, EnumVal, BoundM, Bi, Lib)):
      return True
    raise Unsupported(f'truth of {type(v).__name__}')


class LazyMod:

  def __init__(self, name):
    self.name = name


def short(m):
  return m[len(PKG) + 1:] if m.startswith(PKG + '.') else m


_scopes = {}


def scope_id(s):
  return _scopes.setdefault(s, len(_scopes))


def vconsts(v):
  """Constants occurring in a value."""
  if z3.is_expr(v):
    return consts_of(v)
  if isinstance(v, Num):
    r = consts_of(v.v)
    return r if isinstance(v.k, int) else r | consts_of(v.k)
  if isinstance(v, SBool):
    return consts_of(v.b)
  if isinstance(v, Opaque):
    return consts_of(v.t)
  if isinstance(v, (tuple, list)):
    r = frozenset()
    for x in v:
      r |= vconsts(x)
    return r
  if isinstance(v, Ref):
    return vconsts(tuple(iv(i) for i in v.idx))
  if isinstance(v, Lam):
    return vconsts(v.body) - {p.decl().name() for p in v.params}
  if isinstance(v, Dim):
    r = vconsts(v.zn)
    return r | vconsts(v.keep) if v.keep is not None else r
  if isinstance(v, Arr):
    return vconsts(tuple(v.dims)) | vconsts(v.lam)
  if isinstance(v, Seq):
    return vconsts(v.dim) | vconsts(v.lam)
  if isinstance(v, (PyL,)):
    return vconsts(v.items)
  if isinstance(v, Obj):
    return vconsts(tuple(v.f.values()))
  if isinstance(v, PyD):
    return vconsts(tuple(v.d.values()))
  if isinstance(v, Fam):
    return vconsts(v.cell) - {p.decl().name() for p in v.params}
  if isinstance(v, MapD):
    return vconsts(v.dom) | vconsts(v.val)
  if isinstance(v, OverD):
    r = vconsts(v.base)
    for k, x in v.over:
      r = r | vconsts(k) | vconsts(x)
    return r
  if isinstance(v, FamD):
    return vconsts(v.dim) | vconsts(v.key) | vconsts(v.val)
  return frozenset()


def free_params(cell):
  """Position parameters (names with %) free in a cell, as constants."""
  names = {x for x in vconsts(cell) if '%' in x}
  if not names:
    return []
  out = {}

  def walk(v):
    if z3.is_expr(v):
      for t in subterms([v]):
        if z3.is_const(t) and t.decl().name() in names:
          out[t.decl().name()] = t
    elif isinstance(v, Num):
      walk(v.v)
      if z3.is_expr(v.k):
        walk(v.k)
    elif isinstance(v, SBool):
      walk(v.b)
    elif isinstance(v, Opaque):
      walk(v.t)
    elif isinstance(v, (tuple, list)):
      for x in v:
        walk(x)
    elif isinstance(v, Ref):
      walk(v.idx)
    elif isinstance(v, Lam):
      walk(v.body)
    elif isinstance(v, Dim):
      walk(v.zn)
      walk(v.keep)
    elif isinstance(v, Arr):
      walk(v.dims)
      walk(v.lam)
    elif isinstance(v, Seq):
      walk(v.dim)
      walk(v.lam)
    elif isinstance(v, PyL):
      walk(v.items)
    elif isinstance(v, Obj):
      walk(tuple(v.f.values()))
    elif isinstance(v, PyD):
      walk(tuple(v.d.values()))
    elif isinstance(v, Fam):
      walk(v.cell)
    elif isinstance(v, (MapD,)):
      walk(v.dom)
      walk(v.val)
    elif isinstance(v, OverD):
      walk(v.base)
      walk(tuple(x for _, x in v.over))
    elif isinstance(v, FamD):
      walk(v.dim)
      walk(v.key)
      walk(v.val)

  walk(cell)
  return [out[n] for n in sorted(out)]


def veq_syn(a, b):
  """Syntactic equality of values (no false positives)."""
  if a is b:
    return True
  if type(a) is not type(b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, bool) and not isinstance(b, bool):
      return type(a) is type(b) and a == b
    if isinstance(a, int) and z3.is_expr(b):
      return z3.is_int_value(b) and b.as_long() == a
    if isinstance(b, int) and z3.is_expr(a):
      return veq_syn(b, a)
    return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)
  if z3.is_expr(a):
    return a.eq(b)
  if isinstance(a, (int, Fraction, str, bool, bytes)):
    return a == b
  if isinstance(a, Num):
    ka, kb = a.k, b.k
    ke = ka == kb if isinstance(ka, int) and isinstance(kb, int) else (
        not isinstance(ka, int) and not isinstance(kb, int) and ka.eq(kb))
    return ke and a.v.eq(b.v)
  if isinstance(a, SBool):
    return a.b.eq(b.b)
  if isinstance(a, Opaque):
    return a.t.eq(b.t)
  if isinstance(a, tuple):
    return len(a) == len(b) and all(veq_syn(x, y) for x, y in zip(a, b))
  if isinstance(a, Ref):
    return a.oid == b.oid and all(iv(x).eq(iv(y)) for x, y in zip(a.idx, b.idx))
  if isinstance(a, Lam):
    if len(a.params) != len(b.params):
      return False
    return veq_syn(a.body, b(*a.params))
  if isinstance(a, Dim):
    return a.sort == b.sort and veq_syn(a.n, b.n) and veq_syn(a.keep, b.keep)
  if isinstance(a, Arr):
    return len(a.dims) == len(b.dims) and all(veq_syn(x, y) for x, y in zip(a.dims, b.dims)) and veq_syn(a.lam, b.lam)
  if isinstance(a, Seq):
    return veq_syn(a.dim, b.dim) and veq_syn(a.lam, b.lam)
  if isinstance(a, PyL):
    return veq_syn(a.items, b.items)
  if isinstance(a, PyD):
    return list(a.d) == list(b.d) and all(veq_syn(a.d[k], b.d[k]) for k in a.d)
  if isinstance(a, FamD):
    return veq_syn(a.dim, b.dim) and veq_syn(a.key, b.key) and veq_syn(a.val, b.val)
  if isinstance(a, MapD):
    return a.sort == b.sort and veq_syn(a.dom, b.dom) and veq_syn(a.val, b.val)
  if isinstance(a, OverD):
    return veq_syn(a.base, b.base) and len(a.over) == len(b.over) and all(
        veq_syn(k, l) and veq_syn(x, y) for (k, x), (l, y) in zip(a.over, b.over))
  if isinstance(a, Obj):
    return a.cls is b.cls and set(a.f) == set(b.f) and all(veq_syn(a.f[k], b.f[k]) for k in a.f)
  if isinstance(a, Fam):
    if len(a.params) != len(b.params):
      return False
    if a.writes or b.writes:
      return False
    return veq_syn(a.cell, subst(b.cell, list(zip(b.params, a.params))))
  if isinstance(a, EnumVal):
    return a.cls is b.cls and a.name == b.name
  if isinstance(a, FuncVal):
    return a.node is b.node and a.env is b.env
  if isinstance(a, BoundM):
    return veq_syn(a.fn, b.fn) and veq_syn(a.self_, b.self_)
  if isinstance(a, (OpaqueStr,)):
    return True
  if isinstance(a, Lib):
    return a.name == b.name
  return False
