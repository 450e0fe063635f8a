"""Symbolic Python values."""
from vc.terms import *


class Lam:
  """A value depending on position parameters (globally unique constants)."""
  __slots__ = ('params', 'body')

  def __init__(self, params, body):
    self.params, self.body = tuple(params), body

  def __call__(self, *args):
    m = []
    for p, a in zip(self.params, args):
      if isinstance(a, int):
        a = z3.IntVal(a)
      elif isinstance(a, Num):
        a = a.v
      m.append((p, a))
    return subst(self.body, m)


_pc = [0]


def param(base='p', sort=I):
  _pc[0] += 1
  return z3.Const(f'{base}%{_pc[0]}', sort)


class Dim:
  """Positions 0..n-1 satisfying keep (optional); or, when sort is not Int,
  the elements of an uninterpreted sort satisfying keep (n is unused)."""
  __slots__ = ('n', 'keep', 'sort')

  def __init__(self, n, keep=None, sort=I):
    self.sort = sort
    if isinstance(n, Num):
      n = lower(n)
      if isinstance(n, Num):
        n = n.v
    if z3.is_expr(n) and z3.is_int_value(n):
      n = n.as_long()
    self.n, self.keep = n, keep

  @property
  def zn(self):
    return iv(self.n)

  def inrange(self, p):
    if self.sort != I:
      return True
    p = iv(p)
    a = True if z3.is_int_value(p) and p.as_long() >= 0 else (p >= 0)
    if isinstance(self.n, int) and z3.is_int_value(p):
      b = p.as_long() < self.n
    else:
      b = p < self.zn
    return And(a, b)

  def dom(self, p):
    if self.sort == I:
      p = iv(p)
    d = self.inrange(p)
    if self.keep is not None:
      d = And(d, tb(self.keep(p)))
    return d

  def __repr__(self):
    return f'Dim({self.n}{", keep" if self.keep else ""})'


def tb(v):
  """SBool/bool -> formula."""
  if isinstance(v, SBool):
    return v.b
  return v


class Arr:
  """Immutable numpy array contents."""
  __slots__ = ('dims', 'lam', 'dt')

  def __init__(self, dims, lam, dt='f'):
    self.dims, self.lam, self.dt = tuple(dims), lam, dt

  @property
  def ndim(self):
    return len(self.dims)


class Seq:
  """Immutable contents of a list of symbolic length."""
  __slots__ = ('dim', 'lam')

  def __init__(self, dim, lam):
    self.dim, self.lam = dim, lam


class PyL:
  """Contents of a list of concrete length."""
  __slots__ = ('items',)

  def __init__(self, items):
    self.items = tuple(items)


class PlaceL:
  """A list under construction in a loop summary: only append allowed."""
  __slots__ = ('tag', 'app')

  def __init__(self, tag, app=()):
    self.tag, self.app = tag, tuple(app)


class PyD:
  """Dict with concrete keys."""
  __slots__ = ('d', 'default')

  def __init__(self, d, default=None):
    self.d, self.default = d, default


class FamD:
  """{key(p): val(p) for p in dim} with injective key(p) = Ref(fam,(p,))."""
  __slots__ = ('dim', 'key', 'val')

  def __init__(self, dim, key, val):
    self.dim, self.key, self.val = dim, key, val


class MapD:
  """Dict over an uninterpreted key sort: domain and value functions."""
  __slots__ = ('sort', 'dom', 'val', 'default')

  def __init__(self, sort, dom, val, default=None):
    self.sort, self.dom, self.val, self.default = sort, dom, val, default


class OverD:
  """A MapD with later entries over ((key term, value), ...) whose values
  cannot be merged with the others (latest last)."""
  __slots__ = ('base', 'over')

  def __init__(self, base, over):
    self.base, self.over = base, tuple(over)


class Obj:
  """Instance contents."""
  __slots__ = ('cls', 'f')

  def __init__(self, cls, f):
    self.cls, self.f = cls, f


class Fam:
  """A family of cells indexed by params, with later writes at single indices."""
  __slots__ = ('params', 'cell', 'writes')

  def __init__(self, params, cell, writes=()):
    self.params, self.cell, self.writes = tuple(params), cell, tuple(writes)


class Ref:
  __slots__ = ('oid', 'idx')

  def __init__(self, oid, idx=()):
    self.oid, self.idx = oid, tuple(idx)

  def __repr__(self):
    return f'Ref({self.oid}{list(self.idx) if self.idx else ""})'


class Opaque:
  """A value of an uninterpreted z3 sort (names, tokens, rows, keys)."""
  __slots__ = ('t', 'tag')

  def __init__(self, t, tag=''):
    self.t, self.tag = t, tag

  def __repr__(self):
    return f'Opaque({self.t})'


class OpaqueStr:
  """A string whose contents are not tracked."""


class Poison:
  """A variable that is not determined here (reading it is unsupported)."""

  def __init__(self, why):
    self.why = why


class SliceV:
  __slots__ = ('lo', 'hi', 'step')

  def __init__(self, lo, hi, step):
    self.lo, self.hi, self.step = lo, hi, step


class FuncVal:

  def __init__(self, node, env, module, qual, defaults=(), kwdefaults=None, cls=None):
    self.node, self.env, self.module, self.qual = node, env, module, qual
    self.defaults, self.kwdefaults = defaults, kwdefaults or {}
    self.cls = cls


class BoundM:

  def __init__(self, fn, self_):
    self.fn, self.self_ = fn, self_


class Bi:
  """Builtin implemented by the verifier: fn(interp, args, kwargs)."""

  def __init__(self, name, fn):
    self.name, self.fn = name, fn


class Lib:
  """A dotted library name."""

  def __init__(self, name):
    self.name = name


class ClassVal:

  def __init__(self, name, qual, bases, ns, module, dataclass=False):
    self.name, self.qual, self.bases, self.ns = name, qual, bases, ns
    self.module, self.dataclass = module, dataclass

  def mro(self):
    out = [self]
    for b in self.bases:
      if isinstance(b, ClassVal):
        for c in b.mro():
          if c not in out:
            out.append(c)
    return out

  def find(self, name):
    for c in self.mro():
      if name in c.ns:
        return c.ns[name], c
    return None, None

  def issub(self, other):
    return other in self.mro()


class EnumVal:

  def __init__(self, cls, name, value):
    self.cls, self.name, self.value = cls, name, value


class Prop:

  def __init__(self, fn):
    self.fn = fn


class StaticM:

  def __init__(self, fn):
    self.fn = fn


class SuperV:

  def __init__(self, cls, self_):
    self.cls, self.self_ = cls, self_


class RangeV:

  def __init__(self, lo, hi, step=1):
    self.lo, self.hi, self.step = lo, hi, step


class ZipV:
  """zip / enumerate / map views, materialised lazily by iteration."""

  def __init__(self, kind, parts):
    self.kind, self.parts = kind, parts


class LenPos:
  """An iterable given by dim and element function (no heap identity)."""

  def __init__(self, dim, lam):
    self.dim, self.lam = dim, lam


class PosV:
  """The rank of position p among the positions of dim (an enumerate index)."""

  def __init__(self, dim, p, off=0):
    self.dim, self.p, self.off = dim, p, off


class ExcV:
  """An exception instance."""

  def __init__(self, cls, args=()):
    self.cls, self.args = cls, args


def _touch(t, names):
  return bool(consts_of(t) & names)


def subst(v, m):
  if not m:
    return v
  names = frozenset(p.decl().name() for p, _ in m)
  return _subst(v, m, names)


def zsub(t, m, names=None):
  if isinstance(t, (int, bool)) or t is None:
    return t
  if names is None:
    names = frozenset(p.decl().name() for p, _ in m)
  if not _touch(t, names):
    return t
  return fold(z3.substitute(t, *m))


_fold_cache = {}


def fold(t):
  """Remove trivial equalities and decided ites left by substitution."""
  key = t.get_id()
  r = _fold_cache.get(key)
  if r is not None and r[0].eq(t):
    return r[1]
  out = _fold(t)
  _fold_cache[key] = (t, out)
  return out


def _fold(t):
  if z3.is_quantifier(t):
    b = fold(t.body())
    if b.eq(t.body()):
      return t
    vs = [z3.Const(f'{t.var_name(i)}', t.var_sort(i)) for i in range(t.num_vars())]
    fr = [z3.FreshConst(v.sort(), 'fq') for v in vs]
    b2 = z3.substitute_vars(b, *reversed(fr))
    if t.is_lambda():
      return z3.Lambda(fr, b2)
    return z3.ForAll(fr, b2) if t.is_forall() else z3.Exists(fr, b2)
  if not z3.is_app(t) or t.num_args() == 0:
    return t
  ch = [fold(c) for c in t.children()]
  k = t.decl().kind()
  if k == z3.Z3_OP_EQ:
    if ch[0].eq(ch[1]):
      return z3.BoolVal(True)
    if is_num(ch[0]) and is_num(ch[1]):
      return z3.BoolVal(num_val(ch[0]) == num_val(ch[1]))
  elif k == z3.Z3_OP_ITE:
    if z3.is_true(ch[0]):
      return ch[1]
    if z3.is_false(ch[0]):
      return ch[2]
    if ch[1].eq(ch[2]):
      return ch[1]
  elif k == z3.Z3_OP_AND:
    return zb(And(*ch))
  elif k == z3.Z3_OP_OR:
    return zb(Or(*ch))
  elif k == z3.Z3_OP_NOT:
    return zb(Not(ch[0]))
  elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and is_num(ch[0]) and is_num(ch[1]):
    x, y = num_val(ch[0]), num_val(ch[1])
    return z3.BoolVal({z3.Z3_OP_LE: x <= y, z3.Z3_OP_LT: x < y, z3.Z3_OP_GE: x >= y, z3.Z3_OP_GT: x > y}[k])
  elif k == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
    return z3.RealVal(ch[0].as_long())
  elif k == z3.Z3_OP_SELECT and is_lam(ch[0]) and not any(has_var(c) for c in ch[1:]):
    return fold(open_quant(ch[0], ch[1:]))
  if all(a.eq(b) for a, b in zip(ch, t.children())):
    return t
  if k == z3.Z3_OP_ADD:
    return z3.Sum(*ch)
  if k == z3.Z3_OP_MUL:
    return z3.Product(*ch)
  return t.decl()(*ch)


def _subst(v, m, names):
  if v is None or isinstance(v, (int, Fraction, str, bytes)):
    return v
  if isinstance(v, Num):
    k = v.k if isinstance(v.k, int) else zsub(v.k, m, names)
    return Num(zsub(v.v, m, names), k, v.np)
  if isinstance(v, SBool):
    return mkbool(zsub(v.b, m, names))
  if isinstance(v, tuple):
    return tuple(_subst(x, m, names) for x in v)
  if isinstance(v, Ref):
    if not v.idx:
      return v
    return Ref(v.oid, tuple(zsub(iv(i), m, names) for i in v.idx))
  if isinstance(v, Lam):
    return Lam(v.params, _subst(v.body, m, names))
  if isinstance(v, Dim):
    return Dim(zsub(v.n, m, names), _subst(v.keep, m, names), v.sort)
  if isinstance(v, Arr):
    return Arr(tuple(_subst(d, m, names) for d in v.dims), _subst(v.lam, m, names), v.dt)
  if isinstance(v, Seq):
    return Seq(_subst(v.dim, m, names), _subst(v.lam, m, names))
  if isinstance(v, PyL):
    return PyL(_subst(x, m, names) for x in v.items)
  if isinstance(v, PlaceL):
    return PlaceL(v.tag, tuple(_subst(x, m, names) for x in v.app))
  if isinstance(v, Opaque):
    return Opaque(zsub(v.t, m, names), v.tag)
  if isinstance(v, PyD):
    return PyD({k: _subst(x, m, names) for k, x in v.d.items()}, v.default)
  if isinstance(v, FamD):
    return FamD(_subst(v.dim, m, names), _subst(v.key, m, names), _subst(v.val, m, names))
  if isinstance(v, MapD):
    return MapD(v.sort, _subst(v.dom, m, names), _subst(v.val, m, names), v.default)
  if isinstance(v, OverD):
    return OverD(_subst(v.base, m, names), [(zsub(k, m, names), _subst(x, m, names)) for k, x in v.over])
  if isinstance(v, Obj):
    return Obj(v.cls, {k: _subst(x, m, names) for k, x in v.f.items()})
  if isinstance(v, Fam):
    return Fam(v.params, _subst(v.cell, m, names),
               [(tuple(zsub(iv(i), m, names) for i in ix), _subst(c, m, names)) for ix, c in v.writes])
  if isinstance(v, SliceV):
    return SliceV(*[_subst(x, m, names) for x in (v.lo, v.hi, v.step)])
  if isinstance(v, BoundM):
    return BoundM(_subst(v.fn, m, names), _subst(v.self_, m, names))
  if isinstance(v, LenPos):
    return LenPos(_subst(v.dim, m, names), _subst(v.lam, m, names))
  if isinstance(v, RangeV):
    return RangeV(*[_subst(x, m, names) for x in (v.lo, v.hi, v.step)])
  return v


def map_refs(v, fn):
  """Rebuild a value with every Ref replaced by fn(ref)."""
  if isinstance(v, Ref):
    return fn(v)
  if isinstance(v, tuple):
    return tuple(map_refs(x, fn) for x in v)
  if isinstance(v, Lam):
    return Lam(v.params, map_refs(v.body, fn))
  if isinstance(v, Dim):
    return v
  if isinstance(v, Arr):
    return Arr(v.dims, map_refs(v.lam, fn), v.dt) if v.dt == 'o' else v
  if isinstance(v, Seq):
    return Seq(v.dim, map_refs(v.lam, fn))
  if isinstance(v, PyL):
    return PyL(map_refs(x, fn) for x in v.items)
  if isinstance(v, PlaceL):
    return PlaceL(v.tag, tuple(map_refs(x, fn) for x in v.app))
  if isinstance(v, PyD):
    return PyD({k: map_refs(x, fn) for k, x in v.d.items()}, v.default)
  if isinstance(v, FamD):
    return FamD(v.dim, map_refs(v.key, fn), map_refs(v.val, fn))
  if isinstance(v, MapD):
    return MapD(v.sort, v.dom, map_refs(v.val, fn), v.default)
  if isinstance(v, OverD):
    return OverD(map_refs(v.base, fn), [(k, map_refs(x, fn)) for k, x in v.over])
  if isinstance(v, Obj):
    return Obj(v.cls, {k: map_refs(x, fn) for k, x in v.f.items()})
  if isinstance(v, Fam):
    return Fam(v.params, map_refs(v.cell, fn), [(ix, map_refs(c, fn)) for ix, c in v.writes])
  if isinstance(v, BoundM):
    return BoundM(v.fn, map_refs(v.self_, fn))
  if isinstance(v, LenPos):
    return LenPos(v.dim, map_refs(v.lam, fn))
  return v


def refs_in(v):
  out = []
  map_refs(v, lambda r: (out.append(r), r)[1])
  return out
