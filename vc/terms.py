"""Terms: extended reals over z3, smart constructors, ring normal form.

Floats are extended reals (kind, value): kind 0 finite, 1 +inf, 2 -inf, 3 nan.
Machine rounding is ignored (stated assumption); literals denote their decimal
value, division is exact.
"""
from fractions import Fraction
import z3

FIN, PINF, NINF, NAN = 0, 1, 2, 3
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
  """The source uses a construct the verifier has no rule for."""


# ---------------------------------------------------------------- booleans
def And(*xs):
  out = []
  for x in xs:
    if x is True:
      continue
    if x is False:
      return False
    if z3.is_true(x):
      continue
    if z3.is_false(x):
      return False
    out.append(x)
  if not out:
    return True
  return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
  out = []
  for x in xs:
    if x is False:
      continue
    if x is True:
      return True
    if z3.is_false(x):
      continue
    if z3.is_true(x):
      return True
    out.append(x)
  if not out:
    return False
  return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
  if x is True:
    return False
  if x is False:
    return True
  if z3.is_true(x):
    return False
  if z3.is_false(x):
    return True
  if z3.is_not(x):
    return x.arg(0)
  return z3.Not(x)


def Implies(a, b):
  return Or(Not(a), b)


def Iff(a, b):
  if isinstance(a, bool):
    return b if a else Not(b)
  if isinstance(b, bool):
    return a if b else Not(a)
  if a.eq(b):
    return True
  return a == b


def zb(x):
  return z3.BoolVal(x) if isinstance(x, bool) else x


def Ite(c, a, b):
  """ite on raw z3 terms of one sort (python ints allowed for kinds)."""
  if c is True or z3.is_true(zb(c)):
    return a
  if c is False or z3.is_false(zb(c)):
    return b
  if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, int):
    if a == b:
      return a
  if isinstance(a, bool) or isinstance(b, bool) or (
      z3.is_expr(a) and a.sort() == B):
    return Or(And(c, a), And(Not(c), b))
  if isinstance(a, int):
    a = z3.IntVal(a)
  if isinstance(b, int):
    b = z3.IntVal(b)
  if a.eq(b):
    return a
  return z3.If(c, a, b)


def forall(vs, body):
  if isinstance(body, bool):
    return body
  vs = [v for v in vs]
  return z3.ForAll(vs, body) if vs else body


def exists(vs, body):
  if isinstance(body, bool):
    return body
  return z3.Exists(vs, body) if vs else body


# ---------------------------------------------------------------- functions
INV = z3.Function('inv', R, R)  # 1/x for x != 0, and 0 at 0
SQRT = z3.Function('sqrt', R, R)
LOG = z3.Function('log', R, R)
EXP = z3.Function('exp', R, R)
POW = z3.Function('pow', R, R, R)
FLOOR = z3.Function('floor_', R, I)
AR1 = z3.ArraySort(I, R)
AR2 = z3.ArraySort(I, I, R)
AB1 = z3.ArraySort(I, B)
SUM = z3.Function('Sum', I, AR1, R)  # sum over 0 <= i < n


CNT = z3.Function('Cnt', I, AB1, I)  # number of 0 <= i < n with P(i)
_sumk = {}


def sumk(sort):
  """Sum of a finitely supported function over an uninterpreted sort."""
  if sort.name() not in _sumk:
    _sumk[sort.name()] = z3.Function(f'SumK!{sort.name()}', z3.ArraySort(sort, R), R)
  return _sumk[sort.name()]


def is_sum(t):
  n = node(t)
  return n.sum


def is_lam(t):
  return z3.is_quantifier(t) and t.is_lambda()


def is_num(t):
  return z3.is_expr(t) and (z3.is_rational_value(t) or z3.is_int_value(t))


def num_val(t):
  if z3.is_int_value(t):
    return Fraction(t.as_long())
  return Fraction(t.numerator_as_long(), t.denominator_as_long())


def rv(fr):
  fr = Fraction(fr)
  return z3.RealVal(fr.numerator) if fr.denominator == 1 else z3.Q(
      fr.numerator, fr.denominator)


def iv(n):
  return z3.IntVal(n) if isinstance(n, int) else n


def to_real(t):
  if t.sort() == R:
    return t
  if z3.is_int_value(t):
    return z3.RealVal(t.as_long())
  return z3.ToReal(t)


class Num:
  """A symbolic number: int (v of sort Int) or extended real."""
  __slots__ = ('k', 'v', 'np')

  def __init__(self, v, k=FIN, np=False):
    if isinstance(k, z3.ExprRef) and z3.is_int_value(k):
      k = k.as_long()
    self.k, self.v, self.np = k, v, np

  @property
  def isint(self):
    return self.v.sort() == I

  def __repr__(self):
    return f'Num({self.v}{"" if self.k is FIN or self.k == 0 else ", k="+str(self.k)})'


class SBool:
  """A symbolic boolean."""
  __slots__ = ('b',)

  def __init__(self, b):
    self.b = b

  def __repr__(self):
    return f'SBool({self.b})'


def mkbool(b):
  if isinstance(b, bool):
    return b
  if z3.is_true(b):
    return True
  if z3.is_false(b):
    return False
  return SBool(b)


def isnumeric(x):
  return isinstance(x, (int, Fraction, Num, SBool))


def lift(x):
  if isinstance(x, Num):
    return x
  if isinstance(x, bool):
    return Num(z3.IntVal(int(x)))
  if isinstance(x, int):
    return Num(z3.IntVal(x))
  if isinstance(x, Fraction):
    return Num(rv(x))
  if isinstance(x, SBool):
    return Num(z3.If(x.b, z3.IntVal(1), z3.IntVal(0)))
  if isinstance(x, float):
    return const_float(x)
  raise Unsupported(f'number expected, got {type(x).__name__}')


def const_float(x):
  if x != x:
    return Num(z3.RealVal(0), NAN)
  if x == float('inf'):
    return Num(z3.RealVal(0), PINF)
  if x == float('-inf'):
    return Num(z3.RealVal(0), NINF)
  return Fraction(repr(x))


def lower(n):
  """Num -> python constant when it is one."""
  if isinstance(n, Num) and n.k == FIN and isinstance(n.k, int) and is_num(n.v):
    if n.isint:
      return n.v.as_long()
    return num_val(n.v)
  return n


def isk(a, k):
  """Formula: number a has kind k."""
  if isinstance(a.k, int):
    return a.k == k
  return a.k == k


def pair(a, b):
  if a.v.sort() == b.v.sort():
    return a.v, b.v
  return to_real(a.v), to_real(b.v)


def bothfin(a, b):
  return isinstance(a.k, int) and a.k == FIN and isinstance(
      b.k, int) and b.k == FIN


def fin(a):
  return isinstance(a.k, int) and a.k == FIN


def n_lt(a, b):
  a, b = lift(a), lift(b)
  x, y = pair(a, b)
  if is_num(x) and is_num(y):
    c = num_val(x) < num_val(y)
  elif x.eq(y):
    c = False
  else:
    c = x < y
  if bothfin(a, b):
    return c
  return Or(
      And(isk(a, NINF), Not(isk(b, NINF)), Not(isk(b, NAN))),
      And(isk(b, PINF), Not(isk(a, PINF)), Not(isk(a, NAN))),
      And(isk(a, FIN), isk(b, FIN), c))


def n_eq(a, b):
  """Python/numpy == (nan != nan)."""
  a, b = lift(a), lift(b)
  x, y = pair(a, b)
  if is_num(x) and is_num(y):
    c = num_val(x) == num_val(y)
  elif x.eq(y):
    c = True
  else:
    c = x == y
  if bothfin(a, b):
    return c
  return Or(
      And(isk(a, NINF), isk(b, NINF)), And(isk(a, PINF), isk(b, PINF)),
      And(isk(a, FIN), isk(b, FIN), c))


def n_same(a, b):
  """Identity of extended reals (nan same as nan)."""
  a, b = lift(a), lift(b)
  return Or(n_eq(a, b), And(isk(a, NAN), isk(b, NAN)))


def n_le(a, b):
  a, b = lift(a), lift(b)
  if bothfin(a, b):
    x, y = pair(a, b)
    if is_num(x) and is_num(y):
      return num_val(x) <= num_val(y)
    return True if x.eq(y) else x <= y
  return Or(n_lt(a, b), n_eq(a, b))


def n_neg(a):
  if isinstance(a, (int, Fraction)):
    return -a
  a = lift(a)
  if isinstance(a.k, int):
    k = {0: 0, 1: 2, 2: 1, 3: 3}[a.k]
  else:
    k = z3.If(a.k == 1, z3.IntVal(2), z3.If(a.k == 2, z3.IntVal(1), a.k))
  return lower(Num(-a.v, k, a.np))


def _native(a, b):
  return isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction))


def tadd(x, y):
  if is_num(x) and is_num(y):
    s = num_val(x) + num_val(y)
    return z3.IntVal(s.numerator) if x.sort() == I else rv(s)
  if is_num(x) and num_val(x) == 0:
    return y
  if is_num(y) and num_val(y) == 0:
    return x
  return x + y


def tmul(x, y):
  if is_num(x) and is_num(y):
    s = num_val(x) * num_val(y)
    return z3.IntVal(s.numerator) if x.sort() == I else rv(s)
  for p, q in ((x, y), (y, x)):
    if is_num(p):
      if num_val(p) == 0:
        return p
      if num_val(p) == 1:
        return q
  return x * y


def n_add(a, b):
  if _native(a, b):
    return a + b
  a, b = lift(a), lift(b)
  x, y = pair(a, b)
  np = a.np or b.np
  if bothfin(a, b):
    return lower(Num(tadd(x, y), FIN, np))
  k = Ite(
      Or(isk(a, NAN), isk(b, NAN), And(isk(a, PINF), isk(b, NINF)),
         And(isk(a, NINF), isk(b, PINF))), NAN,
      Ite(Or(isk(a, PINF), isk(b, PINF)), PINF,
          Ite(Or(isk(a, NINF), isk(b, NINF)), NINF, FIN)))
  return Num(tadd(to_real(x), to_real(y)), k, np)


def n_sub(a, b):
  if _native(a, b):
    return a - b
  a, b = lift(a), lift(b)
  if bothfin(a, b):
    x, y = pair(a, b)
    np = a.np or b.np
    if is_num(x) and is_num(y):
      return lower(Num(tadd(x, iv(-y.as_long()) if y.sort() == I else rv(-num_val(y))), FIN, np))
    if is_num(y) and num_val(y) == 0:
      return Num(x, FIN, np)
    return lower(Num(x - y, FIN, np))
  return n_add(a, lift(n_neg(b)))


def sgn(a):
  """(positive, negative) formulas of a non-nan number."""
  pos = Or(isk(a, PINF), And(isk(a, FIN), a.v > 0 if not is_num(a.v) else num_val(a.v) > 0))
  neg = Or(isk(a, NINF), And(isk(a, FIN), a.v < 0 if not is_num(a.v) else num_val(a.v) < 0))
  return pos, neg


POSITIVE = set()  # symbols a contract assumes positive


def positive(t):
  return is_num(t) and num_val(t) > 0 or z3.is_app(t) and t.decl().name() in POSITIVE


def n_mul(a, b):
  if _native(a, b):
    return a * b
  a, b = lift(a), lift(b)
  x, y = pair(a, b)
  np = a.np or b.np
  if bothfin(a, b):
    return lower(Num(tmul(x, y), FIN, np))
  if fin(a) and positive(a.v):
    return Num(tmul(to_real(x), to_real(y)), b.k, np)
  if fin(b) and positive(b.v):
    return Num(tmul(to_real(x), to_real(y)), a.k, np)
  pa, na = sgn(a)
  pb, nb = sgn(b)
  bothf = And(isk(a, FIN), isk(b, FIN))
  k = Ite(bothf, FIN,
          Ite(Or(isk(a, NAN), isk(b, NAN)), NAN,
              Ite(Or(And(pa, pb), And(na, nb)), PINF,
                  Ite(Or(And(pa, nb), And(na, pb)), NINF, NAN))))
  return Num(tmul(to_real(x), to_real(y)), k, np)


def tinv(y):
  if is_num(y):
    return rv(1 / num_val(y)) if num_val(y) != 0 else rv(0)
  return INV(y)


def n_div(a, b, nonzero=False):
  """True division; nonzero: divisor known finite and nonzero."""
  if _native(a, b) and b != 0:
    r = Fraction(a) / Fraction(b)
    return r
  a, b = lift(a), lift(b)
  np = a.np or b.np
  x, y = to_real(a.v), to_real(b.v)
  q = tmul(x, tinv(y))
  if is_num(y) and num_val(y) != 0 and fin(b):
    nonzero = True
  if nonzero and fin(a):
    return lower(Num(q, FIN, np))
  pa, na = sgn(a)
  pb, nb = sgn(b)
  bz = And(isk(b, FIN), y == 0 if not is_num(y) else num_val(y) == 0)
  binf = Or(isk(b, PINF), isk(b, NINF))
  ainf = Or(isk(a, PINF), isk(a, NINF))
  az = And(isk(a, FIN), x == 0 if not is_num(x) else num_val(x) == 0)
  # division by zero: sign of zero ignored (treated as +0)
  k = Ite(
      Or(isk(a, NAN), isk(b, NAN), And(ainf, binf), And(az, bz)), NAN,
      Ite(bz, Ite(pa, PINF, NINF),
          Ite(binf, FIN,
              Ite(ainf, Ite(Or(And(isk(a, PINF), pb), And(isk(a, NINF), nb)), PINF, NINF), FIN))))
  v = Ite(binf, z3.RealVal(0), q)
  return Num(v, k, np)


def n_ite(c, a, b):
  if c is True:
    return a
  if c is False:
    return b
  a, b = lift(a), lift(b)
  x, y = pair(a, b)
  return Num(Ite(c, x, y), Ite(c, a.k, b.k), a.np or b.np)


def n_max(a, b):
  """Python max(a, b): keeps a unless b > a."""
  if _native(a, b):
    return max(a, b)
  return n_ite(n_lt(a, b), b, a)


def n_min(a, b):
  if _native(a, b):
    return min(a, b)
  return n_ite(n_lt(b, a), b, a)


def apply_real(fn, a, dom=None):
  """fn: z3 function of a real; kinds handled by the caller."""
  return fn(to_real(lift(a).v))


# --------------------------------------------------------- free constants
_fc_cache = {}


def consts_of(t):
  """Names of uninterpreted constants in a z3 term."""
  key = t.get_id()
  r = _fc_cache.get(key)
  if r is not None and r[0].eq(t):
    return r[1]
  out = set()
  seen = set()
  stack = [t]
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in seen:
      continue
    seen.add(i)
    if z3.is_quantifier(x):
      stack.append(x.body())
    elif z3.is_app(x):
      if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.add(x.decl().name())
      else:
        stack.extend(x.children())
  out = frozenset(out)
  _fc_cache[key] = (t, out)
  return out


class Node:
  """Cached view of a z3 term (the python wrappers are slow)."""
  __slots__ = ('t', 'id', 'app', 'quant', 'lam', 'dk', 'name', 'ch', 'vd', 'hasq', 'unint', 'sum', 'hassum', 'key')


_nodes = {}
_keys = {}  # structure up to the names of bound variables -> number


def node(t):
  i = t.get_id()
  n = _nodes.get(i)
  if n is not None:
    return n
  stack = [t]
  while stack:
    x = stack[-1]
    i = x.get_id()
    if i in _nodes:
      stack.pop()
      continue
    n = Node()
    n.t, n.id = x, i
    n.app = n.quant = n.lam = n.unint = False
    n.dk, n.name = None, ''
    key = None
    if z3.is_quantifier(x):
      ch = [x.body()]
      key = ('q', x.is_lambda(), x.is_forall()) + tuple(x.var_sort(j).get_id() for j in range(x.num_vars()))
      n.quant = True
      n.lam = x.is_lambda()
    elif z3.is_app(x):
      ch = x.children()
      n.app = True
      d = x.decl()
      key = ('a', d.get_id()) if ch else ('c', i)
      n.dk = d.kind()
      if n.dk == z3.Z3_OP_UNINTERPRETED:
        n.unint = True
        n.name = d.name()
      elif n.dk in (z3.Z3_OP_RECURSIVE,):
        n.name = d.name()
    else:
      ch = []
      key = ('c', i)
    miss = [c for c in ch if c.get_id() not in _nodes]
    if miss:
      stack.extend(miss)
      continue
    n.ch = [_nodes[c.get_id()] for c in ch]
    n.sum = n.unint and bool(ch) and (n.name.startswith('SumK!') or x.decl().eq(SUM))
    n.hassum = n.sum or any(c.hassum for c in n.ch)
    if key[0] != 'c':
      key += tuple(c.key for c in n.ch)
    n.key = _keys.setdefault(key, len(_keys))
    n.vd = max((c.vd for c in n.ch), default=0)
    n.hasq = any(c.hasq for c in n.ch)
    if n.quant:
      n.vd = max(0, n.vd - x.num_vars())
      n.hasq = n.hasq or not n.lam
    elif not n.app:
      n.vd = z3.get_var_index(x) + 1
    _nodes[i] = n
    stack.pop()
  return n


def nodes(ts):
  """All distinct sub-nodes of the terms."""
  seen = set()
  stack = [node(t) for t in ts]
  while stack:
    n = stack.pop()
    if n.id in seen:
      continue
    seen.add(n.id)
    yield n
    stack.extend(n.ch)


def subterms(ts):
  for n in nodes(ts):
    yield n.t


def has_var(t):
  """t contains de Bruijn variables not bound inside."""
  return node(t).vd > 0


def open_quant(q, args):
  """Body of a quantifier/lambda with its variables replaced by args."""
  return z3.substitute_vars(q.body(), *reversed(args))
