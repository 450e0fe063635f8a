"""Models of Python builtins and numpy (trusted semantics)."""
import ast
import contextlib
import z3
from vc import loops
from vc import poly
from vc import prover
from vc.terms import *
from vc.values import *
from vc.interp import SymRaise, veq_syn, vconsts, LazyMod, EXC_BASES

L = {}


def lib(*names):
  def deco(f):
    for n in names:
      L[n] = f
    return f
  return deco


def named(names, args, kw):
  """The arguments of a library call by name."""
  if len(args) > len(names):
    raise SymRaise('TypeError')
  kw = dict(kw.items())
  for k in kw:
    if k not in names:
      raise Unsupported(f'keyword {k}')
  return dict(zip(names, args), **kw)


# ------------------------------------------------------------ uninterpreted
def declbig(name, doms, rng, spec):
  f = z3.Function(name, *doms, rng)
  prover.BIG[name] = spec
  return f


INVM = declbig('invm', [I, AR2, I, I], R, {1: (0, 0)})
DETM = declbig('detm', [I, AR2], R, {1: (0, 0)})
EIGV = declbig('eigv', [I, AR2, I], R, {1: (0, 0)})
MINEIG = declbig('mineig', [I, AR2], R, {1: (0, 0)})
SORTED = declbig('sorted_', [I, AR1, I], R, {1: (0,)})
CHI2 = z3.Function('chi2ppf', R, R, R)
NORM = z3.Function('normppf', R, R)
Key = z3.DeclareSort('Key')
SKEY = z3.Function('skey', R, Key)
UNS = z3.Function('unskey', Key, R)
RKEY = declbig('rkey', [I, AR1], Key, {1: (0,)})
RKLEN = z3.Function('rklen', Key, I)
RKAT = z3.Function('rkat', Key, I, R)
prover.FACTS['skey'] = lambda x: [UNS(SKEY(x)) == x]


def _rk(n, lam):
  j = z3.FreshConst(I, 'rk')
  t = RKEY(n, lam)
  return [RKLEN(t) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), RKAT(t, j) == prover.sel(lam, [j])))]


prover.FACTS['rkey'] = _rk
prover.FACTS['normppf'] = lambda x: [z3.Implies(x == rv(Fraction(1, 2)), NORM(x) == 0),
                                     z3.Implies(z3.And(x > 0, 2 * x < 1), NORM(x) < 0),
                                     z3.Implies(z3.And(x < 1, 2 * x > 1), NORM(x) > 0)]
_chi = []


def _chi2(x, d):
  _chi.append((x, d))
  out = [z3.Implies(z3.And(x > 0, x < 1, d > 0), CHI2(x, d) > 0)]
  return out


prover.FACTS['chi2ppf'] = _chi2


def _sorted_facts(n, lam, j):
  i = z3.FreshConst(I, 'so')
  t = SORTED(n, lam, j)
  inr = z3.And(0 <= j, j < n)
  return [z3.Implies(inr, z3.Exists([i], z3.And(0 <= i, i < n, prover.sel(lam, [i]) == t)))]


prover.FACTS['sorted_'] = _sorted_facts


def monotone_pairs(terms):
  """Extra facts relating several applications (order of quantiles)."""
  out = []
  so = [t for t in terms if t.decl().name() == 'sorted_']
  for a in so:
    for b in so:
      if a is not b and a.arg(1).eq(b.arg(1)):
        out.append(z3.Implies(z3.And(0 <= a.arg(2), a.arg(2) <= b.arg(2), b.arg(2) < a.arg(0)), a <= b))
  for nm in ('chi2ppf', 'normppf', 'sqrt', 'log', 'exp', 'floor_'):
    ts = [t for t in terms if t.decl().name() == nm]
    for a in ts:
      for b in ts:
        if a is b:
          continue
        if nm == 'chi2ppf':
          out.append(z3.Implies(z3.And(a.arg(1) == b.arg(1), a.arg(0) > 0, a.arg(0) <= b.arg(0), b.arg(0) < 1), a <= b))
        elif nm == 'normppf':
          out.append(z3.Implies(z3.And(a.arg(0) > 0, a.arg(0) <= b.arg(0), b.arg(0) < 1), a <= b))
        elif nm == 'sqrt':
          out.append(z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) <= b.arg(0)), a <= b))
        elif nm == 'log':
          out.append(z3.Implies(z3.And(a.arg(0) > 0, a.arg(0) <= b.arg(0)), a <= b))
          out.append(z3.Implies(z3.And(a.arg(0) > 0, a.arg(0) < b.arg(0)), a < b))
        elif nm == 'floor_':
          out.append(z3.Implies(a.arg(0) <= b.arg(0), a <= b))
        else:
          out.append(z3.Implies(a.arg(0) <= b.arg(0), a <= b))
  return out


prover.PAIRS.append(monotone_pairs)


# ------------------------------------------------------------ generic context
@contextlib.contextmanager
def generic(ip, ps, dom=True):
  """Work at generic positions ps; facts recorded inside are quantified."""
  n = len(ip.pc)
  ob = ip.bound
  ip.bound = ip.bound + list(ps)
  if dom is not True:
    ip.pc.append(('c', zb(dom)))
  try:
    yield
  finally:
    new = [f for t, f in ip.pc[n:] if t == 'f']
    ip.pc = ip.pc[:n]
    ip.bound = ob
    for f in new:
      ip.pc.append(('f', zb(forall(list(ps), Implies(dom, f)))))


def domain(dims, ps):
  return And(*[d.dom(p) for d, p in zip(dims, ps)])


def dimlen(ip, d):
  """Number of positions of a dimension as an int/Num."""
  if d.sort != I:
    raise Unsupported('size of a symbolic set')
  if d.keep is None:
    return d.n if isinstance(d.n, int) else Num(d.n)
  p = param('c')
  return Num(CNT(d.zn, z3.Lambda([p], zb(tb(d.keep(p))))))


def freshlam(ip, base, dims, dt='f', np=True):
  """Array of unconstrained finite entries."""
  ps = [param('x', d.sort) for d in dims]
  f = ip.fresh_fn(base, [p.sort() for p in ps], B if dt == 'b' else I if dt == 'i' else R)
  b = f(*ps)
  return Arr(dims, Lam(ps, SBool(b) if dt == 'b' else Num(b, FIN, np)), dt)


# ------------------------------------------------------------ arrays
def isarr(ip, v):
  return isinstance(v, Ref) and isinstance(ip.cell(v), Arr)


def cellof(ip, v):
  return ip.cell(v) if isinstance(v, Ref) else v


def A(ip, v):
  """Contents as an Arr (0-dimensional for scalars)."""
  if isinstance(v, Arr):
    return v
  if isnumeric(v):
    return Arr((), Lam((), v), 'b' if isinstance(v, (bool, SBool)) else ('i' if lift(v).isint else 'f'))
  if isinstance(v, tuple):
    return A_list(ip, PyL(v))
  if isinstance(v, (ZipV, LenPos)):
    return A_list(ip, to_seq(ip, v))
  if isinstance(v, RangeV):
    return A_list(ip, to_seq(ip, v))
  if v is None or isinstance(v, (str, Opaque, EnumVal, OpaqueStr)):
    return Arr((), Lam((), v), 'o')
  if isinstance(v, Ref):
    c = ip.cell(v)
    if isinstance(c, Arr):
      return c
    if isinstance(c, (PyL, Seq)):
      return A_list(ip, c)
    return Arr((), Lam((), v), 'o')
  raise Unsupported(f'array from {type(v).__name__}')


def is_seq_like(ip, v):
  if isinstance(v, tuple):
    return True
  return isinstance(v, Ref) and isinstance(ip.cell(v), (PyL, Seq, Arr))


def A_list(ip, c):
  if isinstance(c, PyL):
    if not c.items:
      return Arr((Dim(0),), Lam((param(),), Fraction(0)), 'f')
    els = [A(ip, x) if is_seq_like(ip, x) else Arr((), Lam((), x), dt_of(x)) for x in c.items]
    nd = els[0].ndim
    if any(e.ndim != nd for e in els):
      raise SymRaise('ValueError')
    for e in els[1:]:
      for x, y in zip(els[0].dims, e.dims):
        need_eq_dims(ip, x, y)
    p = param('i')
    ps = [param('x', d.sort) for d in els[0].dims]
    if any(e.dt == 'o' for e in els):
      dt = 'o'
    else:
      dt = els[0].dt if all(e.dt == els[0].dt for e in els) else 'f'
    body = els[-1].lam(*ps)
    for j in range(len(els) - 2, -1, -1):
      body = ip.merge(p == j, els[j].lam(*ps), body)
    return Arr((Dim(len(els)),) + tuple(els[0].dims), Lam([p] + ps, body), dt)
  p = param('i', c.dim.sort)
  if isinstance(c.lam.body, Poison):
    return Arr((c.dim,), Lam((p,), Fraction(0)), 'f')
  with generic(ip, [p], c.dim.dom(p)):
    x = c.lam(p)
    e = A(ip, x) if is_seq_like(ip, x) else Arr((), Lam((), x), dt_of(x))
    for d in e.dims:
      if p.decl().name() in vconsts(d):
        # sizes varying along the list: ragged unless provably constant
        d0 = subst(d, [(p, z3.IntVal(0))])
        if not (d.keep is None and ip.prove(d.zn == d0.zn)):
          raise Unsupported('array of a ragged list')
  dims = tuple(subst(d, [(p, z3.IntVal(0))]) if p.decl().name() in vconsts(d) else d for d in e.dims)
  return Arr((c.dim,) + dims, Lam((p,) + e.lam.params, e.lam.body), e.dt)


def dt_of(x):
  if isinstance(x, (bool, SBool)):
    return 'b'
  if isnumeric(x):
    return 'i' if lift(x).isint else 'f'
  return 'o'


def need_eq_dims(ip, x, y):
  """Raise ValueError on paths where two dimensions differ."""
  if veq_syn(x, y):
    return
  if x.keep is not None and y.keep is not None and not ip.prove(ip.dims_eq(x, y)):
    raise Unsupported('combining differently filtered arrays')
  f = ip.dims_eq(x, y)
  if isinstance(f, bool):
    if not f:
      raise SymRaise('ValueError')
    return
  if ip.prove(f):
    return
  if x.keep is None and y.keep is None:
    if ip.branch(f):
      return
    raise SymRaise('ValueError')
  raise Unsupported('combining filtered and unfiltered arrays')


def isone(d):
  return isinstance(d.n, int) and d.n == 1 and d.keep is None


def broadcast(ip, arrs):
  nd = max(a.ndim for a in arrs)
  dims = []
  for ax in range(nd):
    cur = None
    for a in arrs:
      j = ax - (nd - a.ndim)
      if j < 0:
        continue
      d = a.dims[j]
      if cur is None or isone(cur):
        cur = d
      elif isone(d):
        pass
      else:
        if not veq_syn(cur, d):
          if not isinstance(cur.n, int) and isinstance(d.n, int) or True:
            need_eq_bc(ip, cur, d)
    dims.append(cur)
  return tuple(dims)


def need_eq_bc(ip, x, y):
  f = ip.dims_eq(x, y) if True else None
  if isinstance(f, bool):
    if not f:
      raise SymRaise('ValueError')
    return
  if ip.prove(f):
    return
  if x.keep is not None or y.keep is not None:
    raise Unsupported('combining differently filtered arrays')
  if ip.branch(f):
    return
  if ip.branch(Or(x.zn == 1, y.zn == 1)):
    raise Unsupported('broadcasting a symbolic dimension')
  raise SymRaise('ValueError')


def at_bc(a, dims, ps):
  nd = len(dims)
  off = nd - a.ndim
  idx = []
  for j, d in enumerate(a.dims):
    if isone(d) and not isone(dims[off + j]):
      idx.append(z3.IntVal(0))
    else:
      idx.append(ps[off + j])
  return a.lam(*idx)


def ew(ip, fn, *xs, dt='f'):
  """Elementwise application with broadcasting."""
  if not any(is_seq_like(ip, x) for x in xs):
    return fn(*xs)
  arrs = [A(ip, x) for x in xs]
  dims = broadcast(ip, arrs)
  ps = [param('x', d.sort) for d in dims]
  with generic(ip, ps, domain(dims, ps)):
    body = fn(*[at_bc(a, dims, ps) for a in arrs])
  if isinstance(body, Num):
    body = Num(body.v, body.k, True)
  if dt == 'auto':
    dt = dt_of(body)
  return ip.alloc(Arr(dims, Lam(ps, body), dt))


# ------------------------------------------------------------ scalar ops
def num(x):
  if isinstance(x, (SBool, bool)):
    return lift(x) if isinstance(x, SBool) else int(x)
  if not isnumeric(x):
    raise SymRaise('TypeError')
  return x


def nonzero(ip, b):
  b = lift(b)
  if not (isinstance(b.k, int) and b.k == FIN):
    return False
  if is_num(b.v):
    return num_val(b.v) != 0
  return ip.prove(b.v != 0, timeout=3, quick=True)


def s_div(ip, a, b):
  a, b = num(a), num(b)
  return n_div(a, b, nonzero=nonzero(ip, b))


def isfin(x):
  x = lift(x)
  return isinstance(x.k, int) and x.k == FIN


def u_real(ip, fn, x, bad):
  """fn of a number; bad(v) -> (kind when outside the domain) pairs."""
  x = lift(num(x))
  v = to_real(x.v)
  r = fn(v)
  k = FIN
  for cond, kind in reversed(bad(x, v)):
    c = cond
    if c is False:
      continue
    if c is not True and ip.prove(Not(c), timeout=3, quick=True):
      continue
    k = Ite(c, kind, k)
  return Num(r, k, True)


def fsqrt(ip, x):
  if isinstance(x, (int, Fraction)) and x >= 0:
    from math import isqrt
    f = Fraction(x)
    a, b = isqrt(f.numerator), isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
      return Fraction(a, b)
  return u_real(ip, SQRT, x, lambda x, v: [(And(isk(x, FIN), v < 0 if not is_num(v) else num_val(v) < 0), NAN),
                                            (isk(x, NINF), NAN), (isk(x, NAN), NAN), (isk(x, PINF), PINF)])


def flog(ip, x):
  return u_real(ip, LOG, x, lambda x, v: [(And(isk(x, FIN), v < 0 if not is_num(v) else num_val(v) < 0), NAN),
                                           (And(isk(x, FIN), v == 0 if not is_num(v) else num_val(v) == 0), NINF),
                                           (isk(x, NINF), NAN), (isk(x, NAN), NAN), (isk(x, PINF), PINF)])


def fexp(ip, x):
  x = lift(num(x))
  v = Ite(isk(x, NINF), z3.RealVal(0), EXP(to_real(x.v)))
  k = x.k if isinstance(x.k, int) and x.k == FIN else Ite(isk(x, NINF), FIN, x.k)
  return Num(v, k, True)


def s_pow(ip, a, b):
  a, b = num(a), num(b)
  if isinstance(b, int) and b >= 0 and b <= 6:
    r = 1
    for _ in range(b):
      r = n_mul(r, a)
    return r
  if isinstance(b, int) and b < 0:
    return s_div(ip, 1, s_pow(ip, a, -b))
  if isinstance(b, Fraction) and b == Fraction(1, 2):
    return fsqrt(ip, a)
  if isinstance(a, int) and isinstance(b, int):
    return a**b
  la, lb = lift(a), lift(b)
  if isfin(la) and isfin(lb):
    v = POW(to_real(la.v), to_real(lb.v))
    return Num(v, FIN, la.np or lb.np)
  raise Unsupported('power of non-finite numbers')


def s_mod(ip, a, b):
  a, b = num(a), num(b)
  if isinstance(a, int) and isinstance(b, int) and b != 0:
    return a % b
  la, lb = lift(a), lift(b)
  if la.isint and lb.isint and ip.prove(lb.v > 0):
    return Num(la.v % lb.v)
  raise Unsupported('modulo')


def s_floordiv(ip, a, b):
  a, b = num(a), num(b)
  if isinstance(a, int) and isinstance(b, int) and b != 0:
    return a // b
  la, lb = lift(a), lift(b)
  if la.isint and lb.isint and ip.prove(lb.v > 0):
    return Num(la.v / lb.v)
  raise Unsupported('floor division')


def s_bool(fn):
  def f(a, b):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
      return mkbool(fn(tb(a), tb(b)))
    raise Unsupported('bitwise operation on numbers')
  return f


def s_mul(a, b):
  return n_mul(num(a), num(b))


BIN = {
    ast.Add: lambda ip: lambda a, b: n_add(num(a), num(b)),
    ast.Sub: lambda ip: lambda a, b: n_sub(num(a), num(b)),
    ast.Mult: lambda ip: s_mul,
    ast.Div: lambda ip: lambda a, b: s_div(ip, a, b),
    ast.Pow: lambda ip: lambda a, b: s_pow(ip, a, b),
    ast.Mod: lambda ip: lambda a, b: s_mod(ip, a, b),
    ast.FloorDiv: lambda ip: lambda a, b: s_floordiv(ip, a, b),
    ast.BitAnd: lambda ip: s_bool(And),
    ast.BitOr: lambda ip: s_bool(Or),
    ast.BitXor: lambda ip: s_bool(lambda a, b: Not(Iff(a, b))),
}


@lib('$binop')
def binop(ip, op, a, b):
  t = type(op)
  if t is ast.MatMult:
    return dot(ip, a, b)
  if isarr(ip, a) or isarr(ip, b):
    dt = 'auto'
    return ew(ip, BIN[t](ip), a, b, dt=dt)
  if isnumeric(a) and isnumeric(b):
    if t is ast.Div and not (lift(a).np or lift(b).np):
      if not nonzero(ip, b):
        lb = lift(b)
        z = And(isk(lb, FIN), lb.v == 0 if not is_num(lb.v) else num_val(lb.v) == 0)
        if ip.branch(z):
          raise SymRaise('ZeroDivisionError')
    return BIN[t](ip)(a, b)
  if t is ast.Add:
    if isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)):
      return a + b if isinstance(a, str) and isinstance(b, str) else OpaqueStr()
    if isinstance(a, tuple) and isinstance(b, tuple):
      return a + b
    if is_list(ip, a) and is_list(ip, b):
      return ip.alloc(concat(ip, ip.cell(a), ip.cell(b)))
  if t is ast.Mult:
    for x, y in ((a, b), (b, a)):
      if is_list(ip, x) and isinstance(y, int) and isinstance(ip.cell(x), PyL):
        return ip.alloc(PyL(ip.cell(x).items * y))
      if is_list(ip, x) and isinstance(y, Num) and isinstance(ip.cell(x), PyL) and len(ip.cell(x).items) == 1:
        p = param('r')
        n = Ite(y.v < 0, z3.IntVal(0), y.v)
        return ip.alloc(Seq(Dim(n), Lam((p,), ip.cell(x).items[0])))
      if isinstance(x, (str, OpaqueStr)):
        return OpaqueStr()
  if t is ast.Mod and isinstance(a, (str, OpaqueStr)):
    return OpaqueStr()
  if t is ast.Sub and isinstance(a, SetV) and isinstance(b, SetV):
    return a.minus(ip, b)
  raise SymRaise('TypeError') if (a is None or b is None) else Unsupported(
      f'binary operation {t.__name__} on {type(a).__name__}, {type(b).__name__}')


@lib('$unop')
def unop(ip, op, v):
  if isinstance(op, ast.USub):
    return ew(ip, lambda x: n_neg(num(x)), v, dt='auto')
  if isinstance(op, ast.UAdd):
    return v
  if isinstance(op, ast.Invert):
    def inv(x):
      if isinstance(x, (bool, SBool)):
        return mkbool(Not(tb(x)))
      raise Unsupported('bitwise not')
    return ew(ip, inv, v, dt='b')
  raise Unsupported('unary operation')


def is_list(ip, v):
  return isinstance(v, Ref) and isinstance(ip.cell(v), (PyL, Seq, PlaceL))


def concat(ip, a, b):
  if isinstance(a, PyL) and isinstance(b, PyL):
    return PyL(a.items + b.items)
  a, b = ip.as_seq(a), ip.as_seq(b)
  t = param('t')
  if isinstance(a.dim.n, int) and a.dim.n == 0:
    return b
  if isinstance(b.dim.n, int) and b.dim.n == 0:
    return a
  z = a.dim.zn
  keep = None
  if a.dim.keep is not None or b.dim.keep is not None:
    ka = tb(a.dim.keep(t)) if a.dim.keep is not None else True
    kb = tb(b.dim.keep(t - z)) if b.dim.keep is not None else True
    keep = Lam((t,), mkbool(Or(And(t < z, ka), And(t >= z, kb))))
  return Seq(Dim(z + b.dim.zn, keep), Lam((t,), ip.merge(t < z, a.lam(t), b.lam(t - z))))


CMP = {
    ast.Lt: n_lt, ast.LtE: n_le, ast.Gt: lambda a, b: n_lt(b, a), ast.GtE: lambda a, b: n_le(b, a),
    ast.Eq: n_eq, ast.NotEq: lambda a, b: Not(n_eq(a, b)),
}


def s_cmp(ip, t):
  def f(a, b):
    if isnumeric(a) and isnumeric(b):
      return mkbool(CMP[t](num(a), num(b)))
    if t in (ast.Eq, ast.NotEq):
      r = py_eq(ip, a, b)
      return mkbool(r if t is ast.Eq else Not(r))
    raise SymRaise('TypeError')
  return f


def py_eq(ip, a, b):
  """Formula of Python ==."""
  if isnumeric(a) and isnumeric(b):
    return n_eq(num(a), num(b))
  if isinstance(a, PosV) and isinstance(b, PosV):
    return True if a.p.eq(b.p) else a.p == b.p
  if isinstance(a, tuple) and isinstance(b, tuple):
    if len(a) != len(b):
      return False
    return And(*[py_eq(ip, x, y) for x, y in zip(a, b)])
  if isinstance(a, (OpaqueStr,)) or isinstance(b, OpaqueStr):
    raise Unsupported('comparison of untracked strings')
  if is_list(ip, a) and is_list(ip, b):
    x, y = ip.as_seq(ip.cell(a)), ip.as_seq(ip.cell(b))
    if x.dim.keep is not None or y.dim.keep is not None:
      raise Unsupported('comparison of filtered lists')
    p = param('q')
    if isinstance(x.lam.body, Poison) or isinstance(y.lam.body, Poison):
      return x.dim.zn == y.dim.zn
    return And(x.dim.zn == y.dim.zn, forall([p], Implies(x.dim.inrange(p), py_eq(ip, x.lam(p), y.lam(p)))))
  if isinstance(a, Ref) and isinstance(b, Ref):
    ca = ip.cell(a)
    if isinstance(ca, Obj) and isinstance(ca.cls, ClassVal) and (ca.cls.find('__eq__')[0] is not None or ca.cls.dataclass):
      raise Unsupported('user-defined equality')
    if isinstance(ca, Obj) or isinstance(ip.cell(b), Obj):
      return identical(ip, a, b)
  if isnumeric(a) != isnumeric(b) or a is None or b is None:
    if isinstance(a, Ref) or isinstance(b, Ref):
      if a is None or b is None:
        return False
      raise Unsupported('comparison')
    return a is b
  return ip.same(a, b)


def identical(ip, a, b):
  if isinstance(a, Ref) and isinstance(b, Ref):
    if a.oid != b.oid:
      return False
    return And(*[True if iv(x).eq(iv(y)) else iv(x) == iv(y) for x, y in zip(a.idx, b.idx)])
  if isinstance(a, EnumVal) and isinstance(b, EnumVal):
    return a.cls is b.cls and a.name == b.name
  if a is None or b is None or isinstance(a, Ref) or isinstance(b, Ref):
    return a is b
  if isinstance(a, bool) and isinstance(b, bool):
    return a == b
  if isinstance(a, Opaque) and isinstance(b, Opaque):
    return py_eq(ip, a, b)
  if isinstance(a, Lib) and isinstance(b, Lib):
    return a.name == b.name
  if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
    return Iff(tb(a), tb(b))
  if type(a) is not type(b):
    return False
  raise Unsupported('identity comparison')


@lib('$compare')
def compare(ip, op, a, b):
  t = type(op)
  if t in (ast.Is, ast.IsNot):
    r = identical(ip, a, b)
    return mkbool(r if t is ast.Is else Not(r))
  if t in (ast.In, ast.NotIn):
    r = contains(ip, b, a)
    return mkbool(r if t is ast.In else Not(r))
  if isarr(ip, a) or isarr(ip, b):
    return ew(ip, s_cmp(ip, t), a, b, dt='b')
  if isinstance(a, SetV) and isinstance(b, SetV):
    if t is ast.LtE:
      return mkbool(a.subset(ip, b))
    if t is ast.Eq:
      return mkbool(And(a.subset(ip, b), b.subset(ip, a)))
  if isinstance(a, PosV) and isinstance(b, (int, Num)) or isinstance(b, PosV) and isinstance(a, (int, Num)):
    raise Unsupported('comparing the index of a filtered enumeration')
  return s_cmp(ip, t)(a, b)


def contains(ip, coll, x):
  if isinstance(coll, str) and isinstance(x, str):
    return x in coll
  if isinstance(coll, tuple):
    return Or(*[Or(identical_safe(ip, x, y), py_eq(ip, x, y)) for y in coll])
  if isinstance(coll, SetV):
    return coll.has(ip, x)
  if isinstance(coll, Ref):
    c = ip.cell(coll)
    if isinstance(c, PyL):
      return Or(*[py_eq(ip, x, y) for y in c.items])
    if isinstance(c, Seq):
      p = param('q', c.dim.sort)
      if isinstance(c.lam.body, Poison):
        return False
      e = c.lam(p)
      if isinstance(x, Ref) and isinstance(e, Ref) and e.oid == x.oid and len(e.idx) == 1 and e.idx[0].eq(p):
        return c.dim.dom(x.idx[0])
      return exists([p], And(c.dim.dom(p), py_eq(ip, x, e)))
    if isinstance(c, Arr) and c.ndim == 1:
      p = param('q')
      return exists([p], And(c.dims[0].dom(p), py_eq(ip, x, c.lam(p))))
    if isinstance(c, PyD):
      if isinstance(x, (str, int)):
        return x in c.d
      if not c.d:
        return False
      if isinstance(x, Opaque):
        return Or(*[py_eq(ip, x, y) for y in c.d])
    if isinstance(c, MapD):
      return tb(c.dom(keyterm(ip, x, c.sort)))
    if isinstance(c, OverD):
      kt = keyterm(ip, x, c.base.sort)
      return Or(tb(c.base.dom(kt)), *[kt == k for k, _ in c.over])
    if isinstance(c, FamD):
      p = param('q', c.dim.sort)
      e = c.key(p)
      if isinstance(x, Ref) and isinstance(e, Ref) and e.oid == x.oid and len(e.idx) == 1 and e.idx[0].eq(p):
        return c.dim.dom(x.idx[0])
      return exists([p], And(c.dim.dom(p), py_eq(ip, x, e)))
  d, lam = iterate(ip, coll)
  p = param('q', d.sort)
  return exists([p], And(d.dom(p), py_eq(ip, x, lam(p))))


def identical_safe(ip, a, b):
  try:
    return identical(ip, a, b)
  except Unsupported:
    return False


def keyterm(ip, x, sort):
  if isinstance(x, Opaque) and x.t.sort() == sort:
    return x.t
  raise Unsupported('dictionary key')


# ------------------------------------------------------------ sets
class SetV:
  """Set of the elements lam(p) for p in dim (immutable)."""

  def __init__(self, dim, lam):
    self.dim, self.lam = dim, lam

  def has(self, ip, x):
    p = param('q', self.dim.sort)
    if isinstance(self.lam.body, Poison):
      return False
    return exists([p], And(self.dim.dom(p), py_eq(ip, x, self.lam(p))))

  def subset(self, ip, other):
    p = param('q', self.dim.sort)
    if isinstance(self.lam.body, Poison):
      return True
    if isinstance(other, (PyL, tuple)):
      return forall([p], Implies(self.dim.dom(p), contains(ip, tuple(other), self.lam(p))))
    return forall([p], Implies(self.dim.dom(p), contains(ip, other, self.lam(p))))

  def minus(self, ip, other):
    p = param('q', self.dim.sort)
    return SetV(Dim(self.dim.n, Lam((p,), mkbool(And(self.dim.dom(p), Not(other.has(ip, self.lam(p)))))), self.dim.sort), self.lam)


@lib('$mkset', 'builtins.set', 'builtins.frozenset')
def mkset(ip, v=None, kw=None):
  if isinstance(v, list):
    if not v:
      return SetV(Dim(0), Lam((param(),), Poison('empty')))
    v = v[0]
  if isinstance(v, SetV):
    return v
  if isinstance(v, tuple):
    s = ip.as_seq(PyL(v))
    return SetV(s.dim, s.lam)
  d, lam = iterate(ip, v)
  p = param('p', d.sort)
  try:
    b = lam(p)
  except Unsupported:
    b = Poison('empty')
  return SetV(d, Lam((p,), b))


# ------------------------------------------------------------ iteration
@lib('$concrete_items')
def concrete_items(ip, v):
  if isinstance(v, tuple):
    return list(v)
  if isinstance(v, str):
    return list(v)
  if isinstance(v, RangeV):
    if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
      r = range(v.lo, v.hi, v.step)
      return list(r) if len(r) <= 64 else None
    return None
  if isinstance(v, ZipV):
    if v.kind == 'enumerate':
      xs = concrete_items(ip, v.parts[0])
      return None if xs is None else [(i + v.parts[1], x) for i, x in enumerate(xs)]
    if v.kind == 'map':
      xs = concrete_items(ip, v.parts[1])
      return None if xs is None else [ip.call(v.parts[0], [x]) for x in xs]
    if v.kind == 'reversed':
      xs = concrete_items(ip, v.parts[0])
      return None if xs is None else xs[::-1]
    if v.kind == 'zip':
      cs = [concrete_items(ip, x) for x in v.parts]
      if all(c is not None for c in cs):
        return list(zip(*cs))
      if any(c is not None for c in cs):
        n = min(len(c) for c in cs if c is not None)
        out = []
        for x, c in zip(v.parts, cs):
          if c is not None:
            out.append(c[:n])
            continue
          d, lam = iterate(ip, x)
          if d.keep is None and ip.prove(d.zn >= n):
            out.append([lam(z3.IntVal(i)) for i in range(n)])
          else:
            return None
        return list(zip(*out))
      return None
    return None
  if isinstance(v, Ref):
    c = ip.cell(v)
    if isinstance(c, PyL):
      return list(c.items)
    if isinstance(c, Seq) and isinstance(c.dim.n, int) and c.dim.keep is None and c.dim.sort == I:
      return [c.lam(i) for i in range(c.dim.n)]
    if isinstance(c, Arr) and c.dims and isinstance(c.dims[0].n, int) and c.dims[0].keep is None and c.dims[0].n <= 64:
      return [row(ip, c, z3.IntVal(i)) for i in range(c.dims[0].n)]
    if isinstance(c, PyD):
      return list(c.d)
  return None


def row(ip, c, p):
  """Element/row p of an array."""
  if c.ndim == 1:
    x = c.lam(p)
    return Num(x.v, x.k, True) if isinstance(x, Num) else x
  ps = c.lam.params[1:]
  qs = [param('x', d.sort) for d in c.dims[1:]]
  return ip.alloc(Arr(c.dims[1:], Lam(qs, c.lam(p, *qs)), c.dt))


@lib('$iter')
def iterate(ip, v):
  """(Dim, fn position -> element)."""
  if isinstance(v, tuple):
    s = ip.as_seq(PyL(v))
    return s.dim, s.lam
  if isinstance(v, SetV):
    return v.dim, v.lam
  if isinstance(v, LenPos):
    return v.dim, v.lam
  if isinstance(v, RangeV):
    lo, hi, st = lift(v.lo), lift(v.hi), v.step
    if not isinstance(st, int) or st not in (1, -1):
      raise Unsupported('range step')
    if not (lo.isint and hi.isint):
      raise SymRaise('TypeError')
    n = lower(Num((hi.v - lo.v) if st == 1 else (lo.v - hi.v)))
    if is_num(lo.v) and num_val(lo.v) == 0 and st == 1:
      n = hi.v
      z = n
      if not is_num(n) and not ip.prove(n >= 0, timeout=2, quick=True):
        z = z3.If(n < 0, z3.IntVal(0), n)
      return Dim(Num(z)), (lambda k: lower(Num(iv(k))))
    z = n.v if isinstance(n, Num) else z3.IntVal(max(n, 0))
    if not is_num(z) and not ip.prove(z >= 0, timeout=2, quick=True):
      z = z3.If(z < 0, z3.IntVal(0), z)
    return Dim(Num(z)), (lambda k: lower(Num(tadd(lo.v, iv(k)) if st == 1 else lo.v - iv(k))))
  if isinstance(v, ZipV):
    if v.kind == 'enumerate':
      d, lam = iterate(ip, v.parts[0])
      st = v.parts[1]
      if d.keep is None and d.sort == I:
        return d, (lambda k: (n_add(lower(Num(iv(k))), st), lam(k)))
      return d, (lambda k: (PosV(d, k, st), lam(k)))
    if v.kind == 'map':
      d, lam = iterate(ip, v.parts[1])
      return d, (lambda k: ip.call(v.parts[0], [lam(k)]))
    if v.kind == 'reversed':
      d, lam = iterate(ip, v.parts[0])
      if d.keep is not None or d.sort != I:
        raise Unsupported('reversed')
      return d, (lambda k: lam(d.zn - 1 - iv(k)))
    if v.kind == 'zip':
      ds = [iterate(ip, x) for x in v.parts]
      d0 = ds[0][0]
      keeps = [d.keep is not None for d, _ in ds]
      if any(keeps):
        for d, _ in ds[1:]:
          if not veq_syn(d, d0) and not (d.keep is not None and d0.keep is not None and ip.prove(ip.dims_eq(d, d0))):
            raise Unsupported('zip of differently filtered lists')
        return d0, (lambda k: tuple(l(k) for _, l in ds))
      z = d0.zn
      for d, _ in ds[1:]:
        if d.zn.eq(z) or ip.prove(d.zn == z, timeout=3, quick=True):
          continue
        z = z3.If(d.zn < z, d.zn, z)
      return Dim(Num(z)), (lambda k: tuple(l(k) for _, l in ds))
    if v.kind == 'items':
      d, kl, vl = dict_iter(ip, v.parts[0])
      return d, (lambda k: (kl(k), vl(k)))
    if v.kind == 'values':
      d, kl, vl = dict_iter(ip, v.parts[0])
      return d, vl
    if v.kind == 'keys':
      d, kl, vl = dict_iter(ip, v.parts[0])
      return d, kl
  if isinstance(v, Ref):
    c = ip.cell(v)
    if isinstance(c, (PyL, Seq)):
      s = ip.as_seq(c)
      return s.dim, s.lam
    if isinstance(c, Arr):
      if c.ndim == 0:
        raise SymRaise('TypeError')
      return c.dims[0], (lambda k: row(ip, c, iv(k) if c.dims[0].sort == I else k))
    if isinstance(c, (MapD, FamD, PyD)):
      d, kl, vl = dict_iter(ip, v)
      return d, kl
    if isinstance(c, PlaceL):
      raise Unsupported('reading a list while a loop builds it')
    if isinstance(c, Obj) and isinstance(c.cls, ClassVal):
      m, _ = c.cls.find('__iter__')
      if m is None and c.cls.find('__len__')[0] is None:
        raise SymRaise('TypeError')
      raise Unsupported('iteration over an object')
  if v is None or isnumeric(v):
    raise SymRaise('TypeError')
  raise Unsupported(f'iteration over {type(v).__name__}')


def dict_iter(ip, r):
  c = ip.cell(r)
  if isinstance(c, FamD):
    return c.dim, c.key, c.val
  if isinstance(c, MapD):
    p = c.dom.params[0]
    d = Dim(0, c.dom, c.sort)
    return d, (lambda k: Opaque(k, 'key')), c.val
  if isinstance(c, PyD):
    ks = list(c.d)
    s = ip.as_seq(PyL(ks))
    w = ip.as_seq(PyL([c.d[k] for k in ks]))
    return s.dim, s.lam, w.lam
  raise Unsupported('dictionary iteration')


def to_seq(ip, v):
  c = cellof(ip, v)
  if isinstance(c, PlaceL):
    raise Unsupported('reading a list while a loop builds it')
  if isinstance(c, (PyL, Seq)):
    return c
  its = concrete_items(ip, v)
  if its is not None:
    return PyL(its)
  d, lam = iterate(ip, v)
  p = param('p', d.sort)
  with generic(ip, [p], d.dom(p)):
    b = lam(p)
  if isinstance(b, Ref) and b.oid in ip.heap and not isinstance(ip.heap[b.oid], Fam) and p.decl().name() in vconsts(ip.heap[b.oid]):
    q = param('f', d.sort)
    ip.heap[b.oid] = Fam((q,), subst(ip.heap[b.oid], [(p, q)]))
    b = Ref(b.oid, (p,))
  return Seq(d, Lam((p,), b))


@lib('$mklist')
def mklist(ip, v):
  return v


@lib('$append')
def append(ip, ref, x):
  c = ip.cell(ref)
  if isinstance(c, PyL):
    ip.setcell(ref, PyL(c.items + (x,)))
  elif isinstance(c, PlaceL):
    ip.setcell(ref, PlaceL(c.tag, c.app + (x,)))
  elif isinstance(c, Seq):
    ip.setcell(ref, concat(ip, c, PyL((x,))))
  else:
    raise Unsupported('append')


@lib('$list_extend')
def list_extend(ip, ref, val):
  c = ip.cell(ref)
  if isinstance(c, PlaceL):
    its = concrete_items(ip, val)
    if its is None:
      raise Unsupported('extending a list inside a loop')
    ip.setcell(ref, PlaceL(c.tag, c.app + tuple(its)))
    return
  ip.setcell(ref, concat(ip, c, to_seq(ip, val)))


@lib('$mkdict')
def mkdict(ip, keys, vals):
  k, v = ip.as_seq(ip.cell(keys)), ip.as_seq(ip.cell(vals))
  p = param('d', k.dim.sort)
  e = k.lam(p)
  if isinstance(e, Ref) and len(e.idx) == 1 and e.idx[0].eq(p):
    return ip.alloc(FamD(k.dim, Lam((p,), e), Lam((p,), v.lam(p))))
  if isinstance(e, Opaque):
    raise Unsupported('dictionary with computed keys')
  raise Unsupported('dictionary comprehension')


# ------------------------------------------------------------ subscripts
def index_in(ip, i, n, neg=True):
  """Normalise an index; IndexError on paths where it is out of range."""
  if isinstance(i, (bool, SBool)):
    i = num(i)
  if isinstance(i, int) and isinstance(n, int):
    if not -n <= i < n:
      raise SymRaise('IndexError')
    return i if i >= 0 else n + i
  li = lift(i)
  if not li.isint:
    raise SymRaise('IndexError' if li.np else 'TypeError')
  z, nz = li.v, iv(n if not isinstance(n, Num) else n.v)
  if isinstance(i, int):
    ok = (nz > i) if i >= 0 else (nz >= -i)
    if not ip.prove(ok, timeout=4, quick=True) and not ip.branch(ok):
      raise SymRaise('IndexError')
    return i if i >= 0 else Num(nz + i)
  if ip.prove(z3.And(z >= 0, z < nz), timeout=4, quick=True):
    return i
  if ip.branch(z3.And(z >= 0, z < nz)):
    return i
  if ip.branch(z3.And(z < 0, z >= -nz)):
    return Num(z + nz)
  raise SymRaise('IndexError')


def zi(x):
  return iv(x) if isinstance(x, int) else x.v


def elem_at(ip, dim, lam, i):
  """Element number i of a (possibly filtered) dimension."""
  if isinstance(i, PosV):
    if veq_syn(i.dim, dim) or ip.prove(ip.dims_eq(i.dim, dim)):
      if i.off != 0:
        raise Unsupported('offset enumeration')
      return lam(i.p)
    raise Unsupported('index of another enumeration')
  if dim.keep is None and dim.sort == I:
    j = index_in(ip, i, dim.n if isinstance(dim.n, int) else Num(dim.n))
    return lam(zi(j))
  if isinstance(i, int) and i in (0, -1):
    q = param('q', dim.sort)
    if not ip.branch(exists([q], dim.dom(q))):
      raise SymRaise('IndexError')
    p = ip.fresh('first', dim.sort)
    ip.fact(dim.dom(p))
    if dim.sort == I:
      ip.fact(forall([q], Implies(dim.dom(q), (p <= q) if i == 0 else (q <= p))))
    return lam(p)
  raise Unsupported('index into a filtered list')


def slice_bounds(ip, s, n):
  """(lo, length) of a slice of n elements."""
  if s.step is not None and s.step != 1:
    raise Unsupported('slice step')
  nz = iv(n)

  def clip(x, default):
    if x is None:
      return default
    if isinstance(x, int) and isinstance(n, int):
      return z3.IntVal(max(0, min(n, x if x >= 0 else n + x)))
    lx = lift(x)
    if not lx.isint:
      raise SymRaise('TypeError')
    z = lx.v
    if isinstance(x, int) and x < 0:
      z = nz + x
      return z if ip.prove(z >= 0, timeout=2, quick=True) else z3.If(z < 0, z3.IntVal(0), z)
    if ip.prove(z3.And(z >= 0, z <= nz), timeout=2, quick=True):
      return z
    if ip.prove(z >= 0, timeout=2, quick=True):
      return z3.If(z > nz, nz, z)
    return z3.If(z < 0, z3.If(z + nz < 0, z3.IntVal(0), z + nz), z3.If(z > nz, nz, z))

  lo, hi = clip(s.lo, z3.IntVal(0)), clip(s.hi, nz)
  d = lower(Num(hi - lo)) if not (is_num(hi) and is_num(lo)) else int(num_val(hi) - num_val(lo))
  if isinstance(d, int):
    return lo, max(0, d)
  dz = z3.simplify(d.v)
  if is_num(lo) and num_val(lo) == 0:
    dz = hi
  if z3.is_int_value(dz):
    return lo, max(0, dz.as_long())
  if not ip.prove(dz >= 0, timeout=2, quick=True):
    dz = z3.If(dz < 0, z3.IntVal(0), dz)
  return lo, dz


def slice_dim(ip, dim, s):
  """(new Dim, position map)."""
  if s.lo is None and s.hi is None and s.step is None:
    return dim, (lambda p: p)
  if s.lo is None and s.hi is None and s.step == -1 and dim.keep is None:
    return dim, (lambda p: dim.zn - 1 - p)
  if dim.keep is not None or dim.sort != I:
    if s.step is None and (s.lo in (None, 0)) and s.hi is None:
      return dim, (lambda p: p)
    raise Unsupported('slice of a filtered list')
  lo, ln = slice_bounds(ip, s, dim.n)
  if is_num(lo) and num_val(lo) == 0:
    return Dim(ln), (lambda p: p)
  return Dim(ln), (lambda p: tadd(lo, iv(p)))


def is_boolseq(ip, k):
  if not is_seq_like(ip, k):
    return False
  a = A(ip, k)
  return a.dt == 'b' and a.ndim >= 1


def filter_dim(ip, dim, mask):
  """Dim keeping positions where the mask (same dimension) holds."""
  md = mask.dims[0]
  if not veq_syn(md, dim):
    if dim.keep is None and md.keep is None:
      if not ip.prove(md.zn == dim.zn):
        if not ip.branch(md.zn == dim.zn):
          raise SymRaise('IndexError')
    elif not ip.prove(ip.dims_eq(md, dim)):
      raise Unsupported('mask of another filtered list')
  p = param('m', dim.sort)
  return Dim(dim.n, Lam((p,), mkbool(And(tb(dim.keep(p)) if dim.keep is not None else True, tb(mask.lam(p))))), dim.sort)


@lib('$getitem')
def getitem(ip, o, k):
  if isinstance(o, tuple):
    if isinstance(k, SliceV):
      if all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
        return o[slice(k.lo, k.hi, k.step)]
      raise Unsupported('slice of a tuple')
    if isinstance(k, int) and not isinstance(k, bool):
      if not -len(o) <= k < len(o):
        raise SymRaise('IndexError')
      return o[k]
    s = ip.as_seq(PyL(o))
    return elem_at(ip, s.dim, s.lam, k)
  if isinstance(o, str):
    return OpaqueStr()
  if isinstance(o, Ref):
    c = ip.cell(o)
    if isinstance(c, PlaceL):
      raise Unsupported('reading a list while a loop builds it')
    if isinstance(c, PyL):
      if isinstance(k, int) and not isinstance(k, bool):
        if not -len(c.items) <= k < len(c.items):
          raise SymRaise('IndexError')
        return c.items[k]
      if isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
        return ip.alloc(PyL(c.items[slice(k.lo, k.hi, k.step)]))
      c = ip.as_seq(c)
    if isinstance(c, Seq):
      if isinstance(k, SliceV):
        d, f = slice_dim(ip, c.dim, k)
        p = param('s', d.sort)
        return ip.alloc(Seq(d, Lam((p,), c.lam(f(p)) if not isinstance(c.lam.body, Poison) else c.lam.body)))
      if is_seq_like(ip, k):
        raise SymRaise('TypeError')
      return elem_at(ip, c.dim, c.lam, k)
    if isinstance(c, Arr):
      return arr_getitem(ip, o, c, k)
    if isinstance(c, PyD):
      if isinstance(k, (str, int)) and not isinstance(k, bool):
        if k in c.d:
          return c.d[k]
        if c.default is not None:
          v = ip.call(c.default, [])
          setitem(ip, o, k, v)
          return v
        raise SymRaise('KeyError')
      if isinstance(k, Opaque) and not c.d and c.default is not None:
        return default_get(ip, o, k)
      if isinstance(k, Opaque):
        for kk, vv in c.d.items():
          if isinstance(kk, Opaque) and ip.branch(py_eq(ip, k, kk)):
            return vv
        raise SymRaise('KeyError')
      raise Unsupported('dictionary key')
    if isinstance(c, MapD):
      kt = keyterm(ip, k, c.sort)
      if c.default is not None:
        return default_get(ip, o, k)
      if not ip.branch(tb(c.dom(kt))):
        raise SymRaise('KeyError')
      return c.val(kt)
    if isinstance(c, OverD):
      kt = keyterm(ip, k, c.base.sort)
      for kk, vv in reversed(c.over):
        if kk.eq(kt) or ip.branch(kk == kt):
          return vv
      if not ip.branch(tb(c.base.dom(kt))):
        raise SymRaise('KeyError')
      return c.base.val(kt)
    if isinstance(c, FamD):
      p = param('q', c.dim.sort)
      e = c.key(p)
      if isinstance(k, Ref) and e.oid == k.oid and len(e.idx) == 1 and e.idx[0].eq(p):
        if not ip.branch(c.dim.dom(k.idx[0])):
          raise SymRaise('KeyError')
        return c.val(k.idx[0])
      raise SymRaise('KeyError')
    if isinstance(c, Obj) and isinstance(c.cls, ClassVal):
      m, _ = c.cls.find('__getitem__')
      if m is not None:
        return ip.call(m, [o, k])
      raise SymRaise('TypeError')
  if o is None or isnumeric(o):
    raise SymRaise('TypeError')
  raise Unsupported(f'subscript of {type(o).__name__}')


def default_get(ip, ref, k):
  """Lookup in a defaultdict with symbolic keys."""
  c = ip.cell(ref)
  sort = k.t.sort()
  if isinstance(c, PyD):
    c = default_map(ip, c, sort)
  p = c.dom.params[0]
  dv = c.default
  v = c.val(k.t)
  if not isinstance(v, Ref):
    d0 = ip.call(dv, [])
    v = ip.merge(tb(c.dom(k.t)), v, d0) if not ip.prove(tb(c.dom(k.t)), timeout=1, quick=True) else v
    nd = Lam((p,), mkbool(Or(tb(c.dom(p)), p == k.t)))
    nv = Lam((p,), ip.merge(p == k.t, v, c.val(p)))
    ip.setcell(ref, MapD(sort, nd, nv, dv))
    return v
  ip.setcell(ref, MapD(sort, Lam((p,), mkbool(Or(tb(c.dom(p)), p == k.t))), c.val, dv))
  return v


def default_map(ip, c, sort):
  """Empty defaultdict keyed by a sort: absent keys hold the default."""
  p = param('dk', sort)
  v = ip.call(c.default, [])
  if isinstance(v, Ref):
    cell = ip.heap[v.oid]
    q = param('f', sort)
    if isinstance(cell, PyD) and not cell.d and cell.default is not None:
      inner = ip.call(cell.default, [])
      z = param('dk', sort)
      cell = MapD(sort, Lam((z,), False), Lam((z,), inner), cell.default)
    ip.heap[v.oid] = Fam((q,), cell)
    v = Ref(v.oid, (p,))
  return MapD(sort, Lam((p,), False), Lam((p,), v), c.default)


def arr_getitem(ip, ref, c, k):
  if not isinstance(k, tuple):
    k = (k,)
  k = list(k)
  # ellipsis
  ne = sum(1 for x in k if x is Ellipsis)
  used = 0
  for x in k:
    if x is None or x is Ellipsis:
      continue
    used += A(ip, x).ndim if is_boolseq(ip, x) else 1
  if ne:
    i = [j for j, x in enumerate(k) if x is Ellipsis][0]
    k = k[:i] + [SliceV(None, None, None)] * (c.ndim - used) + k[i + 1:]
  if used > c.ndim:
    raise SymRaise('IndexError')
  dims, maps = [], []
  ax = 0
  ps = []
  fancy = 0
  for x in k:
    if x is None:
      dims.append(Dim(1))
      ps.append(param('x'))
      continue
    d = c.dims[ax]
    if isinstance(x, SliceV):
      nd, f = slice_dim(ip, d, x)
      p = param('x', nd.sort)
      dims.append(nd)
      ps.append(p)
      maps.append(f(p))
    elif is_boolseq(ip, x):
      m = A(ip, x)
      if m.ndim != 1:
        raise Unsupported('multi-dimensional mask')
      nd = filter_dim(ip, d, m)
      p = param('x', nd.sort)
      dims.append(nd)
      ps.append(p)
      maps.append(p)
      fancy += 1
    elif is_seq_like(ip, x):
      m = A(ip, x)
      if m.ndim != 1:
        raise Unsupported('multi-dimensional index array')
      if m.dt not in ('i',) and not (isinstance(m.dims[0].n, int) and m.dims[0].n == 0):
        raise SymRaise('IndexError')
      if d.keep is not None:
        raise Unsupported('index array on a filtered axis')
      p = param('x')
      nd = m.dims[0]
      v = zi(lift(m.lam(p)))
      inr = lambda v: And(v >= -d.zn, v < d.zn)
      ok = forall([p], Implies(nd.dom(p), inr(v)))
      if not ip.prove(ok, timeout=4) and not ip.branch(ok):
        raise SymRaise('IndexError')
      if ip.prove(forall([p], Implies(nd.dom(p), v >= 0)), timeout=3):
        vv = v
      else:
        vv = z3.If(v < 0, v + d.zn, v)
      dims.append(nd)
      ps.append(p)
      maps.append(vv)
      fancy += 1
    else:
      p = elem_at(ip, d, (lambda q: q), x)
      maps.append(p)
    ax += 1
  if fancy > 1:
    raise Unsupported('several index arrays')
  for d in c.dims[ax:]:
    p = param('x', d.sort)
    dims.append(d)
    ps.append(p)
    maps.append(p)
  body = c.lam(*maps)
  if not dims:
    return Num(body.v, body.k, True) if isinstance(body, Num) else body
  r = ip.alloc(Arr(dims, Lam(ps, body), c.dt))
  if not fancy:
    ip.viewed = ip.viewed | {ref.oid, r.oid}
  return r


@lib('$setitem')
def setitem(ip, o, k, v):
  if isinstance(o, Ref):
    c = ip.cell(o)
    if isinstance(c, PyL) and isinstance(k, int) and not isinstance(k, bool):
      if not -len(c.items) <= k < len(c.items):
        raise SymRaise('IndexError')
      items = list(c.items)
      items[k] = v
      return ip.setcell(o, PyL(items))
    if isinstance(c, (PyL, Seq)) and not isinstance(k, SliceV):
      c = ip.as_seq(c)
      t = param('t', c.dim.sort)
      if isinstance(k, PosV):
        if not (veq_syn(k.dim, c.dim) or ip.prove(ip.dims_eq(k.dim, c.dim))):
          raise Unsupported('index of another enumeration')
        j = k.p
      elif c.dim.keep is None:
        j = zi(index_in(ip, k, c.dim.n if isinstance(c.dim.n, int) else Num(c.dim.n)))
      else:
        raise Unsupported('index into a filtered list')
      return ip.setcell(o, Seq(c.dim, Lam((t,), ip.merge(t == j, v, c.lam(t)))))
    if isinstance(c, Arr):
      return arr_setitem(ip, o, c, k, v)
    if isinstance(c, PyD):
      if isinstance(k, (str, int)) and not isinstance(k, bool):
        d = dict(c.d)
        d[k] = v
        return ip.setcell(o, PyD(d, c.default))
      if isinstance(k, Opaque) and not c.d:
        if c.default is not None:
          m = default_map(ip, c, k.t.sort())
        else:
          p = param('dk', k.t.sort())
          m = MapD(k.t.sort(), Lam((p,), False), Lam((p,), v if p.decl().name() not in vconsts(v) else v), None)
        ip.setcell(o, m)
        return setitem(ip, o, k, v)
      raise Unsupported('dictionary key')
    if isinstance(c, MapD):
      kt = keyterm(ip, k, c.sort)
      p = c.dom.params[0]
      old = c.val(p)
      if isinstance(v, (FuncVal, BoundM, Bi)) and c.default is None:
        return ip.setcell(o, OverD(c, [(kt, v)]))
      return ip.setcell(o, MapD(c.sort, Lam((p,), mkbool(Or(tb(c.dom(p)), p == kt))),
                                Lam((p,), ip.merge(p == kt, v, old)), c.default))
    if isinstance(c, OverD):
      kt = keyterm(ip, k, c.base.sort)
      over = [(kk, vv) for kk, vv in c.over if not kk.eq(kt)]
      if over or isinstance(v, (FuncVal, BoundM, Bi)):
        return ip.setcell(o, OverD(c.base, over + [(kt, v)]))
      ip.setcell(o, c.base)
      return setitem(ip, o, k, v)
    if isinstance(c, Obj) and isinstance(c.cls, ClassVal):
      m, _ = c.cls.find('__setitem__')
      if m is not None:
        return ip.call(m, [o, k, v])
      raise SymRaise('TypeError')
  raise Unsupported(f'item assignment on {type(o).__name__}')


def arr_setitem(ip, o, c, k, v):
  if o.oid in ip.viewed:
    raise Unsupported('writing to an array that has views')
  if not isinstance(k, tuple):
    k = (k,)
  if any(x is None for x in k):
    raise Unsupported('assignment with a new axis')
  k = list(k)
  if any(x is Ellipsis for x in k):
    i = [j for j, x in enumerate(k) if x is Ellipsis][0]
    k = k[:i] + [SliceV(None, None, None)] * (c.ndim - len(k) + 1) + k[i + 1:]
  while len(k) < c.ndim:
    k.append(SliceV(None, None, None))
  ps = [param('x', d.sort) for d in c.dims]
  conds, sub, sdims = [], [], []
  for x, d, p in zip(k, c.dims, ps):
    if isinstance(x, SliceV):
      if x.lo is None and x.hi is None:
        sub.append(p)
        sdims.append(d)
      else:
        if d.keep is not None:
          raise Unsupported('slice assignment on a filtered axis')
        lo, ln = slice_bounds(ip, x, d.n)
        conds.append(And(p >= lo, p < lo + iv(ln)))
        sub.append(p - lo)
        sdims.append(Dim(ln))
    elif is_boolseq(ip, x):
      m = A(ip, x)
      filter_dim(ip, d, m)
      conds.append(tb(m.lam(p)))
      if is_seq_like(ip, v) and A(ip, v).ndim > 0:
        raise Unsupported('masked assignment of an array')
    elif is_seq_like(ip, x):
      raise Unsupported('assignment through an index array')
    else:
      j = index_in(ip, x, d.n if isinstance(d.n, int) else Num(d.n)) if d.keep is None else _un('index')
      conds.append(p == zi(j))
  a = A(ip, v)
  if a.ndim > len(sdims):
    raise SymRaise('ValueError')
  for d, e in zip(reversed(sdims), reversed(a.dims)):
    if not isone(e):
      need_eq_dims(ip, d, e)
  off = len(sdims) - a.ndim
  val = a.lam(*[z3.IntVal(0) if isone(e) else q for e, q in zip(a.dims, sub[off:])])
  ip.setcell(o, Arr(c.dims, Lam(ps, ip.merge(And(*conds), val, c.lam(*ps))), c.dt))


def _un(m):
  raise Unsupported(m)


@lib('$delitem')
def delitem(ip, o, k):
  c = ip.cell(o)
  if isinstance(c, PyL) and isinstance(k, int):
    if not -len(c.items) <= k < len(c.items):
      raise SymRaise('IndexError')
    its = list(c.items)
    del its[k]
    return ip.setcell(o, PyL(its))
  if isinstance(c, PyD) and isinstance(k, str):
    d = dict(c.d)
    if k not in d:
      raise SymRaise('KeyError')
    del d[k]
    return ip.setcell(o, PyD(d, c.default))
  if isinstance(c, (Seq, PyL)):
    c = ip.as_seq(c)
    if c.dim.keep is not None:
      raise Unsupported('del on a filtered list')
    j = zi(index_in(ip, k, c.dim.n if isinstance(c.dim.n, int) else Num(c.dim.n)))
    t = param('t')
    return ip.setcell(o, Seq(Dim(c.dim.zn - 1), Lam((t,), c.lam(z3.If(t < j, t, t + 1)))))
  raise Unsupported('del item')


# ------------------------------------------------------------ builtins
@lib('builtins.len')
def b_len(ip, args, kw):
  v, = args
  if isinstance(v, (tuple, str)):
    return len(v)
  if isinstance(v, SetV):
    raise Unsupported('size of a set')
  if isinstance(v, RangeV):
    d, _ = iterate(ip, v)
    return dimlen(ip, d)
  if isinstance(v, Ref):
    c = ip.cell(v)
    if isinstance(c, PyL):
      return len(c.items)
    if isinstance(c, Seq):
      return dimlen(ip, c.dim)
    if isinstance(c, Arr):
      if c.ndim == 0:
        raise SymRaise('TypeError')
      return dimlen(ip, c.dims[0])
    if isinstance(c, PyD):
      return len(c.d)
    if isinstance(c, FamD):
      return dimlen(ip, c.dim)
    if isinstance(c, MapD):
      p = c.dom.params[0]
      z = ip.fresh('size', I, deps=[c.dom])
      ip.fact(z3.And(z >= 0, z3.ToReal(z) == sumk(c.sort)(z3.Lambda([p], z3.If(zb(tb(c.dom(p))), z3.RealVal(1), z3.RealVal(0))))))
      return Num(z)
    if isinstance(c, Obj) and isinstance(c.cls, ClassVal):
      m, _ = c.cls.find('__len__')
      if m is not None:
        return ip.call(m, [v])
      raise SymRaise('TypeError')
    if isinstance(c, PlaceL):
      raise Unsupported('length of a list while a loop builds it')
  if v is None or isnumeric(v):
    raise SymRaise('TypeError')
  raise Unsupported(f'len of {type(v).__name__}')


@lib('builtins.range')
def b_range(ip, args, kw):
  args = [num(a) for a in args]
  if len(args) == 1:
    return RangeV(0, args[0])
  return RangeV(*args)


@lib('builtins.enumerate')
def b_enum(ip, args, kw):
  return ZipV('enumerate', (args[0], args[1] if len(args) > 1 else kw.get('start', 0)))


@lib('builtins.zip')
def b_zip(ip, args, kw):
  return ZipV('zip', tuple(args))


@lib('builtins.map')
def b_map(ip, args, kw):
  if len(args) != 2:
    raise Unsupported('map')
  return ZipV('map', tuple(args))


@lib('builtins.reversed')
def b_reversed(ip, args, kw):
  return ZipV('reversed', tuple(args))


@lib('builtins.list')
def b_list(ip, args, kw):
  if not args:
    return ip.alloc(PyL(()))
  return ip.alloc(to_seq(ip, args[0]))


@lib('builtins.tuple')
def b_tuple(ip, args, kw):
  if not args:
    return ()
  its = concrete_items(ip, args[0])
  if its is None:
    return ip.alloc(to_seq(ip, args[0]))
  return tuple(its)


@lib('builtins.dict')
def b_dict(ip, args, kw):
  if not args:
    return ip.alloc(PyD(dict(kw)))
  if isinstance(args[0], Ref) and isinstance(ip.cell(args[0]), (PyD, MapD, FamD)):
    c = ip.cell(args[0])
    if isinstance(c, PyD):
      d = dict(c.d)
      d.update(kw)
      return ip.alloc(PyD(d, None))
    if isinstance(c, MapD):
      return ip.alloc(MapD(c.sort, c.dom, c.val, None))
    return ip.alloc(c)
  if isinstance(args[0], Ref) and isinstance(ip.cell(args[0]), OverD):
    return ip.alloc(ip.cell(args[0]))
  its = concrete_items(ip, args[0])
  if its is not None:
    r = ip.alloc(PyD({}))
    for kv in its:
      k, v = ip.unpack(kv, 2)
      setitem(ip, r, k, v)
    return r
  d, lam = iterate(ip, args[0])
  p = param('d', d.sort)
  with generic(ip, [p], d.dom(p)):
    kv = lam(p)
  if isinstance(kv, tuple) and len(kv) == 2 and isinstance(kv[0], Ref) and kv[0].idx and kv[0].idx[0].eq(p):
    return ip.alloc(FamD(d, Lam((p,), kv[0]), Lam((p,), kv[1])))
  raise Unsupported('dict of pairs')


@lib('collections.defaultdict')
def b_defaultdict(ip, args, kw):
  return ip.alloc(PyD({}, args[0] if args else None))


@lib('collections.OrderedDict')
def b_odict(ip, args, kw):
  return b_dict(ip, args, kw)


@lib('copy.copy', 'copy.deepcopy')
def b_copy(ip, args, kw):
  v = args[0]
  if isinstance(v, Ref):
    c = ip.cell(v)
    if isinstance(c, Arr) or isinstance(c, (PyL, Seq)) and False:
      return ip.alloc(c)
    raise Unsupported('copy')
  return v


@lib('builtins.print')
def b_print(ip, args, kw):
  return None


@lib('builtins.isinstance')
def b_isinstance(ip, args, kw):
  v, t = args
  ts = t if isinstance(t, tuple) else (t,)
  return mkbool(Or(*[isinst(ip, v, x) for x in ts]))


def isinst(ip, v, t):
  if isinstance(t, ClassVal):
    if isinstance(v, Ref):
      c = ip.cell(v)
      return isinstance(c, Obj) and isinstance(c.cls, ClassVal) and c.cls.issub(t)
    if isinstance(v, EnumVal):
      return v.cls is t
    return False
  nm = t.name if isinstance(t, (Lib, Bi)) else None
  nm = nm.replace('builtins.', '') if nm else nm
  c = ip.cell(v) if isinstance(v, Ref) else None
  if nm in ('list',):
    return isinstance(c, (PyL, Seq, PlaceL))
  if nm == 'tuple':
    return isinstance(v, tuple)
  if nm == 'dict':
    return isinstance(c, (PyD, MapD, FamD))
  if nm == 'str':
    return isinstance(v, (str, OpaqueStr))
  if nm in ('numpy.ndarray',):
    return isinstance(c, Arr)
  if nm == 'int':
    return isinstance(v, (bool, int, SBool)) or isinstance(v, Num) and v.isint and not v.np
  if nm == 'float':
    return isinstance(v, Fraction) or isinstance(v, Num) and not v.isint
  if nm == 'bool':
    return isinstance(v, (bool, SBool))
  if isinstance(c, Obj) and isinstance(c.cls, ClassVal) and nm:
    return c.cls.qual == nm or any(isinstance(b, ClassVal) and b.qual == nm for b in c.cls.mro())
  raise Unsupported(f'isinstance {nm}')


@lib('builtins.float', 'numpy.float64', 'numpy.float32')
def b_float(ip, args, kw):
  v = args[0] if args else Fraction(0)
  if isinstance(v, str):
    return const_float(float(v))
  if isarr(ip, v):
    v = only(ip, ip.cell(v))
  if not isnumeric(v):
    raise SymRaise('TypeError')
  v = lift(num(v))
  return lower(Num(to_real(v.v), v.k))


@lib('builtins.int', 'numpy.int64', 'numpy.int32')
def b_int(ip, args, kw):
  v = args[0] if args else 0
  if isinstance(v, (str, OpaqueStr)):
    raise Unsupported('int of a string')
  if isarr(ip, v):
    v = only(ip, ip.cell(v))
  v = lift(num(v))
  if v.isint:
    return lower(Num(v.v))
  if not (isinstance(v.k, int) and v.k == FIN):
    if not ip.branch(isk(v, FIN)):
      raise SymRaise('ValueError')
  return lower(Num(trunc(ip, v.v)))


def trunc(ip, t):
  if is_num(t):
    f = num_val(t)
    return z3.IntVal(int(f))
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
    return t.arg(0)
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS and t.arg(0).decl().kind() == z3.Z3_OP_TO_REAL:
    return -t.arg(0).arg(0)
  if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
    ch = [trunc_int(c) for c in t.children()]
    if all(c is not None for c in ch):
      k = t.decl().kind()
      r = ch[0]
      for c in ch[1:]:
        r = r + c if k == z3.Z3_OP_ADD else r - c if k == z3.Z3_OP_SUB else r * c
      return r
  if ip.prove(t >= 0, timeout=2, quick=True):
    return FLOOR(t)
  return z3.If(t >= 0, FLOOR(t), -FLOOR(-t))


def trunc_int(t):
  if is_num(t):
    f = num_val(t)
    return z3.IntVal(int(f)) if f.denominator == 1 else None
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
    return t.arg(0)
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
    r = trunc_int(t.arg(0))
    return None if r is None else -r
  return None


@lib('builtins.bool')
def b_bool(ip, args, kw):
  return mkbool(ip.truth(args[0])) if args else False


@lib('builtins.str', 'builtins.repr', 'builtins.format')
def b_str(ip, args, kw):
  v = args[0] if args else ''
  if isinstance(v, (str, int)) and not isinstance(v, bool):
    return str(v)
  return OpaqueStr()


@lib('builtins.abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs')
def b_abs(ip, args, kw):
  return ew(ip, lambda x: n_ite(n_lt(num(x), 0), n_neg(num(x)), num(x)) if not isinstance(x, (int, Fraction)) else abs(x), args[0], dt='auto')


@lib('builtins.callable')
def b_callable(ip, args, kw):
  return isinstance(args[0], (FuncVal, BoundM, Bi, ClassVal, Lib)) or isinstance(args[0], Opaque) and args[0].tag == 'fn'


@lib('builtins.hasattr')
def b_hasattr(ip, args, kw):
  try:
    ip.getattr(args[0], args[1])
    return True
  except SymRaise as e:
    if e.cls == 'AttributeError':
      return False
    raise


@lib('builtins.getattr')
def b_getattr(ip, args, kw):
  try:
    return ip.getattr(args[0], args[1])
  except SymRaise as e:
    if e.cls == 'AttributeError' and len(args) > 2:
      return args[2]
    raise


@lib('builtins.type')
def b_type(ip, args, kw):
  v, = args
  if isinstance(v, Ref):
    c = ip.cell(v)
    if isinstance(c, Obj):
      return c.cls
  raise Unsupported('type()')


@lib('builtins.any', 'builtins.all')
def _any(ip, args, kw):
  raise NotImplementedError


def quantify(ip, v, isany):
  its = concrete_items(ip, v)
  if its is not None and not isarr(ip, v):
    return mkbool((Or if isany else And)(*[ip.truth(x) for x in its]))
  if isarr(ip, v):
    a = ip.cell(v)
    if a.ndim != 1:
      raise SymRaise('ValueError')
    d, lam = a.dims[0], a.lam
  else:
    d, lam = iterate(ip, v)
  p = param('q', d.sort)
  x = lam(p)
  if isinstance(x, Poison):
    return not isany
  with generic(ip, [p], d.dom(p)):
    t = ip.truth(x)
  return mkbool(exists([p], And(d.dom(p), t)) if isany else forall([p], Implies(d.dom(p), t)))


L['builtins.any'] = lambda ip, a, k: quantify(ip, a[0], True)
L['builtins.all'] = lambda ip, a, k: quantify(ip, a[0], False)


def np_quant(isany):
  def f(ip, args, kw):
    if kw.get('axis') is not None or len(args) > 1:
      raise Unsupported('any/all with an axis')
    a = A(ip, args[0])
    ps = [param('q', d.sort) for d in a.dims]
    t = ip.truth(a.lam(*ps))
    dm = domain(a.dims, ps)
    return mkbool(exists(ps, And(dm, t)) if isany else forall(ps, Implies(dm, t)))
  return f


L['numpy.any'] = np_quant(True)
L['numpy.all'] = np_quant(False)


def extremum(ip, dim, lam, ismax, np=False, default=None):
  """min/max of the elements (python semantics when none is nan)."""
  p = param('q', dim.sort)
  ne = exists([p], dim.dom(p))
  if dim.keep is None and dim.sort == I:
    ne = dim.zn > 0 if not isinstance(dim.n, int) else dim.n > 0
  if not (ne is True or ip.prove(zb(ne), timeout=6)):
    if not ip.branch(ne):
      if default is not None:
        return default[0]
      raise SymRaise('ValueError')
  e = lam(p)
  if not isnumeric(e):
    raise SymRaise('TypeError') if e is None else Unsupported('minimum of non-numbers')
  e = lift(num(e))
  deps = [Num(e.v, e.k), Lam((p,), mkbool(dim.dom(p)))]
  xr = not (isinstance(e.k, int) and e.k == FIN)
  if not ismax and not xr and z3.is_app(e.v) and e.v.decl().eq(EIGV) and e.v.arg(2).eq(p) and dim.keep is None and ip.prove(dim.zn == e.v.arg(0)):
    m = MINEIG(e.v.arg(0), e.v.arg(1))
    ip.fact(And(forall([p], Implies(dim.dom(p), m <= e.v)), exists([p], And(dim.dom(p), e.v == m))))
    return Num(m, FIN, np or e.np)
  v = ip.fresh('ext', I if e.isint else R, deps=deps)
  k = FIN
  if xr:
    k = ip.fresh('extk', I, deps=deps)
    ip.fact(z3.And(k >= 0, k <= 3))
  r = Num(v, k, np or e.np)
  ok = True
  if xr:
    ok = forall([p], Implies(dim.dom(p), Not(isk(e, NAN))))
    if ip.prove(ok, timeout=4):
      ok = True
  bound = forall([p], Implies(dim.dom(p), n_le(e, r) if ismax else n_le(r, e)))
  att = exists([p], And(dim.dom(p), n_eq(e, r)))
  ip.fact(Implies(ok, And(bound, att)))
  if ok is not True:
    # the result is one of the elements in any case
    ip.fact(exists([p], And(dim.dom(p), n_same(e, r))))
  return r


def b_ext(ismax):
  def f(ip, args, kw):
    if kw.get('key') is not None:
      raise Unsupported('min/max with a key')
    if len(args) > 1:
      r = args[0]
      for x in args[1:]:
        if not (isnumeric(r) and isnumeric(x)):
          if isarr(ip, r) or isarr(ip, x):
            raise Unsupported('min/max of arrays')
          raise SymRaise('TypeError')
        r = n_max(num(r), num(x)) if ismax else n_min(num(r), num(x))
        # drop the choice when it is already decided
        if isinstance(r, Num) and z3.is_app(r.v) and r.v.decl().kind() == z3.Z3_OP_ITE:
          pass
      return r
    default = (kw['default'],) if 'default' in kw else None
    its = concrete_items(ip, args[0])
    if its is not None:
      if not its:
        if default:
          return default[0]
        raise SymRaise('ValueError')
      if all(isinstance(x, (int, Fraction)) for x in its):
        return max(its) if ismax else min(its)
    if isarr(ip, args[0]) and ip.cell(args[0]).ndim != 1:
      raise SymRaise('ValueError')
    d, lam = iterate(ip, args[0])
    return extremum(ip, d, lam, ismax, default=default)
  return f


L['builtins.max'] = b_ext(True)
L['builtins.min'] = b_ext(False)


@lib('builtins.sum')
def b_sum(ip, args, kw):
  start = args[1] if len(args) > 1 else kw.get('start', 0)
  its = concrete_items(ip, args[0])
  if its is not None:
    r = start
    for x in its:
      r = binop(ip, ast.Add(), r, x)
    return r
  d, lam = iterate(ip, args[0])
  p = param('s', d.sort)
  with generic(ip, [p], d.dom(p)):
    e = lam(p)
    if isinstance(e, Ref) and isinstance(ip.cell(e), Arr):
      a = ip.cell(e)
      if a.ndim == 1:
        r = sum_axis(ip, Arr((d,) + a.dims, Lam((p,) + a.lam.params, a.lam.body), a.dt), 0)
        return binop(ip, ast.Add(), start, ip.alloc(r))
      raise Unsupported('sum of arrays')
  return binop(ip, ast.Add(), start, sum_over(ip, d, p, e))


def sum_over(ip, d, p, e):
  """Sum of e (depending on position p) over d."""
  e = lift(num(e))
  if not (isinstance(e.k, int) and e.k == FIN):
    allf = forall([p], Implies(d.dom(p), isk(e, FIN)))
    if not ip.prove(allf, timeout=6):
      k = ip.fresh('sumk', I, deps=[Num(e.v, e.k), Lam((p,), mkbool(d.dom(p)))])
      ip.fact(z3.And(k >= 0, k <= 3))
      ip.fact(Implies(allf, k == 0))
      ip.fact(Implies(exists([p], And(d.dom(p), isk(e, NAN))), k == 3))
      return Num(sum_term(ip, d, p, to_real(e.v)), k, True)
  if e.isint:
    if z3.is_app(e.v) and e.v.decl().kind() == z3.Z3_OP_ITE and is_num(e.v.arg(1)) and is_num(e.v.arg(2)) and num_val(
        e.v.arg(1)) == 1 and num_val(e.v.arg(2)) == 0 and d.sort == I:
      return Num(CNT(d.zn, z3.Lambda([p], zb(And(tb(d.keep(p)) if d.keep is not None else True, e.v.arg(0))))), FIN, e.np)
    if not depends_on(e.v, p) and d.keep is None and d.sort == I:
      return lower(Num(tmul(e.v, d.zn), FIN, e.np))
    z = ip.fresh('isum', I, deps=[Num(e.v), Lam((p,), mkbool(d.dom(p)))])
    ip.fact(z3.ToReal(z) == sum_term(ip, d, p, to_real(e.v)))
    return Num(z, FIN, e.np)
  return Num(sum_term(ip, d, p, e.v), FIN, e.np)


def depends_on(t, p):
  return p.decl().name() in consts_of(t)


def sum_term(ip, d, p, t):
  if d.sort != I:
    c = d.dom(p)
    return sumk(d.sort)(z3.Lambda([p], t if c is True else z3.If(zb(c), t, z3.RealVal(0))))
  if d.keep is not None:
    t = z3.If(zb(tb(d.keep(p))), t, z3.RealVal(0))
  if isinstance(d.n, int) and d.n <= 12 and d.keep is None:
    r = z3.RealVal(0)
    for i in range(d.n):
      r = tadd(r, zsub(t, [(p, z3.IntVal(i))]))
    return r
  return SUM(d.zn, z3.Lambda([p], t))


def sum_axis(ip, a, ax):
  d = a.dims[ax]
  ps = list(a.lam.params)
  p = ps[ax]
  rest = ps[:ax] + ps[ax + 1:]
  rd = a.dims[:ax] + a.dims[ax + 1:]
  with generic(ip, rest, domain(rd, rest)):
    v = sum_over(ip, d, p, a.lam.body)
  if isinstance(v, Num):
    v = Num(v.v, v.k, True)
  return Arr(rd, Lam(rest, v), 'f')


def unwrap(ip, a):
  if isinstance(a, Arr) and a.ndim == 0:
    v = a.lam()
    return Num(v.v, v.k, True) if isinstance(v, Num) else v
  return ip.alloc(a)


def total_sum(ip, a, axis):
  if axis is None:
    for ax in range(a.ndim - 1, -1, -1):
      a = sum_axis(ip, a, ax)
    return a
  if not isinstance(axis, int):
    raise Unsupported('axis')
  if axis < 0:
    axis += a.ndim
  if not 0 <= axis < a.ndim:
    raise SymRaise('ValueError')
  return sum_axis(ip, a, axis)


def axarg(args, kw, pos=1):
  if kw.get('keepdims') or kw.get('ddof') or kw.get('where') is not None or kw.get('dtype') is not None:
    raise Unsupported('reduction options')
  return args[pos] if len(args) > pos else kw.get('axis')


@lib('numpy.sum', 'numpy.nansum')
def np_sum(ip, args, kw):
  v = args[0]
  a = A(ip, v)
  if a.ndim == 0:
    return v
  if a.dt == 'b':
    a = Arr(a.dims, Lam(a.lam.params, num(a.lam.body)), 'i')
  return unwrap(ip, total_sum(ip, a, axarg(args, kw)))


def count(ip, a, axis):
  n = 1
  for j, d in enumerate(a.dims):
    if axis is None or j == (axis if axis >= 0 else axis + a.ndim):
      n = n_mul(n, dimlen(ip, d))
  return n


@lib('numpy.mean', 'numpy.average')
def np_mean(ip, args, kw):
  if kw.get('weights') is not None:
    raise Unsupported('weighted average')
  a = A(ip, args[0])
  if a.ndim == 0:
    return args[0]
  if a.dt == 'b':
    a = Arr(a.dims, Lam(a.lam.params, num(a.lam.body)), 'i')
  axis = axarg(args, kw)
  n = count(ip, a, axis)
  s = total_sum(ip, a, axis)
  ln = lift(n)
  ps = s.lam.params
  with generic(ip, ps, domain(s.dims, ps)):
    x = lift(s.lam.body)
    v = tmul(to_real(x.v), tinv(to_real(ln.v)))
    if is_num(ln.v) and num_val(ln.v) > 0 or ip.prove(ln.v > 0, timeout=4):
      k = x.k
    else:
      k = Ite(ln.v <= 0, NAN, x.k)
  return unwrap(ip, Arr(s.dims, Lam(ps, Num(v, k, True)), 'f'))


@lib('numpy.var')
def np_var(ip, args, kw):
  a = A(ip, args[0])
  axis = axarg(args, kw)
  if axis is not None:
    raise Unsupported('var with an axis')
  if a.ndim == 0:
    return Fraction(0)
  m = np_mean(ip, [args[0]], {})
  d = ew(ip, lambda x, y: s_sq(n_sub(num(x), num(y))), args[0], m)
  return np_mean(ip, [d], {})


def s_sq(x):
  return n_mul(x, x)


@lib('numpy.std')
def np_std(ip, args, kw):
  return fsqrt(ip, np_var(ip, args, kw))


def np_ext(ismax):
  def f(ip, args, kw):
    a = A(ip, args[0])
    axis = axarg(args, kw)
    if a.ndim == 0:
      return args[0]
    if axis is not None and not (axis == 0 and a.ndim == 1):
      raise Unsupported('extremum with an axis')
    if a.ndim == 1:
      return extremum(ip, a.dims[0], a.lam, ismax, np=True)
    raise Unsupported('extremum of a matrix')
  return f


L['numpy.max'] = L['numpy.amax'] = np_ext(True)
L['numpy.min'] = L['numpy.amin'] = np_ext(False)


def np_arg(ismax):
  def f(ip, args, kw):
    a = A(ip, args[0])
    if a.ndim != 1 or axarg(args, kw) not in (None, 0):
      raise Unsupported('argmin of a matrix')
    d = a.dims[0]
    if d.keep is not None:
      raise Unsupported('argmin of a filtered array')
    if not (isinstance(d.n, int) and d.n > 0 or ip.prove(d.zn > 0)):
      if not ip.branch(d.zn > 0):
        raise SymRaise('ValueError')
    p = param('q')
    e = lift(num(a.lam(p)))
    i = ip.fresh('arg', I, deps=[Num(e.v, e.k), Num(d.zn)])
    ei = lift(num(a.lam(i)))
    ok = forall([p], Implies(d.dom(p), Not(isk(e, NAN))))
    ip.fact(d.dom(i))
    le = n_le(e, ei) if ismax else n_le(ei, e)
    lt = n_lt(e, ei) if ismax else n_lt(ei, e)
    ip.fact(Implies(ok, forall([p], Implies(d.dom(p), And(le, Implies(p < i, lt))))))
    return Num(i, FIN, True)
  return f


L['numpy.argmin'] = np_arg(False)
L['numpy.argmax'] = np_arg(True)


# ------------------------------------------------------------ numpy elementwise
def uf(fn, dt='f'):
  return lambda ip, args, kw: ew(ip, lambda x: fn(ip, x), args[0], dt=dt)


L['numpy.sqrt'] = L['math.sqrt'] = uf(fsqrt)
L['numpy.log'] = uf(flog)
L['math.log'] = uf(flog)
L['numpy.exp'] = L['math.exp'] = uf(fexp)


def as_np(x):
  if isinstance(x, Num):
    return Num(x.v, x.k, True)
  return x


def fknd(test):
  def f(ip, args, kw):
    def g(x):
      if x is None or not isnumeric(x):
        raise SymRaise('TypeError')
      return mkbool(test(lift(num(x))))
    return ew(ip, g, args[0], dt='b')
  return f


L['numpy.isnan'] = L['math.isnan'] = fknd(lambda x: isk(x, NAN))
L['numpy.isinf'] = L['math.isinf'] = fknd(lambda x: Or(isk(x, PINF), isk(x, NINF)))
L['numpy.isfinite'] = L['math.isfinite'] = fknd(lambda x: isk(x, FIN))
L['numpy.isposinf'] = fknd(lambda x: isk(x, PINF))


def ffloor(ip, x):
  if isinstance(x, (int, Fraction)):
    import math
    return Fraction(math.floor(x))
  x = lift(num(x))
  if x.isint:
    return Num(to_real(x.v), FIN, True)
  return Num(z3.ToReal(FLOOR(x.v)), x.k, True)


def fceil(ip, x):
  if isinstance(x, (int, Fraction)):
    import math
    return Fraction(math.ceil(x))
  x = lift(num(x))
  if x.isint:
    return Num(to_real(x.v), FIN, True)
  return Num(-z3.ToReal(FLOOR(neg_norm(x.v))), x.k, True)


def neg_norm(t):
  try:
    return poly.from_poly(poly.padd({}, poly.to_poly(t), -1))
  except poly.TooBig:
    return -t


L['numpy.floor'] = uf(ffloor)
L['numpy.ceil'] = uf(fceil)


@lib('math.floor')
def m_floor(ip, args, kw):
  return b_int(ip, [ffloor(ip, args[0])], {})


@lib('math.ceil')
def m_ceil(ip, args, kw):
  return b_int(ip, [fceil(ip, args[0])], {})


L['numpy.minimum'] = lambda ip, a, k: ew(ip, lambda x, y: nanprop(x, y, n_min(num(x), num(y))), a[0], a[1], dt='auto')
L['numpy.maximum'] = lambda ip, a, k: ew(ip, lambda x, y: nanprop(x, y, n_max(num(x), num(y))), a[0], a[1], dt='auto')


def nanprop(x, y, r):
  x, y = lift(num(x)), lift(num(y))
  if bothfin(x, y):
    return r
  r = lift(r)
  return Num(r.v, Ite(Or(isk(x, NAN), isk(y, NAN)), NAN, r.k), True)


@lib('numpy.clip')
def np_clip(ip, args, kw):
  lo = args[1] if len(args) > 1 else kw.get('a_min', kw.get('min'))
  hi = args[2] if len(args) > 2 else kw.get('a_max', kw.get('max'))
  def f(x, *b):
    b = list(b)
    r = num(x)
    if lo is not None:
      l = num(b.pop(0))
      r = nanprop(r, l, n_ite(n_lt(r, l), l, r) if not all(isinstance(t, (int, Fraction)) for t in (r, l)) else max(r, l))
    if hi is not None:
      h = num(b.pop(0))
      r = nanprop(r, h, n_ite(n_lt(h, r), h, r) if not all(isinstance(t, (int, Fraction)) for t in (r, h)) else min(r, h))
    return as_np(r)
  return ew(ip, f, args[0], *[x for x in (lo, hi) if x is not None], dt='auto')


def binuf(op):
  return lambda ip, a, k: ew(ip, BIN[op](ip), a[0], a[1], dt='auto')


for _n, _o in (('add', ast.Add), ('subtract', ast.Sub), ('multiply', ast.Mult), ('divide', ast.Div), ('true_divide', ast.Div),
               ('power', ast.Pow), ('mod', ast.Mod), ('remainder', ast.Mod), ('floor_divide', ast.FloorDiv),
               ('logical_and', ast.BitAnd), ('logical_or', ast.BitOr), ('logical_xor', ast.BitXor)):
  L['numpy.' + _n] = binuf(_o)
L['numpy.square'] = uf(lambda ip, x: s_sq(num(x)), 'auto')
L['numpy.negative'] = uf(lambda ip, x: n_neg(num(x)), 'auto')
L['numpy.logical_not'] = lambda ip, a, k: ew(ip, lambda x: mkbool(Not(ip.truth(x))), a[0], dt='b')
for _n, _o in (('equal', ast.Eq), ('not_equal', ast.NotEq), ('less', ast.Lt), ('less_equal', ast.LtE), ('greater', ast.Gt), ('greater_equal', ast.GtE)):
  L['numpy.' + _n] = (lambda o: lambda ip, a, k: ew(ip, s_cmp(ip, o), a[0], a[1], dt='b'))(_o)


@lib('numpy.where')
def np_where(ip, args, kw):
  if len(args) != 3:
    raise Unsupported('numpy.where with one argument')
  return ew(ip, lambda c, x, y: ip.merge(zb(ip.truth(c)) if not isinstance(ip.truth(c), bool) else ip.truth(c), x, y), *args, dt='auto')


# ------------------------------------------------------------ construction
L['numpy.inf'] = const_float(float('inf'))
L['numpy.nan'] = const_float(float('nan'))
L['math.inf'] = const_float(float('inf'))
L['math.nan'] = const_float(float('nan'))
L['numpy.newaxis'] = None
L['numpy.pi'] = Num(z3.Real('pi@'))
L['math.pi'] = L['numpy.pi']


@lib('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray')
def np_array(ip, args, kw):
  v = args[0]
  a = A(ip, v)
  if a.ndim == 0 and a.dt == 'o' and isinstance(v, Ref):
    pass
  dt = kw.get('dtype', args[1] if len(args) > 1 else None)
  return ip.alloc(cast(ip, a, dt))


DTS = {'float': 'f', 'float64': 'f', 'double': 'f', 'dtype_f': 'f', 'f8': 'f', 'd': 'f', 'int': 'i', 'int64': 'i',
       'int_': 'i', 'intp': 'i', 'dtype_i': 'i', 'i8': 'i', 'bool': 'b', 'bool_': 'b', 'dtype_b': 'b', '?': 'b',
       'object': 'o', 'object_': 'o', 'dtype_o': 'o'}


def dtkind(dt):
  """f, i, b or o; narrower machine types (uint8, float32, ...) are outside the verified subset."""
  n = dt.name if isinstance(dt, (Lib, Bi)) else dt if isinstance(dt, str) else '<?>'
  n = n.split('.')[-1]
  if n not in DTS:
    raise Unsupported(f'dtype {n}')
  return DTS[n]


def cast(ip, a, dt):
  if dt is None:
    return a
  n = dtkind(dt)
  if n == 'f':
    if a.dt == 'f':
      return a
    x = lift(num(a.lam.body))
    return Arr(a.dims, Lam(a.lam.params, Num(to_real(x.v), x.k, True)), 'f')
  if n == 'i':
    if a.dt == 'i':
      return a
    if a.dt == 'b':
      return Arr(a.dims, Lam(a.lam.params, num(a.lam.body)), 'i')
    x = lift(num(a.lam.body))
    if not (isinstance(x.k, int) and x.k == FIN):
      raise Unsupported('cast of non-finite values')
    return Arr(a.dims, Lam(a.lam.params, Num(trunc(ip, x.v))), 'i')
  if n == 'b':
    if a.dt == 'b':
      return a
    return Arr(a.dims, Lam(a.lam.params, mkbool(Not(n_eq(num(a.lam.body), 0)))), 'b')
  return a


def dims_of(ip, shape):
  xs = shape if isinstance(shape, tuple) else concrete_items(ip, shape) if is_list(ip, shape) else (shape,)
  out = []
  for x in xs:
    x = num(x)
    if not lift(x).isint:
      raise SymRaise('TypeError')
    if isinstance(x, int):
      if x < 0:
        raise SymRaise('ValueError')
    elif not ip.prove(x.v >= 0, timeout=2, quick=True):
      if not ip.branch(x.v >= 0):
        raise SymRaise('ValueError')
    out.append(Dim(x))
  return tuple(out)


def full(ip, shape, v, dt):
  dims = dims_of(ip, shape)
  ps = [param('x') for _ in dims]
  a = A(ip, v)
  return ip.alloc(Arr(dims, Lam(ps, at_bc(a, dims, ps) if a.ndim else v), dt))


L['numpy.zeros'] = lambda ip, a, k: full(ip, a[0] if a else k['shape'], z_of(a, k, 0), dt_name(a, k))
L['numpy.ones'] = lambda ip, a, k: full(ip, a[0] if a else k['shape'], z_of(a, k, 1), dt_name(a, k))


@lib('numpy.full')
def np_full(ip, a, k):
  v = a[1] if len(a) > 1 else k['fill_value']
  d = a[2] if len(a) > 2 else k.get('dtype')
  r = full(ip, a[0] if a else k['shape'], v, dt_of(v))
  return r if d is None else ip.alloc(cast(ip, A(ip, r), d))



def dt_name(a, k):
  d = a[1] if len(a) > 1 else k.get('dtype')
  return 'f' if d is None else dtkind(d)


def z_of(a, k, v):
  d = dt_name(a, k)
  return v if d == 'i' else bool(v) if d == 'b' else Fraction(v)


@lib('numpy.empty')
def np_empty(ip, args, kw):
  dims = dims_of(ip, args[0] if args else kw['shape'])
  return ip.alloc(freshlam(ip, 'empty', dims))


def like(v):
  def f(ip, args, kw):
    a = A(ip, args[0])
    ps = [param('x', d.sort) for d in a.dims]
    d = kw.get('dtype')
    dt = a.dt if d is None else dt_name([], kw)
    val = v if dt == 'i' else bool(v) if dt == 'b' else Fraction(v)
    return ip.alloc(Arr(a.dims, Lam(ps, val), dt))
  return f


L['numpy.zeros_like'] = like(0)
L['numpy.ones_like'] = like(1)


@lib('numpy.full_like')
def np_full_like(ip, args, kw):
  a = A(ip, args[0])
  ps = [param('x', d.sort) for d in a.dims]
  v = args[1] if len(args) > 1 else kw['fill_value']
  if dt_of(v) != a.dt and kw.get('dtype') is None:   # the result has the type of args[0]
    return ip.alloc(cast(ip, Arr(a.dims, Lam(ps, v), dt_of(v)), 'float' if a.dt == 'f' else 'int' if a.dt == 'i' else 'bool'))
  r = Arr(a.dims, Lam(ps, v), dt_of(v))
  return ip.alloc(cast(ip, r, kw.get('dtype')))


@lib('numpy.identity', 'numpy.eye')
def np_identity(ip, args, kw):
  d, = dims_of(ip, args[0])
  i, j = param('x'), param('x')
  return ip.alloc(Arr((d, d), Lam((i, j), Num(z3.If(i == j, z3.RealVal(1), z3.RealVal(0)), FIN, True)), 'f'))


@lib('numpy.diag')
def np_diag(ip, args, kw):
  a = A(ip, args[0])
  if a.ndim == 1:
    i, j = param('x'), param('x')
    return ip.alloc(Arr((a.dims[0], a.dims[0]), Lam((i, j), n_ite(i == j, num(a.lam(i)), Fraction(0))), 'f'))
  if a.ndim == 2:
    need_eq_dims(ip, *a.dims)
    i = param('x')
    return ip.alloc(Arr((a.dims[0],), Lam((i,), a.lam(i, i)), a.dt))
  raise SymRaise('ValueError')


@lib('numpy.arange')
def np_arange(ip, args, kw):
  args = [num(a) for a in args]
  if any(not lift(a).isint for a in args):
    raise Unsupported('arange of floats')
  d, lam = iterate(ip, RangeV(0, args[0]) if len(args) == 1 else RangeV(*args))
  p = param('x')
  return ip.alloc(Arr((d,), Lam((p,), lift(lam(p))), 'i'))


def concat_axis(ip, arrs, ax):
  nd = arrs[0].ndim
  if any(a.ndim != nd for a in arrs):
    raise SymRaise('ValueError')
  r = arrs[0]
  for b in arrs[1:]:
    for j in range(nd):
      if j != ax:
        need_eq_dims(ip, r.dims[j], b.dims[j])
    ps = list(r.lam.params)
    p = ps[ax]
    da, db = r.dims[ax], b.dims[ax]
    if isinstance(da.n, int) and da.n == 0 and da.keep is None:
      r = b
      continue
    if isinstance(db.n, int) and db.n == 0 and db.keep is None:
      continue
    z = da.zn
    keep = None
    if da.keep is not None or db.keep is not None:
      ka = tb(da.keep(p)) if da.keep is not None else True
      kb = tb(db.keep(p - z)) if db.keep is not None else True
      keep = Lam((p,), mkbool(Or(And(p < z, ka), And(p >= z, kb))))
    n = da.n + db.n if isinstance(da.n, int) and isinstance(db.n, int) else Num(tadd(z, db.zn))
    ps2 = list(ps)
    ps2[ax] = p - z
    dt = r.dt if r.dt == b.dt else ('o' if 'o' in (r.dt, b.dt) else 'f')
    body = ip.merge(p < z, r.lam(*ps), b.lam(*ps2))
    nd_ = Dim(n, keep)
    r = Arr(r.dims[:ax] + (nd_,) + r.dims[ax + 1:], Lam(ps, body), dt)
  return r


def arrs_of(ip, v):
  its = concrete_items(ip, v)
  if its is None:
    raise Unsupported('concatenation of a symbolic number of arrays')
  return [A(ip, x) for x in its]


def atleast1(ip, a):
  if a.ndim == 0:
    p = param('x')
    return Arr((Dim(1),), Lam((p,), a.lam()), a.dt)
  return a


@lib('numpy.concatenate')
def np_concatenate(ip, args, kw):
  ax = args[1] if len(args) > 1 else kw.get('axis', 0)
  arrs = arrs_of(ip, args[0])
  if any(a.ndim == 0 for a in arrs):
    raise SymRaise('ValueError')
  if ax < 0:
    ax += arrs[0].ndim
  return ip.alloc(concat_axis(ip, arrs, ax))


@lib('numpy.append')
def np_append(ip, args, kw):
  ax = args[2] if len(args) > 2 else kw.get('axis')
  if ax is None:
    arrs = [A(ip, flatten(ip, atleast1(ip, A(ip, a)))) for a in args[:2]]
    return ip.alloc(concat_axis(ip, arrs, 0))
  return ip.alloc(concat_axis(ip, [A(ip, a) for a in args[:2]], ax))


@lib('numpy.hstack')
def np_hstack(ip, args, kw):
  arrs = [atleast1(ip, a) for a in arrs_of(ip, args[0])]
  return ip.alloc(concat_axis(ip, arrs, 0 if arrs[0].ndim == 1 else 1))


def as_row(a):
  if a.ndim == 1:
    i, j = param('x'), a.lam.params[0]
    return Arr((Dim(1),) + a.dims, Lam((i, j), a.lam.body), a.dt)
  return a


def as_col(a):
  if a.ndim == 1:
    i, j = a.lam.params[0], param('x')
    return Arr(a.dims + (Dim(1),), Lam((i, j), a.lam.body), a.dt)
  return a


@lib('numpy.vstack')
def np_vstack(ip, args, kw):
  return ip.alloc(concat_axis(ip, [as_row(atleast1(ip, a)) for a in arrs_of(ip, args[0])], 0))


@lib('numpy.column_stack')
def np_column_stack(ip, args, kw):
  v = args[0]
  its = concrete_items(ip, v)
  if its is None:
    h = ip.hooks.get('column_stack')
    if h:
      return h(ip, v)
    s = to_seq(ip, v)
    p = s.lam.params[0]
    with generic(ip, [p], s.dim.dom(p)):
      e = A(ip, s.lam(p))
    if e.ndim == 1 and not depends_dim(e.dims[0], p):
      q = e.lam.params[0]
      return ip.alloc(Arr((e.dims[0], s.dim), Lam((q, p), e.lam.body), e.dt))
    raise Unsupported('column_stack of a symbolic number of arrays')
  arrs = [as_col(atleast1(ip, A(ip, x))) for x in its]
  if not arrs:
    raise SymRaise('ValueError')
  return ip.alloc(concat_axis(ip, arrs, 1))


def depends_dim(d, p):
  return p.decl().name() in vconsts(d)


@lib('numpy.stack')
def np_stack(ip, args, kw):
  ax = args[1] if len(args) > 1 else kw.get('axis', 0)
  a = A(ip, args[0])
  if ax == 0:
    return ip.alloc(a)
  if ax in (1, -1) and a.ndim == 2:
    return transpose(ip, ip.alloc(a))
  raise Unsupported('stack axis')


L['numpy.r_'] = Opaque(z3.Const('np_r_', Key), 'np.r_')
L['numpy.c_'] = Opaque(z3.Const('np_c_', Key), 'np.c_')


def np_r(ip, k):
  k = k if isinstance(k, tuple) else (k,)
  arrs = [atleast1(ip, A(ip, x)) for x in k]
  return ip.alloc(concat_axis(ip, arrs, 0))


def np_c(ip, k):
  k = k if isinstance(k, tuple) else (k,)
  arrs = [as_col(atleast1(ip, A(ip, x))) for x in k]
  return ip.alloc(concat_axis(ip, arrs, 1))


_getitem0 = L['$getitem']


@lib('$getitem')
def getitem2(ip, o, k):
  if isinstance(o, Opaque) and o.tag == 'np.r_':
    return np_r(ip, k)
  if isinstance(o, Opaque) and o.tag == 'np.c_':
    return np_c(ip, k)
  if isinstance(o, Opaque):
    h = ip.hooks.get('getitem:' + o.tag)
    if h:
      return h(ip, o, k)
  return _getitem0(ip, o, k)


@lib('numpy.tile')
def np_tile(ip, args, kw):
  a = atleast1(ip, A(ip, args[0]))
  reps = args[1]
  if isinstance(reps, tuple) and len(reps) == 2 and a.ndim == 1 and reps[1] == 1:
    d, = dims_of(ip, reps[0])
    i = param('x')
    return ip.alloc(Arr((d,) + a.dims, Lam((i,) + a.lam.params, a.lam.body), a.dt))
  raise Unsupported('tile')


@lib('numpy.repeat')
def np_repeat(ip, args, kw):
  v = args[0]
  if isnumeric(v):
    return full(ip, args[1], v, dt_of(v))
  raise Unsupported('repeat')


@lib('numpy.insert')
def np_insert(ip, args, kw):
  a = A(ip, args[0])
  i, v = args[1], args[2]
  if a.ndim != 1 or kw.get('axis') not in (None, 0) or not isnumeric(i) or not isnumeric(v):
    raise Unsupported('insert')
  if a.dt != 'f' and dt_of(v) != a.dt:
    raise Unsupported('insert into an array of another type')
  n = dimlen(ip, a.dims[0])
  if i == 0:
    j = z3.IntVal(0)
  else:
    j = zi(lift(i))
    if not ip.prove(z3.And(j >= 0, j <= zi(lift(n)))):
      raise Unsupported('insert position')
  p = param('x')
  x = a.lam(p)
  body = ip.merge(p == j, v, ip.merge(p < j, a.lam(p), a.lam(p - 1)) if not (is_num(j) and num_val(j) == 0) else a.lam(p - 1))
  return ip.alloc(Arr((Dim(n_add(n, 1)),), Lam((p,), body), a.dt))


@lib('numpy.delete')
def np_delete(ip, args, kw):
  a = A(ip, args[0])
  i = args[1]
  ax = args[2] if len(args) > 2 else kw.get('axis')
  if ax is None:
    raise Unsupported('delete without an axis')
  if ax < 0:
    ax += a.ndim
  if not isnumeric(i):
    its = concrete_items(ip, i) if is_seq_like(ip, i) else None
    if its is not None and len(its) == 1:
      i = its[0]
    else:
      raise Unsupported('delete of several positions')
  if ax >= a.ndim:
    raise SymRaise('ValueError')
  d = a.dims[ax]
  if d.keep is not None:
    raise Unsupported('delete on a filtered axis')
  j = zi(index_in(ip, i, d.n if isinstance(d.n, int) else Num(d.n)))
  ps = list(a.lam.params)
  p = ps[ax]
  ps2 = list(ps)
  ps2[ax] = z3.If(p < j, p, p + 1)
  nd = Dim(n_sub(d.n if isinstance(d.n, int) else Num(d.n), 1))
  return ip.alloc(Arr(a.dims[:ax] + (nd,) + a.dims[ax + 1:], Lam(ps, a.lam(*ps2)), a.dt))


@lib('numpy.copy')
def np_copy(ip, args, kw):
  return ip.alloc(A(ip, args[0]))


@lib('numpy.transpose')
def np_transpose(ip, args, kw):
  return transpose(ip, args[0])


def transpose(ip, v):
  a = A(ip, v)
  if a.ndim < 2:
    return v
  ps = a.lam.params
  r = ip.alloc(Arr(a.dims[::-1], Lam(ps[::-1], a.lam.body), a.dt))
  if isinstance(v, Ref):
    ip.viewed = ip.viewed | {v.oid, r.oid}
  return r


def dot(ip, x, y):
  a, b = A(ip, x), A(ip, y)
  if a.ndim == 0 or b.ndim == 0:
    return ew(ip, s_mul, x, y)
  if a.ndim > 2 or b.ndim > 2:
    raise Unsupported('dot of tensors')
  da = a.dims[-1]
  db = b.dims[-2] if b.ndim == 2 else b.dims[0]
  need_eq_dims(ip, da, db)
  pa = [param('x', d.sort) for d in a.dims[:-1]]
  pb = [param('x', d.sort) for d in (b.dims[1:] if b.ndim == 2 else ())]
  k = param('k')
  dims = tuple(a.dims[:-1]) + tuple(b.dims[1:] if b.ndim == 2 else ())
  with generic(ip, pa + pb, domain(dims, pa + pb)):
    e = s_mul(a.lam(*pa, k), b.lam(k, *pb))
    v = sum_over(ip, da, k, e if isnumeric(e) else e)
  if isinstance(v, Num) and v.isint:
    pass
  return unwrap(ip, Arr(dims, Lam(pa + pb, as_np(v) if isinstance(v, Num) else v), 'f'))


L['numpy.dot'] = L['numpy.matmul'] = lambda ip, a, k: dot(ip, a[0], a[1])
L['numpy.inner'] = lambda ip, a, k: dot(ip, a[0], a[1])


def mat2(ip, v):
  a = A(ip, v)
  if a.ndim != 2:
    raise SymRaise('LinAlgError') if False else Unsupported('matrix expected')
  need_eq_dims(ip, *a.dims)
  i, j = a.lam.params
  x = lift(num(a.lam.body))
  if not (isinstance(x.k, int) and x.k == FIN):
    if not ip.prove(forall([i, j], Implies(domain(a.dims, (i, j)), isk(x, FIN)))):
      raise Unsupported('matrix with non-finite entries')
  return a.dims[0], z3.Lambda([i, j], to_real(x.v))


@lib('numpy.linalg.inv')
def np_inv(ip, args, kw):
  d, lam = mat2(ip, args[0])
  i, j = param('x'), param('x')
  return ip.alloc(Arr((d, d), Lam((i, j), Num(INVM(d.zn, lam, i, j), FIN, True)), 'f'))


@lib('numpy.linalg.det')
def np_det(ip, args, kw):
  d, lam = mat2(ip, args[0])
  return Num(DETM(d.zn, lam), FIN, True)


def eigs(ip, args, kw):
  d, lam = mat2(ip, args[0])
  i = param('x')
  return ip.alloc(Arr((d,), Lam((i,), Num(EIGV(d.zn, lam, i), FIN, True)), 'f'))


L['numpy.linalg.eigvals'] = L['numpy.linalg.eigvalsh'] = eigs
L['numpy.linalg.eig'] = L['numpy.linalg.eigh'] = lambda ip, a, k: (eigs(ip, a, k), Poison('eigenvectors'))


@lib('numpy.ndim')
def np_ndim(ip, args, kw):
  return A(ip, args[0]).ndim


@lib('numpy.shape')
def np_shape(ip, args, kw):
  return tuple(dimlen(ip, d) for d in A(ip, args[0]).dims)


@lib('numpy.cumsum')
def np_cumsum(ip, args, kw):
  its = concrete_items(ip, args[0])
  if its is not None:
    out, r = [], 0
    for x in its:
      r = n_add(r, num(x))
      out.append(r)
    return ip.alloc(A_list(ip, PyL(out)))
  raise Unsupported('cumsum of a symbolic array')


@lib('numpy.sort', 'builtins.sorted')
def np_sort(ip, args, kw):
  if kw:
    raise Unsupported('sort options')
  a = A(ip, args[0])
  if a.ndim != 1 or a.dims[0].keep is not None:
    raise Unsupported('sort')
  return ip.alloc(sorted_arr(ip, a))


def sorted_arr(ip, a):
  p = a.lam.params[0]
  x = lift(num(a.lam.body))
  if not isfin(x) and not ip.prove(forall([p], Implies(a.dims[0].dom(p), isk(x, FIN)))):
    raise Unsupported('sort of possibly non-finite values')
  lam = z3.Lambda([p], to_real(x.v))
  q = param('x')
  return Arr(a.dims, Lam((q,), Num(SORTED(a.dims[0].zn, lam, q), FIN, True)), 'f')


@lib('numpy.linspace')
def np_linspace(ip, args, kw):
  n = args[2] if len(args) > 2 else kw.get('num', 50)
  d, = dims_of(ip, n)
  return ip.alloc(freshlam(ip, 'linspace', (d,)))


# ------------------------------------------------------------ shapes
def flatten(ip, v):
  a = A(ip, v)
  if a.ndim == 0:
    return ip.alloc(atleast1(ip, a))
  if a.ndim == 1:
    return ip.alloc(a)
  if a.ndim == 2:
    if isone(a.dims[1]):
      i = param('x', a.dims[0].sort)
      return ip.alloc(Arr((a.dims[0],), Lam((i,), a.lam(i, z3.IntVal(0))), a.dt))
    if isone(a.dims[0]):
      i = param('x', a.dims[1].sort)
      return ip.alloc(Arr((a.dims[1],), Lam((i,), a.lam(z3.IntVal(0), i)), a.dt))
    d0, d1 = a.dims
    if d0.keep is None and d1.keep is None:
      i = param('x')
      return ip.alloc(Arr((Dim(n_mul(lower(Num(d0.zn)), lower(Num(d1.zn)))),),
                          Lam((i,), a.lam(i / d1.zn, i % d1.zn)), a.dt))
  raise Unsupported('flatten')


def reshape(ip, v, shape):
  a = A(ip, v)
  sh = list(shape)
  if len(sh) == 1 and sh[0] == -1:
    return flatten(ip, v)
  if len(sh) == 2 and a.ndim == 1:
    if sh == [-1, 1]:
      return ip.alloc(as_col(a))
    if sh == [1, -1]:
      return ip.alloc(as_row(a))
    d = a.dims[0]
    if sh[0] == 1 or sh[1] == 1:
      m = sh[1] if sh[0] == 1 else sh[0]
      if d.keep is None and (veq_syn(lower(Num(d.zn)), m) or ip.prove(d.zn == zi(lift(m)))):
        return ip.alloc(as_row(a) if sh[0] == 1 else as_col(a))
  if len(sh) == 2 and a.ndim == 2:
    if sh[1] == -1 or (isinstance(sh[0], (int, Num)) and sh[0] != -1):
      d = a.dims[0]
      if d.keep is not None and isinstance(sh[0], Num) and ip.prove(zi(lift(dimlen(ip, d))) == sh[0].v) or d.keep is None and isnumeric(sh[0]) and sh[0] != -1 and ip.prove(d.zn == zi(lift(sh[0]))):
        return ip.alloc(a)
  raise Unsupported('reshape')


def shape_args(ip, args):
  if len(args) == 1 and isinstance(args[0], tuple):
    return args[0]
  return tuple(args)


L['numpy.reshape'] = lambda ip, a, k: reshape(ip, a[0], a[1] if isinstance(a[1], tuple) else (a[1],))
L['numpy.ravel'] = lambda ip, a, k: flatten(ip, a[0])
L['numpy.squeeze'] = lambda ip, a, k: squeeze(ip, a[0])


def squeeze(ip, v):
  a = A(ip, v)
  keep = [j for j, d in enumerate(a.dims) if not isone(d)]
  if any(not isinstance(a.dims[j].n, int) and not ip.prove(a.dims[j].zn != 1) for j in keep):
    raise Unsupported('squeeze of a symbolic shape')
  ps = [param('x', a.dims[j].sort) for j in keep]
  full_ = [z3.IntVal(0)] * a.ndim
  for j, p in zip(keep, ps):
    full_[j] = p
  return unwrap(ip, Arr([a.dims[j] for j in keep], Lam(ps, a.lam(*full_)), a.dt))


@lib('$size')
def size(ip, c):
  n = 1
  for d in c.dims:
    n = n_mul(n, dimlen(ip, d))
  return n


@lib('$only')
def only(ip, c):
  idx = []
  for d in c.dims:
    if d.keep is None:
      if not (isone(d) or ip.prove(d.zn == 1)):
        raise Unsupported('array of unknown size used as a scalar')
      idx.append(z3.IntVal(0))
    else:
      raise Unsupported('filtered array used as a scalar')
  return c.lam(*idx)


# ------------------------------------------------------------ attributes
@lib('$valattr')
def valattr(ip, o, name):
  if isinstance(o, Ref):
    c = ip.cell(o)
    if isinstance(c, Arr):
      if name == 'shape':
        return tuple(dimlen(ip, d) for d in c.dims)
      if name == 'ndim':
        return c.ndim
      if name == 'size':
        return size(ip, c)
      if name == 'T':
        return transpose(ip, o)
      if name == 'dtype':
        return Lib('numpy.dtype_' + c.dt)
    return BoundM(name, o)
  if o is None:
    raise SymRaise('AttributeError')
  if isinstance(o, Opaque):
    h = ip.hooks.get('attr:' + o.tag)
    if h:
      return h(ip, o, name)
  if isinstance(o, (SetV, str, OpaqueStr, Opaque, Num, Fraction, int, SBool, tuple)):
    if isinstance(o, (Num, Fraction, int)) and name in ('shape',):
      return ()
    if isinstance(o, (Num, Fraction, int)) and name in ('ndim',):
      return 0
    return BoundM(name, o)
  if isinstance(o, FuncVal) and name == '__name__':
    return OpaqueStr()
  raise Unsupported(f'attribute {name} of {type(o).__name__}')


L['$objattr'] = lambda ip, o, c, name: _un(f'attribute {name}')


@lib('$method')
def method(ip, o, name, args, kw):
  if isinstance(o, SetV):
    if name == 'issubset':
      x = args[0]
      return mkbool(o.subset(ip, x))
    if name == 'issuperset':
      return mkbool(mkset(ip, [args[0]]).subset(ip, o))
    if name == 'difference':
      return o.minus(ip, mkset(ip, [args[0]]))
    if name == 'copy':
      return o
    raise Unsupported(f'set method {name}')
  if isinstance(o, (str, OpaqueStr)):
    if name in ('format', 'join', 'replace', 'strip', 'lower', 'upper', 'title'):
      if isinstance(o, str) and name in ('lower', 'upper') and not args:
        return getattr(o, name)()
      return OpaqueStr()
    raise Unsupported(f'string method {name}')
  if isinstance(o, (Num, Fraction, int, SBool)):
    return scalar_method(ip, o, name, args, kw)
  if isinstance(o, Ref):
    c = ip.cell(o)
    if isinstance(c, Arr):
      return arr_method(ip, o, c, name, args, kw)
    if isinstance(c, (PyL, Seq, PlaceL)):
      return list_method(ip, o, c, name, args, kw)
    if isinstance(c, (PyD, MapD, FamD)):
      return dict_method(ip, o, c, name, args, kw)
    if isinstance(c, OverD) and name == 'copy':
      return ip.alloc(c)
  raise Unsupported(f'method {name}')


def scalar_method(ip, o, name, args, kw):
  if name == 'tobytes':
    x = lift(num(o))
    return Opaque(SKEY(to_real(x.v)), 'key')
  if name in ('item', 'copy', 'flatten', 'conjugate'):
    if name == 'flatten':
      return ip.alloc(atleast1(ip, A(ip, o)))
    return o
  if name in ('sum', 'mean', 'min', 'max'):
    return o
  if name == 'astype':
    r = cast(ip, A(ip, o), args[0])
    return r.lam()
  raise Unsupported(f'scalar method {name}')


def arr_method(ip, o, c, name, args, kw):
  f = {'sum': 'numpy.sum', 'mean': 'numpy.mean', 'var': 'numpy.var', 'std': 'numpy.std', 'min': 'numpy.min',
       'max': 'numpy.max', 'any': 'numpy.any', 'all': 'numpy.all', 'argmin': 'numpy.argmin', 'argmax': 'numpy.argmax',
       'clip': 'numpy.clip', 'repeat': 'numpy.repeat', 'cumsum': 'numpy.cumsum', 'squeeze': 'numpy.squeeze'}.get(name)
  if f:
    return L[f](ip, [o] + list(args), kw)
  if name == 'dot':
    return dot(ip, o, args[0])
  if name == 'transpose':
    if args:
      raise Unsupported('transpose with axes')
    return transpose(ip, o)
  if name == 'reshape':
    return reshape(ip, o, shape_args(ip, args))
  if name in ('flatten', 'ravel'):
    return flatten(ip, o)
  if name == 'copy':
    return ip.alloc(c)
  if name == 'astype':
    return ip.alloc(cast(ip, c, args[0]))
  if name == 'tolist':
    if c.ndim == 1:
      return ip.alloc(Seq(c.dims[0], c.lam))
    raise Unsupported('tolist')
  if name == 'item':
    return only(ip, c)
  if name == 'sort':
    if c.ndim != 1 or c.dims[0].keep is not None or args or kw:
      raise Unsupported('sort')
    if o.oid in ip.viewed:
      raise Unsupported('sorting an array that has views')
    ip.setcell(o, sorted_arr(ip, c))
    return None
  if name == 'fill':
    ps = c.lam.params
    ip.setcell(o, Arr(c.dims, Lam(ps, args[0]), c.dt))
    return None
  if name == 'tobytes':
    if c.ndim == 0:
      return scalar_method(ip, c.lam(), name, args, kw)
    if c.ndim == 1 and c.dims[0].keep is None:
      p = c.lam.params[0]
      x = lift(num(c.lam.body))
      if not isfin(x):
        raise Unsupported('bytes of non-finite values')
      return Opaque(RKEY(c.dims[0].zn, z3.Lambda([p], to_real(x.v))), 'key')
    raise Unsupported('tobytes')
  raise Unsupported(f'array method {name}')


def list_method(ip, o, c, name, args, kw):
  if name == 'append':
    append(ip, o, args[0])
    return None
  if name == 'extend':
    list_extend(ip, o, args[0])
    return None
  if name == 'copy':
    return ip.alloc(c)
  if name == 'insert' and isinstance(c, PyL) and isinstance(args[0], int):
    its = list(c.items)
    its.insert(args[0], args[1])
    ip.setcell(o, PyL(its))
    return None
  if name == 'pop':
    if isinstance(c, PyL):
      i = args[0] if args else -1
      if not c.items:
        raise SymRaise('IndexError')
      if isinstance(i, int):
        its = list(c.items)
        v = its.pop(i)
        ip.setcell(o, PyL(its))
        return v
    s = ip.as_seq(c)
    i = args[0] if args else -1
    v = getitem(ip, o, i)
    delitem(ip, o, i)
    return v
  if name == 'index' and isinstance(c, (PyL, Seq)):
    s = ip.as_seq(c)
    if s.dim.keep is not None:
      raise Unsupported('index in a filtered list')
    if not ip.branch(contains(ip, o, args[0])):
      raise SymRaise('ValueError')
    i = ip.fresh('idx', I)
    q = param('q')
    ip.fact(And(s.dim.dom(i), py_eq(ip, s.lam(i), args[0])))
    ip.fact(forall([q], Implies(And(s.dim.dom(q), q < i), Not(py_eq(ip, s.lam(q), args[0])))))
    return Num(i)
  if name == 'count':
    d, lam = iterate(ip, o)
    p = param('c', d.sort)
    return Num(CNT(d.zn, z3.Lambda([p], zb(And(tb(d.keep(p)) if d.keep is not None else True, py_eq(ip, lam(p), args[0]))))))
  if name == 'remove':
    s = ip.as_seq(c)
    p = param('q', s.dim.sort)
    e = s.lam(p)
    x = args[0]
    if isinstance(e, Ref) and isinstance(x, Ref) and e.oid == x.oid and e.idx and e.idx[0].eq(p):
      if not ip.branch(s.dim.dom(x.idx[0])):
        raise SymRaise('ValueError')
      ip.setcell(o, Seq(Dim(s.dim.n, Lam((p,), mkbool(And(tb(s.dim.keep(p)) if s.dim.keep is not None else True, p != x.idx[0])))), s.lam))
      return None
    raise Unsupported('list.remove')
  if name == 'clear':
    ip.setcell(o, PyL(()))
    return None
  raise Unsupported(f'list method {name}')


def dict_method(ip, o, c, name, args, kw):
  if name in ('values', 'items', 'keys'):
    if isinstance(c, PyD):
      if name == 'keys':
        return tuple(c.d)
      if name == 'values':
        return tuple(c.d.values())
      return tuple(c.d.items())
    return ZipV(name, (o,))
  if name == 'get':
    d = args[1] if len(args) > 1 else None
    k = args[0]
    if isinstance(c, PyD):
      if isinstance(k, (str, int)):
        return c.d.get(k, d)
      if not c.d:
        return d
      raise Unsupported('dictionary key')
    if isinstance(c, MapD):
      kt = keyterm(ip, k, c.sort)
      v = c.val(kt)
      dm = tb(c.dom(kt))
      if isinstance(v, Ref):
        dc = cellof(ip, d)
        if isinstance(dc, PyD) and not dc.d:
          # reading an absent entry behaves like an empty dict
          vc_ = ip.cell(v)
          if isinstance(vc_, MapD):
            z = vc_.dom.params[0]
            return ip.alloc(MapD(vc_.sort, Lam((z,), mkbool(And(dm, tb(vc_.dom(z))))), vc_.val, None))
        if ip.branch(dm):
          return v
        return d
      return ip.merge(dm, v, d) if dm is not True else v
    if isinstance(c, FamD):
      if ip.branch(contains(ip, o, k)):
        return getitem(ip, o, k)
      return d
  if name == 'copy':
    return ip.alloc(c)
  if name == 'update' and isinstance(c, PyD):
    x = cellof(ip, args[0]) if args else PyD({})
    if isinstance(x, PyD):
      d = dict(c.d)
      d.update(x.d)
      d.update(kw)
      ip.setcell(o, PyD(d, c.default))
      return None
  if name == 'pop' and isinstance(c, PyD) and isinstance(args[0], str):
    d = dict(c.d)
    if args[0] not in d:
      if len(args) > 1:
        return args[1]
      raise SymRaise('KeyError')
    v = d.pop(args[0])
    ip.setcell(o, PyD(d, c.default))
    return v
  if name == 'setdefault' and isinstance(c, PyD) and isinstance(args[0], str):
    if args[0] not in c.d:
      setitem(ip, o, args[0], args[1])
    return getitem(ip, o, args[0])
  if name == 'clear':
    ip.setcell(o, PyD({}, c.default))
    return None
  raise Unsupported(f'dict method {name}')


# ------------------------------------------------------------ randomness
def rng_event(ip, name, **kw):
  ip.events = ip.events + [(name, kw)]


@lib('numpy.random.permutation')
def np_permutation(ip, args, kw):
  v = args[0]
  if isnumeric(v):
    d, = dims_of(ip, v)
    q = param('x')
    a = Arr((d,), Lam((q,), Num(q)), 'i')
  else:
    a = A(ip, v)
  d = a.dims[0]
  if d.keep is not None:
    raise Unsupported('permutation of a filtered array')
  pi = ip.fresh_fn('perm', [I], I)
  q = param('x')
  nm = pi(q).decl().name()
  n = d.zn
  bs = list(ip.bound)
  poly.PERMS[nm] = (lambda *outer: z3.substitute(n, *zip(bs, outer)) if bs and outer else n)
  inv = ip.fresh_fn('perminv', [I], I)
  z = z3.FreshConst(I, 'pz')
  ip.fact(forall([z], Implies(And(0 <= z, z < n), And(0 <= pi(z), pi(z) < n, inv(pi(z)) == z, 0 <= inv(z), inv(z) < n, pi(inv(z)) == z))))
  rng_event(ip, 'permutation')
  ps = [param('x', e.sort) for e in a.dims]
  return ip.alloc(Arr(a.dims, Lam(ps, a.lam(pi(ps[0]), *ps[1:])), a.dt))


@lib('numpy.random.shuffle')
def np_shuffle(ip, args, kw):
  r = np_permutation(ip, args, kw)
  c = ip.cell(args[0])
  if isinstance(c, Arr):
    ip.setcell(args[0], ip.cell(r))
    return None
  raise Unsupported('shuffle of a list')


@lib('numpy.random.choice')
def np_choice(ip, args, kw):
  names = ['a', 'size', 'replace', 'p']
  kw = named(names, args, kw)
  a, size_, repl, p = kw.get('a'), kw.get('size'), kw.get('replace', True), kw.get('p')
  rng_event(ip, 'choice', a=a, size=size_, replace=repl, p=p)
  if isnumeric(a):
    src = Arr(dims_of(ip, a), (lambda q: Lam((q,), Num(q)))(param('x')), 'i')
  else:
    src = A_choice(ip, a)
  if src.ndim != 1:
    raise SymRaise('ValueError')
  d = src.dims[0]
  q = param('q', d.sort)
  ne = exists([q], d.dom(q)) if (d.keep is not None or d.sort != I) else (d.zn > 0)
  if isinstance(size_, tuple) and len(size_) == 1:
    size_ = size_[0]
  if not ip.prove(zb(ne), timeout=8):
    if not ip.branch(ne):
      raise SymRaise('ValueError')
  if p is not None:
    pa = A(ip, p)
    if pa.ndim != 1:
      raise SymRaise('ValueError')
    pz = param('q')
    okp = forall([pz], Implies(pa.dims[0].dom(pz), n_le(0, num(pa.lam(pz)))))
    s = lift(sum_over(ip, pa.dims[0], pz, pa.lam(pz)))
    okp = And(okp, isk(s, FIN), s.v == 1)
    if not ip.prove(okp, timeout=8):
      if not ip.branch(okp):
        raise SymRaise('ValueError')
  if size_ is None:
    i = ip.fresh('pick', d.sort)
    ip.fact(d.dom(i))
    return as_np(src.lam(i))
  if size_ == 2 and repl is False:
    two = CNT(d.zn, z3.Lambda([q], zb(tb(d.keep(q)) if d.keep is not None else z3.BoolVal(True))))
    okn = two >= 2 if d.keep is not None else d.zn >= 2
    if not ip.prove(okn, timeout=8) and not ip.branch(okn):
      raise SymRaise('ValueError')
    i, j = ip.fresh('pick', I), ip.fresh('pick', I)
    ip.fact(And(d.dom(i), d.dom(j), i != j))
    return ip.alloc(PyL((src.lam(i), src.lam(j))))
  if repl is not True and repl is not None:
    raise Unsupported('sampling without replacement')
  sd, = dims_of(ip, size_)
  f = ip.fresh_fn('pick', [I], I)
  z = param('q')
  ip.fact(forall([z], Implies(sd.dom(z), d.dom(f(z)))))
  x = param('x')
  if src.dt == 'b' and isinstance(d.n, int) and d.n == 2:
    g = ip.fresh_fn('coin', [I], B)
    vals = [src.lam(z3.IntVal(0)), src.lam(z3.IntVal(1))]
    if vals == [True, False] or vals == [False, True]:
      return ip.alloc(Arr((sd,), Lam((x,), SBool(g(x))), 'b'))
  return ip.alloc(Arr((sd,), Lam((x,), src.lam(f(x))), src.dt))


def A_choice(ip, a):
  if is_list(ip, a) or isinstance(a, tuple):
    s = ip.as_seq(PyL(a) if isinstance(a, tuple) else ip.cell(a))
    x = s.lam.body
    return Arr((s.dim,), s.lam, dt_of(x) if not isinstance(x, Poison) else 'f')
  return A(ip, a)


def draw(name, fields, dt='f', cond=None):
  """A random array with recorded parameters."""
  def f(ip, args, kw):
    kw = named(fields, args, kw)
    size_ = kw.pop('size', None)
    ps = [kw[x] for x in fields if x in kw and x != 'size']
    arrs = [A(ip, p) for p in ps]
    if size_ is not None:
      dims = dims_of(ip, size_)
    else:
      dims = broadcast(ip, arrs) if arrs else ()
    # parameters must broadcast to the size
    nd = len(dims)
    for a in arrs:
      if a.ndim > nd:
        raise SymRaise('ValueError')
      for d, e in zip(dims[nd - a.ndim:], a.dims):
        if not isone(e):
          need_eq_bc(ip, d, e)
    r = freshlam(ip, name, dims, dt)
    ref = unwrap(ip, r)
    rng_event(ip, name, out=ref, dims=dims, **kw)
    if cond:
      cond(ip, r, kw)
    return ref
  return f


L['numpy.random.normal'] = draw('normal', ['loc', 'scale', 'size'])
L['numpy.random.uniform'] = draw('uniform', ['low', 'high', 'size'])


def bin01(ip, r, kw):
  if kw.get('n') == 1:
    ps = r.lam.params
    v = lift(r.lam.body).v
    if r.ndim:
      ip.fact(forall(list(ps), z3.Or(v == 0, v == 1)))
    else:
      ip.fact(z3.Or(v == 0, v == 1))


L['numpy.random.binomial'] = draw('binomial', ['n', 'p', 'size'], 'i', bin01)


@lib('numpy.random.randn', 'numpy.random.standard_normal')
def np_randn(ip, args, kw):
  if kw:
    args = [kw['size']]
  dims = dims_of(ip, args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(args))
  r = freshlam(ip, 'randn', dims)
  ref = unwrap(ip, r)
  rng_event(ip, 'randn', out=ref, dims=dims)
  return ref


@lib('numpy.random.multivariate_normal')
def np_mvn(ip, args, kw):
  kw = named(['mean', 'cov', 'size'], args, kw)
  m = A(ip, kw['mean'])
  if m.ndim != 1:
    raise SymRaise('ValueError')
  c = A(ip, kw['cov'])
  if c.ndim != 2:
    raise SymRaise('ValueError')
  dims = (dims_of(ip, kw['size']) if kw.get('size') is not None else ()) + m.dims
  r = ip.alloc(freshlam(ip, 'mvn', dims))
  rng_event(ip, 'mvn', out=r, dims=dims, mean=kw['mean'], cov=kw['cov'])
  return r


# ------------------------------------------------------------ scipy
@lib('scipy.stats.chi2.ppf')
def sp_chi2(ip, args, kw):
  q = args[0] if args else kw['q']
  df = args[1] if len(args) > 1 else kw['df']
  q, df = lift(num(q)), lift(num(df))
  ok = And(isk(q, FIN), isk(df, FIN), q.v > 0, q.v < 1, df.v > 0)
  v = CHI2(to_real(q.v), to_real(df.v))
  if ip.prove(ok):
    return Num(v, FIN, True)
  return Num(v, Ite(ok, FIN, NAN), True)


@lib('scipy.stats.norm.ppf')
def sp_norm(ip, args, kw):
  q = lift(num(args[0] if args else kw['q']))
  if len(args) > 1 or set(kw) - {'q'}:
    raise Unsupported('norm.ppf parameters')
  ok = And(isk(q, FIN), q.v > 0, q.v < 1)
  v = NORM(to_real(q.v))
  if ip.prove(ok):
    return Num(v, FIN, True)
  return Num(v, Ite(ok, FIN, Ite(And(isk(q, FIN), q.v == 0), NINF, Ite(And(isk(q, FIN), q.v == 1), PINF, NAN))), True)


for _n in ('list', 'tuple', 'int', 'float', 'bool', 'str', 'dict', 'set'):
  pass
L['builtins.object'] = Lib('builtins.object')
L['builtins.NotImplemented'] = Lib('builtins.NotImplemented')
L['builtins.Ellipsis'] = Ellipsis
L['abc.ABC'] = Lib('abc.ABC')
L['abc.abstractmethod'] = Lib('abc.abstractmethod')
L['itertools.chain'] = lambda ip, a, k: _chain(ip, a)


def _chain(ip, a):
  its = [concrete_items(ip, x) for x in a]
  if any(i is None for i in its):
    raise Unsupported('chain')
  return ip.alloc(PyL([y for i in its for y in i]))
