"""Ring normal form with indicators, inverses and big sums."""
from fractions import Fraction
import z3
from vc.terms import *

MAXSZ = 400


class TooBig(Exception):
  pass


_atoms = {}  # ast id -> term (kept alive)
_ind = {}  # ast id of the indicator term -> condition
_keep = []
_canon_cache = {}
_depth = [0]
nonzero_oracle = [None]  # callable(real term) -> bool, used for x * 1/x


def const_poly(c):
  c = Fraction(c)
  return {(): c} if c else {}


def _atom(t):
  i = t.get_id()
  if i not in _atoms:
    _atoms[i] = t
    if z3.is_app(t) and t.decl().eq(INV):
      _inv_atoms.add(i)
  return i


def atom_poly(t, e=1):
  return {((_atom(t), e),): Fraction(1)}


def padd(a, b, s=1):
  r = dict(a)
  for m, c in b.items():
    v = r.get(m, 0) + s * c
    if v:
      r[m] = v
    else:
      r.pop(m, None)
  return r


def mmul(m1, m2):
  d = dict(m1)
  for a, e in m2:
    if a in _ind:
      d[a] = 1
    else:
      d[a] = d.get(a, 0) + e
      if d[a] == 0:
        del d[a]
  return tuple(sorted(d.items()))


_inv_atoms = set()


def _norm_inv(m):
  """x * inv(x) inside one monomial, when x is known to be nonzero."""
  if not any(a in _inv_atoms for a, _ in m):
    return m
  d = dict(m)
  ch = False
  for a in list(d):
    t = _atoms[a]
    if a in d and z3.is_app(t) and t.decl().eq(INV):
      x = t.arg(0)
      xi = x.get_id()
      if xi in d and (z3.is_app(x) and x.decl().eq(EXP) or nonzero_oracle[0] is not None and nonzero_oracle[0](x)):
        k = min(d[a], d[xi])
        for z in (a, xi):
          d[z] -= k
          if not d[z]:
            del d[z]
        ch = True
  return tuple(sorted(d.items())) if ch else m


def pmul(a, b):
  r = {}
  if len(a) * len(b) > 20000:
    raise TooBig()
  for m1, c1 in a.items():
    for m2, c2 in b.items():
      m = _norm_inv(mmul(m1, m2))
      v = r.get(m, 0) + c1 * c2
      if v:
        r[m] = v
      else:
        r.pop(m, None)
  if len(r) > MAXSZ:
    raise TooBig()
  return r


def indicator(c):
  """Polynomial of [c]."""
  if isinstance(c, bool):
    return const_poly(1 if c else 0)
  if z3.is_true(c):
    return const_poly(1)
  if z3.is_false(c):
    return {}
  if _bool_leaves(c) > 8:
    return _ind_atom(c)
  if z3.is_not(c):
    return padd(const_poly(1), indicator(c.arg(0)), -1)
  if z3.is_and(c):
    r = const_poly(1)
    for x in c.children():
      r = pmul(r, indicator(x))
    return r
  if z3.is_or(c):
    r = const_poly(1)
    for x in c.children():
      r = pmul(r, padd(const_poly(1), indicator(x), -1))
    return padd(const_poly(1), r, -1)
  if z3.is_implies(c):
    return indicator(z3.Or(z3.Not(c.arg(0)), c.arg(1)))
  c = canon_bool(c)
  if isinstance(c, bool):
    return const_poly(1 if c else 0)
  if z3.is_not(c) or z3.is_and(c) or z3.is_or(c) or z3.is_true(
      c) or z3.is_false(c):
    return indicator(c)
  return _ind_atom(c)


def _ind_atom(c):
  t = z3.If(c, z3.RealVal(1), z3.RealVal(0))
  i = _atom(t)
  _ind[i] = c
  return {((i, 1),): Fraction(1)}


def _bool_leaves(c):
  """Number of distinct atoms of the boolean structure."""
  seen, leaves = set(), 0
  st = [node(c)]
  while st:
    n = st.pop()
    if n.id in seen:
      continue
    seen.add(n.id)
    if n.dk in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
      st.extend(n.ch)
    else:
      leaves += 1 if n.dk != z3.Z3_OP_ITE else 2
  return leaves


def canon_bool(c):
  if not z3.is_app(c):
    return c
  k = c.decl().kind()
  if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or (
      k == z3.Z3_OP_EQ and c.arg(0).sort() in (I, R)):
    x, y = c.arg(0), c.arg(1)
    isint = x.sort() == I
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
      x, y = y, x
      k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
    p = padd(to_poly(x), to_poly(y), -1)
    if all(m == () for m in p):
      v = p.get((), Fraction(0))
      return {z3.Z3_OP_LE: v <= 0, z3.Z3_OP_LT: v < 0}.get(k, v == 0)
    lead = min(m for m in p if m != ())
    s = p[lead]
    if k == z3.Z3_OP_EQ:
      p = {m: v / s for m, v in p.items()}
      return from_poly(p) == 0
    p = {m: v / abs(s) for m, v in p.items()}
    if isint and k == z3.Z3_OP_LT and all(
        v.denominator == 1 for v in p.values()):
      p = padd(p, const_poly(1))
      k = z3.Z3_OP_LE
    if p[lead] > 0:
      t = from_poly(p)
      return t <= 0 if k == z3.Z3_OP_LE else t < 0
    t = from_poly({m: -v for m, v in p.items()})
    # -t <= 0  is  not (t < 0)
    if isint and all(v.denominator == 1 for v in p.values()):
      # t >= 0  <=>  not (t + 1 <= 0)
      q = padd({m: -v for m, v in p.items()}, const_poly(1))
      if k == z3.Z3_OP_LE:
        return z3.Not(from_poly(q) <= 0)
    return z3.Not(t < 0) if k == z3.Z3_OP_LE else z3.Not(t <= 0)
  if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
    ch = [zb(canon_bool(x)) for x in c.children()]
    return {z3.Z3_OP_AND: lambda: z3.And(*ch),
            z3.Z3_OP_OR: lambda: z3.Or(*ch),
            z3.Z3_OP_NOT: lambda: z3.Not(ch[0])}[k]()
  if k == z3.Z3_OP_ITE:
    x, y, z = [zb(canon_bool(x)) for x in c.children()]
    return zb(Or(And(x, y), And(Not(x), z)))
  if k == z3.Z3_OP_EQ and c.arg(0).sort() != B:
    x, y = sorted((canon(x) for x in c.children()), key=lambda t: t.get_id())
    return True if x.eq(y) else x == y
  return canon_app(c)


def lin_atom(t):
  """Canonical atom polynomial of an arithmetic term without structure."""
  if t.sort() == I:
    t = z3.ToReal(t)
  return atom_poly(t)


def inv_poly(p):
  if not p:
    return {}
  if len(p) == 1:
    (m, c), = p.items()
    r = const_poly(1 / c)
    for a, e in m:
      t = _atoms[a]
      if a in _ind:
        r = pmul(r, {((a, 1),): Fraction(1)})
        continue
      if z3.is_app(t) and t.decl().eq(INV):
        b = t.arg(0)
        bp = {((_atom(b), 1),): Fraction(1)} if b.get_id() in _atoms else to_poly(b)
        for _ in range(e):
          r = pmul(r, bp)
      else:
        q = atom_poly(INV(t))
        for _ in range(e):
          r = pmul(r, q)
    return r
  # indicator split: p = [c] a + (1-[c]) b
  for m in p:
    for a, _ in m:
      if a in _ind:
        pa, pb = {}, {}
        for m2, c2 in p.items():
          d = dict(m2)
          if a in d:
            del d[a]
            pa = padd(pa, {tuple(sorted(d.items())): c2})
          else:
            pa = padd(pa, {m2: c2})
            pb = padd(pb, {m2: c2})
        g = {((a, 1),): Fraction(1)}
        return padd(
            pmul(g, inv_poly(pa)),
            pmul(padd(const_poly(1), g, -1), inv_poly(pb)))
  lead = min(p)
  s = p[lead]
  q = {m: c / s for m, c in p.items()}
  r = atom_poly(INV(from_poly(q)))
  return {m: c / s for m, c in r.items()}


_poly_cache = {}


def to_poly(t):
  i = (t.get_id(), _depth[0])
  r = _poly_cache.get(i)
  if r is not None and r[0].eq(t):
    return r[1]
  p = _to_poly(t)
  _poly_cache[i] = (t, p)
  return p


def clear_cache():
  _poly_cache.clear()
  _canon_cache.clear()


def _to_poly(t):
  if is_num(t):
    return const_poly(num_val(t))
  if not z3.is_app(t):
    return lin_atom(t)
  k = t.decl().kind()
  if k == z3.Z3_OP_ADD:
    r = {}
    for c in t.children():
      r = padd(r, to_poly(c))
    return r
  if k == z3.Z3_OP_SUB:
    r = to_poly(t.arg(0))
    for c in t.children()[1:]:
      r = padd(r, to_poly(c), -1)
    return r
  if k == z3.Z3_OP_UMINUS:
    return {m: -c for m, c in to_poly(t.arg(0)).items()}
  if k == z3.Z3_OP_MUL:
    r = const_poly(1)
    for c in t.children():
      r = pmul(r, to_poly(c))
    return r
  if k == z3.Z3_OP_TO_REAL:
    return to_poly(t.arg(0))
  if k == z3.Z3_OP_DIV and is_num(t.arg(1)) and num_val(t.arg(1)) != 0:
    c = 1 / num_val(t.arg(1))
    return {m: v * c for m, v in to_poly(t.arg(0)).items()}
  if k == z3.Z3_OP_ITE and t.sort() in (I, R):
    c = indicator(t.arg(0))
    a, b = to_poly(t.arg(1)), to_poly(t.arg(2))
    return padd(pmul(c, a), pmul(padd(const_poly(1), c, -1), b))
  if t.decl().eq(INV):
    return inv_poly(to_poly(t.arg(0)))
  if t.decl().eq(EXP):
    return exp_poly(to_poly(t.arg(0)))
  if is_sum(t):
    return sum_poly(t)
  if t.decl().eq(CNT) and is_lam(t.arg(1)):
    v = z3.FreshConst(I, 'cn')
    return sum_poly(SUM(t.arg(0), z3.Lambda([v], z3.If(open_quant(t.arg(1), [v]), z3.RealVal(1), z3.RealVal(0)))))
  return lin_atom(canon_app(t))


def exp_poly(p):
  """exp(sum of c*m) = product of exp(m)^c for integer c."""
  if any(c.denominator != 1 or abs(c) > 4 for m, c in p.items() if m != ()):
    return lin_atom(EXP(from_poly(p)))
  r = const_poly(1)
  for m, c in p.items():
    if m == ():
      q = atom_poly(EXP(rv(c)))
    else:
      e = EXP(from_poly({m: Fraction(1)}))
      q = atom_poly(e if c > 0 else INV(e), int(abs(c)))
    r = pmul(r, q)
  return r


def bind(vs, body):
  """Lambda with position-named variables (names are part of z3's AST)."""
  ns = [z3.Const(f'$i{j}', v.sort()) for j, v in enumerate(vs)]
  return z3.Lambda(ns, z3.substitute(body, *zip(vs, ns)))


PERMS = {}  # function name -> n: i |-> f(.., i) is a bijection of 0..n-1


def unperm(b, v, n):
  """Sum over i of g(pi(i)) is the sum of g: strip a permutation."""
  if n is None or not PERMS:
    return b
  apps = {}
  for t in subterms([b]):
    if z3.is_app(t) and t.num_args() > 0 and t.decl().name() in PERMS and t.arg(t.num_args() - 1).eq(v):
      if not has_var(t) and canon(PERMS[t.decl().name()](*t.children()[:-1])).eq(n):
        apps[t.get_id()] = t
  if len(apps) != 1:
    return b
  a, = apps.values()
  w = z3.FreshConst(I, 'up')
  c = z3.substitute(b, (a, w))
  if v.decl().name() in consts_of(c):
    return b
  return z3.substitute(c, (w, v))


def pinned(inn, v, name):
  """(index, value) of a factor [v == value], value free of v."""
  for j, (a, e) in enumerate(inn):
    c = _ind.get(a)
    if c is None or not z3.is_eq(c) or c.arg(0).sort() not in (I, R):
      continue
    try:
      d = padd(to_poly(c.arg(0)), to_poly(c.arg(1)), -1)
    except TooBig:
      continue
    (mv,) = to_poly(v)
    k = d.pop(mv, 0)
    if k not in (1, -1) or any(name in consts_of(_atoms[x]) for m in d for x, _ in m):
      continue
    r = int_from_poly({m: -q / k for m, q in d.items()})
    if r is not None:
      return j, r
  return None


def sum_poly(t):
  isk_ = t.num_args() == 1
  n, lam = (None, t.arg(0)) if isk_ else (t.arg(0), t.arg(1))
  d = _depth[0]
  _depth[0] += 1
  try:
    iv_ = z3.Const(f'$s{d}', t.arg(0).sort().domain() if isk_ else I)
    if not is_lam(lam):
      return lin_atom(canon_app(t))
    body = open_quant(lam, [iv_])
    p = to_poly(body)
    name = f'$s{d}'
    out = {}
    nn = None if isk_ else canon(n)
    for m, c in p.items():
      inn, outm = [], []
      for a, e in m:
        (inn if name in consts_of(_atoms[a]) else outm).append((a, e))
      pin = pinned(inn, iv_, name) if inn and not isk_ else None
      if pin:
        j, val = pin
        rest = from_poly({tuple(inn[:j] + inn[j + 1:]): Fraction(1)})
        rest = to_poly(z3.substitute(rest, (iv_, val)))
        s = pmul(indicator(z3.And(val >= 0, val < nn)), rest)
      elif inn:
        b = unperm(from_poly({tuple(inn): Fraction(1)}), iv_, nn)
        s = atom_poly(t.decl()(bind([iv_], b)) if isk_ else SUM(nn, bind([iv_], b)))
      elif isk_:
        raise TooBig()
      else:
        s = to_poly(nn)
      out = padd(out, pmul({tuple(outm): c}, s))
    return out
  finally:
    _depth[0] -= 1


def canon_app(t):
  """Same application with canonical arguments."""
  if t.num_args() == 0:
    return t
  ch = [canon(c) for c in t.children()]
  if all(a.eq(b) for a, b in zip(ch, t.children())):
    return t
  return t.decl()(*ch)


def canon(t):
  i = (t.get_id(), _depth[0])
  r = _canon_cache.get(i)
  if r is not None and r[0].eq(t):
    return r[1]
  s = t.sort()
  if is_lam(t):
    d = _depth[0]
    _depth[0] += 1
    try:
      vs = [
          z3.Const(f'$l{d}_{j}', t.var_sort(j)) for j in range(t.num_vars())
      ]
      out = bind(vs, canon(open_quant(t, vs)))
    finally:
      _depth[0] -= 1
  elif z3.is_quantifier(t):
    out = t
  elif s == R:
    out = from_poly(to_poly(t))
  elif s == I:
    p = to_poly(t)
    out = int_from_poly(p)
    if out is None:
      out = canon_app(t) if z3.is_app(t) else t
  elif s == B:
    out = zb(canon_bool(t))
  elif z3.is_app(t):
    out = canon_app(t)
  else:
    out = t
  _canon_cache[i] = (t, out)
  return out


def mono_term(m, c):
  gs = []
  fs = []
  for a, e in m:
    if a in _ind:
      gs.append(_ind[a])
    else:
      fs += [_atoms[a]] * e
  if c != 1 or not fs:
    fs = [rv(c)] + fs
  x = fs[0]
  if len(fs) > 1:
    x = z3.Product(*fs) if len(fs) > 1 else fs[0]
  if gs:
    x = z3.If(z3.And(*gs) if len(gs) > 1 else gs[0], x, z3.RealVal(0))
  return x


def from_poly(p):
  if not p:
    return z3.RealVal(0)
  ts = [mono_term(m, c) for m, c in sorted(p.items())]
  return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def int_from_poly(p):
  """Int term of a polynomial with integral coefficients over int atoms."""
  ts = []
  for m, c in sorted(p.items()):
    if c.denominator != 1:
      return None
    fs, gs = [], []
    for a, e in m:
      if a in _ind:
        gs.append(_ind[a])
        continue
      t = _atoms[a]
      if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        fs += [t.arg(0)] * e
      else:
        return None
    if c != 1 or not fs:
      fs = [z3.IntVal(c.numerator)] + fs
    x = fs[0] if len(fs) == 1 else z3.Product(*fs)
    if gs:
      x = z3.If(z3.And(*gs) if len(gs) > 1 else gs[0], x, z3.IntVal(0))
    ts.append(x)
  if not ts:
    return z3.IntVal(0)
  return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def equal(a, b):
  """Syntactic equality in ring normal form (True/False=don't know)."""
  try:
    if a.sort() in (I, R) and b.sort() in (I, R):
      return not padd(to_poly(a), to_poly(b), -1)
    return canon(a).eq(canon(b))
  except TooBig:
    return False


def canon_safe(t):
  try:
    return canon(t)
  except TooBig:
    return t


def canon_sums(f):
  """Replace every closed Sum by its normal form."""
  if not node(zb(f)).hassum:
    return f
  subs = []
  for n in nodes([f]):
    if not n.hassum:
      continue
    t = n.t
    if n.sum and n.vd == 0:
      c = canon_safe(t)
      if not c.eq(t):
        subs.append((t, c))
  if not subs:
    return f
  return z3.substitute(f, *subs)
