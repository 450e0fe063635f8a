"""C32: widths of the nuisance confidence sequences."""  # WIP
from props.modellib import *
from vc.lib import INVM, DETM, MINEIG

def gram_of(ip, w, d):
  """Gram matrix (i, j) -> term and its dimension."""
  c = A(ip, ip.getattr(d[0], 'cov'))
  x = A(ip, ip.getattr(d[0], 'exp'))
  n = d[2]
  cv = lambda i, j: to_real(lift(c.lam(i, j)).v)
  if w.kit is FRONT:
    D = lambda i, j: z3.If(j >= 1, cv(i, j - 1), to_real(lift(x.lam(i)).v))
    p = w.nf + 1
  else:
    D, p = cv, w.nf
  u = param('u')
  return (lambda i, j: SUM(n, z3.Lambda([u], D(u, i) * D(u, j)))), p


def case(kit, kind):
  def fn(ip):
    w = Est(ip, kit, kind)
    d = w.recent
    ip.assume(d[2] >= 1)
    delta, sg, rho = sym_real(ip, 'delta'), sym_real(ip, 'sub_g'), sym_real(ip, 'rho')
    ip.assume(And(delta.v > 0, delta.v < 1, sg.v > 0, rho.v > 0))
    snap = frozen(ip, d[0])
    g, p = gram_of(ip, w, d)
    i, j, k = param('i'), param('j'), param('k')
    s, r = sg.v, rho.v
    eye = lambda i, j: z3.If(i == j, rv(1), rv(0))
    det = Num(DETM(p, z3.Lambda([i, j], s * g(i, j) + r * eye(i, j))))
    inv = z3.Lambda([i, j], g(i, j) + r / s * eye(i, j))
    l, m = param('l'), param('m')
    left = lambda i, m: SUM(p, z3.Lambda([l], g(i, l) * INVM(p, inv, l, m)))
    norm = z3.Lambda([i, j], SUM(p, z3.Lambda([m], left(i, m) * g(m, j))))
    least = Num(MINEIG(p, norm))
    ip.assume(And(det.v > 0, least.v > 0))
    mo = w.par['min_overlap']
    L = lambda nm, *a: ip.call_lib('numpy.' + nm, list(a), {})
    Ad, Su, Mu, Di, Po = ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow
    b = lambda op, x, y: bop(ip, op, x, y)
    lv = delta if kit is not FRONT else b(Di, delta, 3)
    num = b(Mu, sg, L('log', det))
    den = b(Mu, sg, L('log', b(Mu, b(Po, rho, Num(p)), b(Po, lv, 2))))
    out = attempt(ip, lambda: meth(ip, w.o, 'calculate_cs_width', delta, sg, rho))
    unchanged(ip, 'the data is not modified', d[0], snap)
    if not ok(ip, out, 'returns'):
      return
    got = out[1]
    inf = const_float(float('inf'))
    if ip.branch(n_le(num, den)):
      ip.oblige('infinite while the determinant term does not exceed the level term', ip.same(got, inf))
      return
    radius = b(Di, L('sqrt', b(Su, num, den)), L('sqrt', least))
    over = b(Su, b(Di, 1, mo), 1)
    if kit is not FRONT:
      ip.oblige('width: radius times (1/min_overlap - 1)', ip.same(got, b(Mu, radius, over)))
      return
    nn = Num(z3.ToReal(d[2]))
    l3 = b(Di, lv, 3)
    if ip.branch(n_le(nn, b(Di, b(Di, b(Po, l3, 2), 4), rho))):
      t = inf
    else:
      t = L('sqrt', b(Mu, b(Mu, b(Di, 1, nn), b(Ad, Fraction(1, 4), b(Di, rho, nn))),
                      L('log', b(Di, b(Ad, b(Di, nn, 4), rho), b(Mu, b(Po, l3, 2), rho)))))
    ip.oblige('width: radius and uniform boundary combined', ip.same(got, b(Ad, b(Mu, radius, b(Ad, 1, b(Mu, 2, over))), b(Mu, t, over))))
  return fn


TRUSTED = ['linear algebra (assumed): for a Gram matrix V and s, r > 0, det(sV + rI) > 0 and the eigenvalues of V(V+(r/s)I)^-1V are real']
ASSUMPTIONS = ['the least eigenvalue is positive (a singular Gram matrix is outside the property: its computed least eigenvalue is rounding noise)']
CASES = []
for _k in AIPWS[:1] + [FRONT]:
  for _s in ('fit', 'short', 'late'):
    CASES.append(Case(f'{_k.name} {_s}', case(_k, _s), [_k.cls + '.calculate_cs_width']))
