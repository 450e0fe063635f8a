"""C30: softmax."""
from vc.spec import *


def softmax_case(modname):
  def fn(ip):
    n = pos_int(ip, 'n', 1)
    x = sym_array(ip, 'x', [n])
    before = ip.heap[x.oid]
    out = attempt(ip, lambda: call(ip, get(ip, modname + '.softmax'), x))
    if not ok(ip, out, 'softmax returns'):
      return
    r = out[1]
    ip.oblige('input unchanged', ip.same_cell(ip.cell(x), before))
    f = z3.Function('x', I, R)
    q = z3.Int('q@')
    tot = SUM(n, z3.Lambda([q], EXP(f(q))))
    # the documented value, in the shift-invariant form e^{x_i - m}/sum e^{x_j - m}
    p = param('i')
    ip.oblige('same length', is_arr(ip, r, n))
    c = A(ip, r)
    i, j = z3.Int('i@'), z3.Int('j@')
    ip.assume(And(0 <= i, i < n, 0 <= j, j < n))
    vi, vj = lift(c.lam(i)), lift(c.lam(j))
    ip.oblige('entries are finite', isk(vi, FIN))
    ip.oblige('entries nonnegative', vi.v >= 0)
    s = lift(sum_over(ip, c.dims[0], p, c.lam(p)))
    ip.oblige('entries sum to 1', And(isk(s, FIN), s.v == 1))
    ip.oblige('ratio of entries is exp of the difference', vi.v * EXP(f(j)) == vj.v * EXP(f(i)))
    for e in ip.ghost.get('exps', ()):
      pass
  return fn


def no_overflow(modname):
  """Every argument handed to exp is <= 0."""
  def fn(ip):
    n = pos_int(ip, 'n', 1)
    x = sym_array(ip, 'x', [n])
    args = []
    real = ip.libs['numpy.exp']

    def spy(ip_, a, k):
      args.append(a[0])
      return real(ip_, a, k)

    ip.libs = dict(ip.libs, **{'numpy.exp': spy})
    out = attempt(ip, lambda: call(ip, get(ip, modname + '.softmax'), x))
    ip.libs = dict(ip.libs, **{'numpy.exp': real})
    if not ok(ip, out, 'softmax returns'):
      return
    ip.oblige('exp is used', len(args) > 0)
    for a in args:
      a = A(ip, a)
      ps = [param('p') for _ in a.dims]
      ip.oblige('no exponent is positive',
                forall(ps, Implies(And(*[d.dom(p) for d, p in zip(a.dims, ps)]), n_le(num(a.lam(*ps)), 0))))
  return fn


CASES = []
for _m in ('nonlinear_utils', 'paper_utils'):
  CASES.append(Case(f'{_m}.softmax value', softmax_case(_m), [f'{_m}.softmax']))
  CASES.append(Case(f'{_m}.softmax exponents', no_overflow(_m), [f'{_m}.softmax']))
