"""C27: LinearDataGenerator."""
from props.datalib import *


def world(ip, kind, gamma, shape=None):
  """A generator; noise is the default or an arbitrary function."""
  k = pos_int(ip, 'k', 1)
  beta = sym_array(ip, 'beta', [k])
  tau = sym_real(ip, 'tau')
  kw = {}
  if kind == 'given':
    kw['noise_model'] = Bi('noise', lambda ip_, a, kk: ip_.world_noise(ip_, a, kk))
  g = None
  if gamma == 'given':
    g = sym_array(ip, 'gamma', shape(ip, k) if shape else [k])
    kw['gamma'] = g
  mk = lambda: call(ip, get(ip, 'data.LinearDataGenerator'), 'name', Num(k), beta, tau, **kw)
  return k, beta, tau, g, mk


def gen_case(kind, gamma):
  def fn(ip):
    ip.events = []
    m = pos_int(ip, 'm', 0)

    def noise(ip_, a, kk):
      first = not any(e[0] == 'noise' for e in ip_.events)
      r = ip_.alloc(lib.freshlam(ip_, 'eps', (Dim(m if first else ip_.fresh('m2', I)),)))
      ip_.events = ip_.events + [('noise', dict(args=list(a), kw=dict(kk), out=ip_.cell(r)))]
      return r

    ip.world_noise = noise
    k, beta, tau, g, mk = world(ip, kind, gamma)
    before = {r: ip.heap[r.oid] for r in (beta, g) if r is not None}
    out = attempt(ip, mk)
    if not ok(ip, out, 'a well-formed generator is built'):
      return
    o = out[1]
    ip.oblige('tau is the given one', ip.same(ip.getattr(o, 'tau'), tau))
    ip.oblige('beta is the given one', ip.same(ip.getattr(o, 'beta'), beta))
    gg = ip.getattr(o, 'gamma')
    if gamma == 'given':
      ip.oblige('gamma is the given one', ip.same(gg, g))
    else:
      ip.oblige('gamma is zero by default', elems_eq(ip, gg, (k,), lambda i: Num(rv(0), FIN, True)))
    for rnd in ('first', 'second'):
      ip.events = []
      n = pos_int(ip, 'n' + rnd, 1)
      out = attempt(ip, lambda: meth(ip, o, 'generate', Num(n)))
      calls = [e for e in ip.events if e[0] == 'noise']
      if kind == 'given':
        ip.oblige(f'{rnd} call: the noise model is called at most once', len(calls) <= 1)
        ip.oblige(f'{rnd} call: the noise model gets the number of units', all(
            not c[1]['kw'] and len(c[1]['args']) == 1 for c in calls) and And(*[ip.same(c[1]['args'][0], Num(n)) for c in calls]))
        if ip.branch(m != n):
          raised(ip, out, f'{rnd} call: a noise vector of the wrong length is rejected')
          return
        ip.oblige(f'{rnd} call: the noise model is called', len(calls) == 1)
      if not ok(ip, out, f'{rnd} call: generate returns'):
        return
      d = out[1]
      x, t, y = parts_of(ip, d)
      ip.oblige(f'{rnd} call: n units with the configured covariates', And(is_arr(ip, x, n, k), is_arr(ip, t, n), is_arr(ip, y, n)))
      std = []
      for name, kw in ip.events:
        if name == 'randn' or name == 'normal' and ip.same(kw.get('loc', 0), 0) is True and ip.same(kw.get('scale', 1), 1) is True:
          std.append(kw['out'])
      ip.oblige(f'{rnd} call: the covariates are standard normal draws', Or(False, *[ip.same(x, s) for s in std]))
      cx = A(ip, x)
      q = param('q')

      def dot(i, v):
        a = A(ip, v)
        return lift(sum_over(ip, Dim(k), q, lib.num(bop(ip, ast.Mult, num(cx.lam(i, q)), num(a.lam(q))))))

      def sig(i, p):
        z = dot(i, g) if g is not None else Num(rv(0))
        return And(isk(p, FIN), to_real(p.v) * (1 + EXP(-to_real(z.v))) == 1)

      ip.oblige(f'{rnd} call: exposures are Bernoulli of the sigmoid', bernoulli_of(ip, t, n, sig))
      ct = A(ip, t)
      if kind == 'given':
        eps = noise_arr(ip, calls)
      else:
        eps = None
      if kind == 'given':
        ip.oblige(f'{rnd} call: the responses', elems_eq(ip, y, (n,), lambda i: Num(
            to_real(dot(i, beta).v) + tau.v * to_real(lift(num(ct.lam(i))).v) + eps(i), FIN, True)))
      else:
        nz = [kw['out'] for name, kw in ip.events if name == 'randn' and len(kw['dims']) == 1]
        ip.oblige(f'{rnd} call: one standard normal noise draw', len(nz) == 1)
        if len(nz) == 1:
          ce = A(ip, nz[0])
          ip.oblige(f'{rnd} call: the responses', elems_eq(ip, y, (n,), lambda i: Num(
              to_real(dot(i, beta).v) + tau.v * to_real(lift(num(ct.lam(i))).v) + to_real(lift(ce.lam(i)).v), FIN, True)))
      for r, c in before.items():
        ip.oblige(f'{rnd} call: parameters are not modified', ip.same_cell(ip.heap[r.oid], c))
  return fn


def noise_arr(ip, calls):
  c = calls[0][1]['out']   # as it was when it was returned
  return lambda i: to_real(lift(c.lam(i)).v)


def bad_gamma(shape):
  def fn(ip):
    k, beta, tau, g, mk = world(ip, 'default', 'given', shape)
    raised(ip, attempt(ip, mk), 'a gamma of the wrong shape is rejected')
  return fn


def other(ip, k):
  j = pos_int(ip, 'j', 0)
  ip.assume(j != k)
  return [j]


CASES = [Case(f'generate: {_k} noise, {_g} gamma', gen_case(_k, _g), ['data.LinearDataGenerator.__init__', 'data.LinearDataGenerator.generate'])
         for _k in ('given', 'default') for _g in ('given', 'default')]
CASES += [Case('gamma too long or short', bad_gamma(other), ['data.LinearDataGenerator.__init__']),
          Case('gamma two-dimensional', bad_gamma(lambda ip, k: [k, 1]), ['data.LinearDataGenerator.__init__']),
          Case('gamma a scalar array', bad_gamma(lambda ip, k: []), ['data.LinearDataGenerator.__init__'])]
