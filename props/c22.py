"""C22: fitting needs enough treated and control units."""
from props.modellib import *

KITS = AIPWS + [FRONT]


def state_of(ip, w):
  """What a fit may change: models, exposure probability, readiness."""
  ms = {k: ip.cell(v) for k, v in all_models(ip, w.o).items()}
  ep = ip.getattr(w.o, 'exp_prob') if w.kit is FRONT else None
  return ms, ep, meth(ip, w.o, 'has_enough_samples')


def untouched(ip, a, b):
  fs = [set(a[0]) == set(b[0])]
  for k in a[0]:
    if k in b[0]:
      x, y = a[0][k], b[0][k]
      fs.append(And(x.cls is y.cls, set(x.f) == set(y.f), *[deep_same(ip, x.f[q], y.f.get(q)) for q in x.f]))
  if a[1] is not None:
    fs.append(ip.same(a[1], b[1]))
  return And(*fs)


def fit_case(kit, kind, step):
  def fn(ip):
    w = Est(ip, kit, kind)
    o = w.o
    s0 = state_of(ip, w)
    fitted = kind in ('fit', 'late')
    ip.oblige('reports enough samples exactly when a fit has succeeded', Iff(tb(s0[2]), fitted))
    nf2 = None
    if step == 'dim':
      nf2 = pos_int(ip, 'nf2', 1)
      ip.assume(nf2 != w.nf)
    d = w.data(nf=nf2)
    if step != 'dim':
      ip.assume(w.enough(d) if step == 'good' else Not(w.enough(d)))
    snap = frozen(ip, d[0])
    out = attempt(ip, lambda: meth(ip, o, 'fit', d[0]))
    unchanged(ip, 'the data is not modified', d[0], snap)
    s1 = state_of(ip, w)
    if step == 'dim':
      raised(ip, out, 'data with the wrong dimension is rejected')
      ip.oblige('a rejected fit leaves the models untouched', untouched(ip, s0, s1))
      ip.oblige('a rejected fit leaves the readiness', Iff(tb(s0[2]), tb(s1[2])))
      return
    if not ok(ip, out, 'fit returns'):
      return
    if step == 'short':
      ip.oblige('too few units: the models are untouched', untouched(ip, s0, s1))
      ip.oblige('too few units: readiness as before', Iff(tb(s0[2]), tb(s1[2])))
      return
    ip.oblige('enough samples are reported', tb(s1[2]))
    n, nf = d[2], w.nf
    g = lambda k: snap[snap[d[0].oid].f[k].oid]
    xy = lambda i, j: ip.merge(j == 0, g('exp').lam(i), g('cov').lam(i, j - 1))
    if kit is FRONT:
      want = {'y_response': ((n, nf + 1), xy, g('rsp').lam), 'cov_given_exp': ((n,), g('exp').lam, None)}
    else:
      want = {'response': ((n, nf + 1), xy, g('rsp').lam), 'propensity': ((n, nf), g('cov').lam, g('exp').lam)}
    for k, (dims, xs, ys) in want.items():
      m = ip.getattr(o, k)
      f = fitted_on(ip, m) if isinstance(m, Ref) else None
      ip.oblige(f'{k} is refit on exactly the given data', And(
          f is not None, f is not None and elems_eq(ip, f[0], dims, xs),
          f is not None and (elems_eq(ip, f[1], (n,), ys) if ys else elems_eq(ip, f[1], (n, nf), g('cov').lam))))
      if k in s0[0] and f is not None and s0[0][k].f.get('$tok') is not None:
        ip.oblige(f'{k} was fit again', Not(ip.same(ip.cell(m).f['$tok'], s0[0][k].f['$tok'])) if False else
                  ip.cell(m).f['$tok'] is not s0[0][k].f['$tok'])
    if kit is FRONT:
      nt, _ = counts(d[1], n)
      mo = w.par['min_overlap']
      b = lambda op, x, y: bop(ip, op, x, y)
      mean = b(ast.Div, Num(nt), Num(n))
      ip.oblige('exposure probability: clipped treated fraction', ip.same(ip.getattr(o, 'exp_prob'), ip.call_lib(
          'numpy.clip', [mean, mo, b(ast.Sub, 1, mo)], {})))
  return fn


def eval_case(kit, kind):
  def fn(ip):
    w = Est(ip, kit, kind)
    fitted = kind in ('fit', 'late')
    nf2 = None
    if fitted:
      nf2 = pos_int(ip, 'nf2', 1)
      ip.assume(nf2 != w.nf)
    d = w.data(nf=nf2)
    snap = frozen(ip, d[0])
    out = attempt(ip, lambda: meth(ip, w.o, 'transform', d[0]))
    unchanged(ip, 'the data is not modified', d[0], snap)
    if fitted:
      raised(ip, out, 'evaluating data with the wrong dimension is rejected')
      return
    if not ok(ip, out, 'transform returns'):
      return
    k = 8 if kit is FRONT else 4
    nan = Num(rv(0), NAN)
    ip.oblige('never fit: all components NaN, one row per unit', elems_eq(ip, out[1], (d[2], k), lambda i, j: nan))
  return fn


CASES = []
for _k in KITS:
  _f = 'parameters.FrontDoorLinearFiniteZ' if _k is FRONT else 'parameters.AIPW'
  for _s in ('new', 'short', 'fit', 'late'):
    for _t in ('good', 'short', 'dim'):
      CASES.append(Case(f'{_k.name} {_s}: fit {_t}', fit_case(_k, _s, _t), [_f + '.fit', _f + '.has_enough_samples']))
    CASES.append(Case(f'{_k.name} {_s}: evaluate', eval_case(_k, _s), [_f + '.transform']))
