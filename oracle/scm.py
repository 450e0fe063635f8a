"""C24-C26 on the real code."""
from oracle.common import *
from causal_effect_bandits import data
from causal_effect_bandits import scm


class Boom(Exception):
  pass


def shared(r):
  """Variables that share one distribution function: each still gets a draw of its own."""
  names, par = dag(r)
  if r.random() < .5:
    par = {v: list(par[names[-1]]) if not set(par[names[-1]]) - set(names[:i]) and r.random() < .5 else [] if r.random() < .5 else p
           for i, (v, p) in enumerate(par.items())}
  log = []

  def f(n, ps):
    log.append((n, [np.array(p) for p in ps]))
    return 1.5 * len(log) + np.arange(n) * .01 + np.sin(sum((i + 2) * np.asarray(p, float) for i, p in enumerate(ps)))

  s = scm.SCM('s', names, par, {v: f for v in names}, list(names), names[0], names[-1])
  n = int(r.integers(1, 5))
  d = s.generate(n)
  check(len(log) == len(names), f'{len(log)} evaluations for {len(names)} variables')
  vals = {}
  for i, v in enumerate(names):
    check(log[i][0] == n and len(log[i][1]) == len(par[v]), f'arguments for {v}')
    for p, q in zip(par[v], log[i][1]):
      eqx(q, vals[p], f'parent {p} of {v}')
    vals[v] = 1.5 * (i + 1) + np.arange(n) * .01 + np.sin(sum((i + 2) * np.asarray(p, float) for i, p in enumerate(log[i][1])))
  eqx(d.cov, np.column_stack([vals[v] for v in names]), 'covariates')
  return (len(names),)


def dag(r, k=None, ordered=True):
  """Names, parents (shuffled lists), in topological order."""
  k = k or int(r.integers(2, 7))
  names = [str(x) for x in r.permutation(['a', 'z', 'X', 'y1', 'y10', 'T', 'm', 'b2'])[:k]]
  par = {}
  for i, v in enumerate(names):
    m = int(r.integers(0, i + 1))
    par[v] = [names[j] for j in r.permutation(i)[:m]]
  return names, par


def make(r, names, par, log, boom=None):
  """Recording distributions, functions of n, the call count and the parents."""
  dims = {v: int(r.choice([0, 0, 1, 2, 3])) for v in names}

  def cpd(v, c):
    def f(n, ps):
      if boom and boom.get(v):
        raise Boom(v)
      log.append((v, n, [np.array(p) for p in ps], type(ps)))
      tot = sum((i + 2) * np.asarray(p, float).reshape(n, -1).sum(1) for i, p in enumerate(ps))
      base = c + np.arange(n) * .01 + 1.3 * len(log) + np.sin(tot)
      return base if dims[v] == 0 else base[:, None] + np.arange(dims[v])
    return f

  return {v: cpd(v, 10.0 * i) for i, v in enumerate(names)}, dims


def generate(r):
  names, par = dag(r)
  log = []
  cpds, dims = make(r, names, par, log)
  flat = [v for v in names if dims[v] == 0]
  while len(flat) < 2:
    v = names[int(r.integers(len(names)))]
    dims[v] = 0
    flat = [v for v in names if dims[v] == 0]
  t, y = [flat[i] for i in r.choice(len(flat), 2, replace=False)]
  covs = [names[i] for i in r.permutation(len(names))[:int(r.integers(1, len(names) + 1))]]
  par0, names0, covs0 = copy.deepcopy(par), list(names), list(covs)
  s = scm.SCM('s', names, par, cpds, covs, t, y)
  for _ in range(2):
    n = int(r.integers(1, 6))
    log.clear()
    d = s.generate(n)
    check([e[0] for e in log] == names0, lambda: f'evaluation order {[e[0] for e in log]} for variables {names0}')
    out = {}
    redo, _ = log[:], None
    vals = {}
    for i, (v, m, ps, ty) in enumerate(redo):
      check(m == n, f'{v} was evaluated with n={m} instead of {n}')
      check(len(ps) == len(par0[v]), f'{v} got {len(ps)} parents instead of {par0[v]}')
      for p, q in zip(par0[v], ps):
        eqx(q, vals[p], f'samples of parent {p} given to {v} (parents {par0[v]})')
      tot = sum((j + 2) * np.asarray(p, float).reshape(n, -1).sum(1) for j, p in enumerate(ps))
      base = 10.0 * names0.index(v) + np.arange(n) * .01 + 1.3 * (i + 1) + np.sin(tot)
      vals[v] = base if dims[v] == 0 else base[:, None] + np.arange(dims[v])
    eqx(d.cov, np.concatenate([vals[v].reshape(n, -1) for v in covs0], 1), f'covariates {covs0}')
    eqx(d.exp, vals[t], 'exposures')
    eqx(d.rsp, vals[y], 'responses')
    check(d.n_units == n, 'number of units')
    check(par == par0 and names == names0 and covs == covs0 and list(s.var_names) == names0 and set(s.cpds) == set(names0), 'the SCM was modified')
  return (len(names), tuple(dims.values()), t == y)


def order(r):
  """Orders that are not topological, names that do not exist."""
  names, par = dag(r, int(r.integers(3, 7)))
  perm = [names[i] for i in r.permutation(len(names))]
  if r.random() < .3:
    par[names[int(r.integers(len(names)))]].append(['nope', names[-1]][int(r.integers(2))])
  good = all(set(par[v]) <= set(perm[:i]) for i, v in enumerate(perm))
  log = []
  cpds, dims = make(r, names, par, log)
  for v in dims:
    dims[v] = 0
  s = scm.SCM('s', perm, par, cpds, [perm[0]], perm[1], perm[2])
  if good:
    s.generate(2)
    check([e[0] for e in log] == perm, f'evaluation order {[e[0] for e in log]} for variables {perm}')
  else:
    raises(lambda: s.generate(2), f'variables {perm} with parents {par}')
  return tuple(good for _ in range(1)) + (len(names),)


def malformed(r):
  names, par = dag(r, int(r.integers(2, 6)))
  cpds, _ = make(r, names, par, [])
  t, y = names[0], names[-1]
  covs = list(names[:int(r.integers(0, len(names) + 1))])
  what = int(r.integers(7))
  v = names[int(r.integers(len(names)))]
  bad = True
  if what == 0:
    del par[v]
  elif what == 1:
    del cpds[v]
  elif what == 2:
    t = 'nope'
  elif what == 3:
    y = 'nope'
  elif what == 4:
    covs.insert(int(r.integers(len(covs) + 1)), 'nope')
  elif what == 5:   # more than needed is fine
    par['extra'], cpds['extra2'] = [], cpds[v]
    bad = False
  else:
    bad = False
  f = lambda: scm.SCM('s', names, par, cpds, covs, t, y)
  if bad:
    raises(f, f'malformed SCM (case {what}, covariates {covs})')
  else:
    s = f()
    check(list(s.var_names) == names and s.parents == par and s.cpds == cpds and list(s.cov_variables) == covs
          and s.treatment_variable == t and s.response_variable == y, 'parts of the SCM')
  return (what, len(names), len(covs))


def effect(r):
  names, par = dag(r)
  log, boom = [], {}
  cpds, dims = make(r, names, par, log, boom)
  for v in dims:
    dims[v] = 0
  i, j = r.choice(len(names), 2, replace=False)
  t, y = names[i], names[j]
  orig = dict(cpds)
  par0 = copy.deepcopy(par)
  s = scm.SCM('s', names, par, cpds, [names[0]], t, y)
  for _ in range(2):
    n = int(r.integers(1, 7))
    log.clear()
    fail = r.random() < .4 and len(names) > 1
    if fail:
      # a distribution fails, at once or in the second sample
      others = [v for v in names if v != t]
      v = others[int(r.integers(len(others)))]
      second = r.random() < .5
      count = [0]
      inner = orig[v]

      def flaky(m, ps, c=count, inner=inner, second=second):
        c[0] += 1
        if c[0] > int(second):
          raise Boom('sampling')
        return inner(m, ps)

      s.cpds[v] = flaky
      before = dict(s.cpds)
      raises(lambda: s.compute_treatment_effect(n), 'failing distribution', Boom)
      check(dict(s.cpds) == before and dict(cpds) == before, 'the distributions changed after a failed estimate')
      s.cpds[v] = inner
      continue
    got = s.compute_treatment_effect(n)
    check(par == par0 and s.parents == par0 and list(s.var_names) == names and (s.treatment_variable, s.response_variable) == (t, y)
          and list(s.cov_variables) == [names[0]], 'the SCM changed')
    check(dict(s.cpds) == orig and dict(cpds) == orig, 'the distributions changed')
    want = [v for v in names if v != t]
    check([e[0] for e in log] == want * 2, lambda: f'evaluations {[e[0] for e in log]}, expected {want} twice')
    # replay: same distributions by hand, in the observed order
    done = list(log)
    val = []
    firsts = set()
    half = len(want)
    for run in range(2):
      vals, tval = {}, None
      for q, (v, m, ps, _) in enumerate(done[run * half:(run + 1) * half]):
        check(m == n, f'{v} was sampled with n={m}')
        for p, x in zip(par[v], ps):
          if p == t:
            check(x.shape == (n,) and (np.all(x == 0) or np.all(x == 1)), f'treatment samples {short(x)}')
            eqx(np.asarray(x - 1, float), np.asarray(x, float) - 1, 'treatment minus one')
            check(tval in (None, x[0]), 'treatment differs within a sample')
            tval = float(x[0])
          else:
            eqx(x, vals[p], f'parent {p} of {v}')
        tot = sum((z + 2) * np.asarray(p, float).reshape(n, -1).sum(1) for z, p in enumerate(ps))
        vals[v] = 10.0 * names.index(v) + np.arange(n) * .01 + 1.3 * (run * half + q + 1) + np.sin(tot)
      val.append((tval, np.mean(vals[y])))
    if {val[0][0], val[1][0]} == {0.0, 1.0}:
      hi, lo = (val[0], val[1]) if val[0][0] == 1 else (val[1], val[0])
      eq(got, hi[1] - lo[1], 'effect')
    elif val[0][0] is None and val[1][0] is None:   # the treatment is nobody's parent
      check(min(abs(got - (val[0][1] - val[1][1])), abs(got - (val[1][1] - val[0][1]))) < 1e-9, 'effect')
    else:
      raise Fail(f'treatment values of the two samples: {val[0][0]}, {val[1][0]}')
  if r.random() < .3:
    s2 = scm.SCM('s', ['t', 'y'], {'t': [], 'y': ['t']}, {'t': lambda n, p: np.zeros(n), 'y': lambda n, p: 3.0 * p[0] + 1}, ['t'], 't', 'y')
    eq(s2.compute_treatment_effect(4), 3.0, 'deterministic effect')
  return (len(names), i < j)


# ---------------------------------------------------------------- C26
from oracle.c27 import bernoulli_ok, sig  # pylint: disable=wrong-import-position


def gaussian_ok(e, mean, cov, what):
  """Rows of e look like normal(mean, cov): first two moments within 7 sigma."""
  e = np.asarray(e, float)
  e = e.reshape(len(e), -1)
  n, d = e.shape
  mean, cov = np.atleast_1d(np.asarray(mean, float)).reshape(-1), np.asarray(cov, float).reshape(d, d)
  sd = np.sqrt(np.diag(cov))
  dev = np.abs(e.mean(0) - mean)
  tol = 1e-7 * (1 + np.abs(e).max(initial=0))
  check(np.all(dev <= 7 * sd / math.sqrt(n) + tol), lambda: f'{what}: mean of {n} noise values {e.mean(0)}, expected {mean} +- {sd}/sqrt(n)')
  c = (e - mean).T @ (e - mean) / n
  lim = 12 * np.sqrt((np.outer(sd**2, sd**2) + cov**2) / n) + 40 * np.outer(sd, sd) / n + tol
  check(np.all(np.abs(c - cov) <= lim), lambda: f'{what}: noise covariance {short(c)}, expected {short(cov)} +- {short(lim)}')


def rand_cov(r, d):
  if r.random() < .35:
    return np.zeros((d, d))
  a = r.normal(size=(d, d))
  return a @ a.T * float(r.choice([.04, 1, 9])) + .01 * np.eye(d)


def parents_of(r, n, out=None):
  """Random parents and coefficients; (parents, betas, documented sum)."""
  k = int(r.integers(1, 5))
  ps, bs, tot = [], [], 0.0
  for _ in range(k):
    kind = int(r.integers(3)) if out is None else 2
    if kind == 0:
      p, b = r.normal(size=n), float(r.normal())
    elif kind == 1:
      p, b = r.integers(0, 2, size=n), int(r.integers(-3, 4))
    else:
      d = int(r.integers(1, 4))
      p, b = r.normal(size=(n, d)), r.normal(size=d if out is None else (d, out))
      if r.random() < .2:
        p, b = np.round(2 * p).astype(int), np.round(2 * b).astype(int)
    ps.append(p)
    bs.append(b)
    tot = tot + (np.asarray(p, float) @ np.asarray(b, float) if np.ndim(b) else p * b)
  return ps, bs, tot


def linear(r):
  n = int(r.choice([1, 3, 4000]))
  out = None if r.random() < .6 else int(r.integers(1, 4))
  ps, bs, tot = parents_of(r, n, out)
  cov = rand_cov(r, out or 1)
  mean = float(r.normal()) if out is None else r.normal(size=out)
  c = float(cov[0, 0]) if out is None else cov
  which = int(r.integers(2))
  s = snap(ps, bs, mean, c)
  if which == 0:
    got = scm.normal_cpd(ps, bs, mean, c)
  else:
    fs = [[np.sin, np.abs, lambda v: v, lambda v: v * v][i] for i in r.integers(4, size=len(ps))]
    tot = sum(f(np.asarray(p, float) @ np.asarray(b, float) if np.ndim(b) else p * float(b)) for f, p, b in zip(fs, ps, bs))
    got = scm.transformed_normal_cpd(ps, bs, fs, mean, c)
    raises(lambda: scm.transformed_normal_cpd(ps, bs, fs[1:] if r.random() < .5 else fs + [np.sin], mean, c), 'wrong number of functions')
  what = ['normal_cpd', 'transformed_normal_cpd'][which] + f' with {len(ps)} parents of shapes {[np.shape(p) for p in ps]}'
  check(np.shape(got) == np.shape(tot), lambda: f'{what}: shape {np.shape(got)}, expected {np.shape(tot)}')
  gaussian_ok(got - tot, mean, cov, what)
  check(all(exact(a, b) for a, b in zip(ps, s[0])) and all(exact(a, b) for a, b in zip(bs, s[1])) and len(ps) == len(s[0]) and exact(mean, s[2])
        and exact(c, s[3]), what + ': arguments modified')
  return (which, n, out, len(ps))


def added(r):
  n = int(r.choice([1, 2, 4000]))
  d = int(r.integers(1, 4))
  flat = r.random() < .4
  x = r.normal(size=n if flat else (n, d)) * 3
  one = flat or d == 1
  d = 1 if flat else d
  cov = rand_cov(r, d)
  mean = r.normal(size=d)
  m, c = mean, cov
  if one:
    m = float(mean[0]) if r.random() < .5 else mean
    c = float(cov[0, 0]) if r.random() < .5 else cov
  s = snap(x, m, c)
  got = scm.add_gaussian_noise(x, m, c)
  want = (n,) if one else (n, d)
  what = f'add_gaussian_noise(x of shape {x.shape}, mean of shape {np.shape(m)}, cov of shape {np.shape(c)})'
  check(np.shape(got) == want, lambda: f'{what}: shape {np.shape(got)}, expected {want}')
  gaussian_ok(got - x.reshape(want), mean, cov, what)
  check(exact(x, s[0]) and exact(m, s[1]) and exact(c, s[2]), what + ': arguments modified')
  if one:
    raises(lambda: scm.add_gaussian_noise(x, np.zeros((2, 1)), 1.0), 'two-dimensional mean for a one-dimensional variable')
  else:
    raises(lambda: scm.add_gaussian_noise(x, np.zeros(d + 1), np.eye(d + 1)), 'mean longer than the variable')
    raises(lambda: scm.add_gaussian_noise(x, np.zeros(d - 1), np.eye(d - 1)), 'mean shorter than the variable')
  return (n, d, flat, np.ndim(m), np.ndim(c))


def structural(r):
  n = int(r.choice([1, 3, 4000]))
  ps = [r.normal(size=(n, int(r.integers(1, 4))) if r.random() < .7 else n) for _ in range(int(r.integers(1, 4)))]
  flat = np.concatenate([p.reshape(n, -1) for p in ps], 1)
  out = None if r.random() < .5 else int(r.integers(1, 4))
  w = r.normal(size=(flat.shape[1], out or 1))
  ret = int(r.integers(2))
  seen = []

  def f(x):
    seen.append(np.array(x))
    v = np.sin(x @ w) + 1
    return v[:, 0] if out is None and ret else v

  cov = rand_cov(r, out or 1)
  mean = float(r.normal()) if out is None else r.normal(size=out)
  s = snap(ps)[0]
  got = scm.structural_equation_with_noise(ps, f, mean, float(cov[0, 0]) if out is None else cov)
  check(len(seen) > 0 and all(exact(x, flat) for x in seen), lambda: f'the function was given {short(seen)}, expected {short(flat)}')
  tot = np.sin(flat @ w) + 1
  tot = tot[:, 0] if out is None else tot
  what = f'structural_equation_with_noise, parents {[p.shape for p in ps]}, output {out}'
  check(np.shape(got) == tot.shape, lambda: f'{what}: shape {np.shape(got)}, expected {tot.shape}')
  gaussian_ok(got - tot, mean, cov, what)
  check(all(exact(a, b) for a, b in zip(ps, s)) and len(ps) == len(s), what + ': parents modified')
  return (n, len(ps), out)


def logistic(r):
  n = int(r.choice([1, 3, 4000]))
  ps, bs, tot = parents_of(r, n)
  sc = int(r.choice([1, 1, 10]))
  bs = [b * sc for b in bs]
  s = snap(ps, bs)
  z = np.asarray(tot * sc, float)
  if r.random() < .5:
    got = scm.logistic_linear_bernoulli_cpd(ps, bs)
  else:
    got = scm.logistic_bernoulli_cpd(ps, lambda p: z if p is ps or len(p) == len(ps) else 1 / 0)
  check(np.shape(got) == (n,), lambda: f'shape {np.shape(got)}')
  bernoulli_ok(np.asarray(got), sig(z), [np.ones(n), z, np.abs(z)] + [p if np.ndim(p) == 1 else p[:, 0] for p in ps], 'logistic distribution')
  check(all(exact(a, b) for a, b in zip(ps, s[0])) and all(exact(a, b) for a, b in zip(bs, s[1])), 'arguments modified')
  return (n, len(ps))


def categorical(r):
  n, k, m = int(r.integers(0, 7)), int(r.integers(1, 5)), int(r.integers(1, 4))
  c = int(r.integers(k))
  idx = r.integers(0, m, size=n)
  ps = []
  for i in range(k):
    ps.append((idx.astype(r.choice(['f8', 'i8'])) if i == c else r.normal(size=n if r.random() < .5 else (n, int(r.integers(1, 4))))))
  log = []

  def dist(j):
    def f(q, parents):
      log.append((j, q, [np.array(p) for p in parents], 100.0 * j + len(log)))
      return np.array([log[-1][3]])
    return f

  ds = [dist(j) for j in range(m)]
  s = snap(ps)[0]
  before = list(map(id, ps))
  got = scm.categorical_conditioning(ps, c, ds)
  check(len(ps) == k and list(map(id, ps)) == before and all(exact(a, b) for a, b in zip(ps, s)) and len(ds) == m, 'arguments modified')
  check(np.shape(got) == (n,), lambda: f'shape {np.shape(got)} for {n} units')
  check(len(log) == n, lambda: f'{len(log)} draws for {n} units')
  used = set()
  for u in range(n):
    e = [l for l in log if l[3] == got[u]]
    check(len(e) == 1 and got[u] not in used, lambda: f'unit {u}: value {got[u]} is not its own draw')
    used.add(got[u])
    j, q, pp, _ = e[0]
    check(q == 1, f'unit {u}: {q} samples requested')
    check(j == idx[u], lambda: f'unit {u}: distribution {j} for conditioning value {idx[u]} (parent {c} of {k})')
    want = [p[u] for i, p in enumerate(s) if i != c]
    check(len(pp) == len(want) and all(exact(a, b) for a, b in zip(pp, want)), lambda: f'unit {u}: parents {short(pp)}, expected {short(want)}')
  raises(lambda: scm.categorical_conditioning(ps, k + int(r.integers(2)), ds), 'an index beyond the parents')
  return (n, k, m, c)
