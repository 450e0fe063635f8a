"""Bandit runs over scripted arms, checked against an independent reference."""
from oracle.common import *
from causal_effect_bandits import bandits, data

ALG = {'uniform': 'UniformAlgorithm', 'lucb': 'LUCBAlgorithm', 'se': 'SuccessiveEliminationAlgorithm'}


class Stop(Exception):
  pass


class Arm:

  def __init__(self, run, i, cost):
    self.run, self.i, self.cost = run, i, cost
    self.name = f'arm{i}'
    self.ci, self.var_est = (0, np.inf), float(run.start[i])
    self.n = 0
    self.ups = 0

  def update(self, new_data, delta):
    r = self.run
    self.n += len(new_data)
    self.ups += 1
    self.var_est, self.ci = r.value(self.i, self.ups)
    r.events.append(dict(arm=self.i, batch=new_data, ids=np.array(new_data.cov[:, 0]), cnt=len(new_data), delta=delta,
                         ci=self.ci, var=self.var_est, calls=len(r.gen_calls), start=self.n - len(new_data)))
    if len(r.events) > r.maxev:
      raise Stop()
    return self.ci

  def get_num_units(self):
    return self.n

  def reset(self):
    self.n = self.ups = 0
    self.ci, self.var_est = (0, np.inf), float(self.run.start[self.i])


class Gen:

  def __init__(self, run):
    self.run = run

  def generate(self, n):
    r = self.run
    ids = np.arange(r.next, r.next + n)
    r.next += n
    b = data.ExpData(ids[:, None] * 1.0, ids * 1.0, ids * 1.0)
    r.gen_calls.append((n, b))
    return b


class Run:
  """One run; histories, events and rounds."""

  def __init__(self, r, algs=tuple(ALG), limit=None):
    self.alg = str(r.choice(algs))
    self.n = int(r.integers(2, 6))
    self.units = int(r.integers(1, 6))
    self.ep = float(r.choice([.05, .1, .2, .5]))
    self.tol = float(r.choice([0, 0, .25, 1, 2]))
    style = int(r.integers(0, 4))
    self.style = style
    self.near = r.random() < .2
    n = self.n
    lim = limit or str(r.choice(['none', 'some', 'some', 'zero', 'huge']))
    if (style in (1, 3) or self.near) and lim in ('none', 'huge'):
      lim = 'some'  # scripts with ties need not end otherwise
    rounds = int(r.integers(1, 12))
    self.limit = {'none': None, 'zero': 0, 'huge': 10**9,
                  'some': int(rounds * n * self.units + int(r.integers(-2, 3)) * int(r.integers(0, self.units + 1)))}[lim]
    if self.limit is not None and self.limit < 0:
      self.limit = 0
    self.costs = [float(c) for c in (r.choice([1., 1., 2., .5], size=n) if r.random() < .5 else np.ones(n))]
    self.start = r.integers(1, 9, size=n)
    self.base = r.permutation(n) * 2.0 + 1 if style != 1 else r.integers(1, 3, size=n) * 1.0
    if self.near:
      self.base = 1 + r.permutation(n) * 2.0**-24
    self.jit = r.integers(0, 3, size=(n, 400))
    self.jit2 = r.integers(0, 8, size=(n, 400))
    self.infr = int(r.integers(0, 5)) if r.random() < .3 else 0
    self.stable = bool(r.random() < .5)
    self.events, self.gen_calls, self.next = [], [], 0
    self.maxev = 4000
    self.gen = Gen(self)
    self.arms = [Arm(self, i, self.costs[i]) for i in range(n)]
    # units used so far before this run (fresh arms)
    total = self.units * 3000
    ids = np.arange(total)
    self.data = data.ExpData(ids[:, None] * 1.0, ids * 1.0, ids * 1.0) if self.stable else None
    self.what = (f'{self.alg} arms={n} units={self.units} limit={self.limit} tol={self.tol} dataset={self.stable} '
                 f'style={style} near={self.near} costs={self.costs} base={list(self.base)} inf={self.infr}')
    self.bandit = getattr(bandits, ALG[self.alg])(
        list(self.arms), self.gen, error_prob=self.ep, error_tol=self.tol, confidence=.05, sample_limit=self.limit,
        units_per_round=self.units)
    self.over = False
    try:
      self.res = self.bandit.run(self.data) if self.stable else self.bandit.run()
    except Stop:
      self.over = True
      self.res = None
    self.lim = np.inf if self.limit is None else self.limit

  def value(self, i, k):
    """(estimate, (lcb, ucb)) of arm i after k updates; dyadic numbers."""
    k = min(k, 399)
    c = self.costs[i]
    b = self.base[i]
    if self.style == 0:  # converging, separated
      w = 64.0 / k if k < 64 else 64.0 / (k * k)
      e = b + (self.jit[i, k] - 1) * (2.0 if k < 4 else 0)
    elif self.style == 1:  # ties everywhere
      w = float(self.jit[i, k]) if k < 10 else 0.0
      e = b
    elif self.style == 2:  # asymmetric bounds, converging
      w = 32.0 * 2.0**-min(k, 12)
      e = b
      return e / c, ((e - w * (1 + self.jit[i, k])) / c, (e + w / 2) / c if k > self.infr else np.inf)
    else:  # small integers, bounds unrelated to the estimate
      e = float(self.jit[i, k]) * (2.0**-24 if self.near else 1) + 1
      lo = float(self.jit2[i, k]) - 2
      return e / c, (lo / c, (lo + self.jit[i, k]) / c if k > self.infr else np.inf)
    return e / c, ((e - w) / c, (e + w) / c if k > self.infr else np.inf)

  # ---- reference
  def state(self):
    return [dict(est=self.costs[i] * float(self.start[i]), lcb=0.0, ucb=np.inf) for i in range(self.n)]

  def rounds(self):
    """Lists of events per round; states before and after; survivors."""
    st = self.state()
    alive = set(range(self.n))
    i = 0
    out = []
    ev = self.events
    while i < len(ev):
      k = {'uniform': self.n, 'lucb': self.n if not out else 2, 'se': len(alive)}[self.alg]
      chunk = ev[i:i + k]
      i += k
      before = [dict(s) for s in st]
      for e in chunk:
        c = self.costs[e['arm']]
        st[e['arm']] = dict(est=c * e['var'], lcb=c * e['ci'][0], ucb=c * e['ci'][1])
      a0 = set(alive)
      m = min(st[a]['est'] for a in alive)
      L = min(st[a]['ucb'] for a in alive if st[a]['est'] == m)
      alive = {a for a in alive if st[a]['lcb'] < L or (st[a]['est'] == m and st[a]['ucb'] == L)}
      out.append(dict(events=chunk, before=before, after=[dict(s) for s in st], alive=a0, left=set(alive), full=len(chunk) == k))
      if self.alg == 'se' and not alive:
        break
    return out

  def total(self):
    return sum(e['cnt'] for e in self.events)


def hist(m, a):
  return [float(x) for x in m[a]]


def ended(R):
  check(not R.over, f'{R.what}: no end after {R.maxev} updates')
  return R.rounds()


def c01(r, R):
  rs = ended(R)
  n = len(R.res.cum_samples)
  check(n == len(rs), f'{R.what}: {n} cumulative entries for {len(rs)} rounds')
  for f, k in (('lcb_by_arm', 'lcb'), ('ucb_by_arm', 'ucb'), ('var_est_by_arm', 'est')):
    m = getattr(R.res, f)
    check(len(m) == R.n, f'{R.what}: {f} has {len(m)} arms')
    for i, a in enumerate(R.arms):
      eq(hist(m, a), [x['after'][i][k] for x in rs], f'{R.what}: {f} of arm {i}')


def c02(r, R):
  rs = ended(R)
  tot = 0
  for i, a in enumerate(R.arms):
    eq(hist(R.res.samples_by_arm, a), [sum(e['cnt'] for e in x['events'] if e['arm'] == i) for x in rs],
       f'{R.what}: samples_by_arm of arm {i}')
  want = []
  for x in rs:
    tot += sum(e['cnt'] for e in x['events'])
    want.append(tot)
  eq([float(v) for v in R.res.cum_samples], want, f'{R.what}: cum_samples')


def c03(r, R):
  for j, e in enumerate(R.events):
    eq(e['delta'], R.ep / R.n, f'{R.what}: level of update {j} (arm {e["arm"]})')


def c04(r, R):
  rs = ended(R)
  if R.stable:
    check(not R.gen_calls, f'{R.what}: data was generated although a dataset was given')
    for j, e in enumerate(R.events):
      check(list(e['ids']) == list(range(e['start'], e['start'] + R.units)),
            f'{R.what}: update {j} gave arm {e["arm"]} units {list(e["ids"])[:6]} after {e["start"]} units')
    return
  for c, _ in R.gen_calls:
    check(c == R.units, f'{R.what}: batch of {c} units requested')
  seen = {}
  for k, x in enumerate(rs):
    share = R.alg == 'uniform' or (R.alg == 'lucb' and k == 0)
    keys = [tuple(e['ids']) for e in x['events']]
    for e in x['events']:
      check(len(e['ids']) == R.units, f'{R.what}: round {k} uses a batch of {len(e["ids"])} units')
    if share:
      check(len(set(keys)) == 1, f'{R.what}: round {k} does not share one batch')
    else:
      check(len(set(keys)) == len(keys), f'{R.what}: round {k} reuses a batch')
    for q in set(keys):
      check(q not in seen, f'{R.what}: round {k} reuses the batch of round {seen.get(q)}')
      seen[q] = k


def argmin(st):
  m = min(s['est'] for s in st)
  return {i for i, s in enumerate(st) if s['est'] == m}


def best(R):
  b = [R.arms.index(a) for a in R.res.best_arm]
  check(len(b) == len(set(b)), f'{R.what}: returned arms {b}')
  return b


def c05(r, R):
  rs = ended(R)
  st = rs[-1]['after'] if rs else R.state()
  b = best(R)
  if R.total() > R.lim and set(b) == argmin(st):
    return
  info = lambda: f'{R.what}: returned {b} after {R.total()} units with {st}'
  check(len(b) == 1, info)
  b = b[0]
  check(b in argmin(st), info)
  check(all(np.isfinite(s['ucb']) for s in st), info)
  check(all(st[b]['ucb'] < s['lcb'] - R.tol for i, s in enumerate(st) if i != b), info)


def c06(r, R):
  if R.limit is None:
    if R.over:
      raise Skip()
  elif R.limit < 10**9:
    check(not R.over, f'{R.what}: no end after {R.maxev} updates')
  if R.over:
    raise Skip()
  rs = ended(R)
  tot = 0
  for k, x in enumerate(rs):
    check(tot <= R.lim, f'{R.what}: round {k} starts after {tot} units')
    tot += sum(e['cnt'] for e in x['events'])
  cum = [float(c) for c in R.res.cum_samples]
  check(all(c <= R.lim for c in cum[:-1]), f'{R.what}: cumulative history {cum}')
  check(all(a < b for a, b in zip(cum, cum[1:])), f'{R.what}: cumulative history {cum}')


def c07(r, R):
  rs = ended(R)
  for k, x in enumerate(rs):
    got = sorted(e['arm'] for e in x['events'])
    check(got == sorted(x['alive']), f'{R.what}: round {k} samples {got}, surviving arms are {sorted(x["alive"])}')
  st = rs[-1]['after'] if rs else R.state()
  left = rs[-1]['left'] if rs else set(range(R.n))
  b = best(R)
  info = lambda: f'{R.what}: returned {b}, survivors {left}, states {st}, {R.total()} units'
  check(b, info)
  check((len(left) == 1 and set(b) == left) or (R.total() > R.lim and set(b) == argmin(st)), info)


def c08(r, R):
  rs = ended(R)
  for k, x in enumerate(rs[1:], 1):
    ab = [e['arm'] for e in x['events']]
    st = x['before']
    info = lambda: f'{R.what}: round {k} samples {ab} in state {st}'
    check(len(ab) == 2 and ab[0] != ab[1], info)
    A = argmin(st)
    if len(A) == R.n:
      continue
    rest = set(range(R.n)) - A
    hu = max(st[i]['ucb'] for i in A)
    ll = min(st[i]['lcb'] for i in rest)
    good = lambda p, q: p in A and st[p]['ucb'] == hu and q in rest and st[q]['lcb'] == ll
    check(good(*ab) or good(*ab[::-1]), info)


def trial(fn, algs=tuple(ALG), limit=None):
  def t(r):
    R = Run(r, algs, limit)
    if R.over and fn is not c06 and (R.limit is None or R.limit > R.maxev):
      raise Skip()
    fn(r, R)
    return R.what
  return t


def cases(fn, algs=tuple(ALG), n=250):
  return [(a, trial(fn, (a,)), n) for a in algs]
