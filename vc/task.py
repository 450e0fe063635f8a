"""Running the proof cases of a property: one fresh interpreter per case."""
import importlib
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

sys.setrecursionlimit(20000)


class CaseTimeout(Exception):
  pass


class Case:
  """One contract under verification: fn(ip) sets up an arbitrary state
  satisfying the precondition, runs the real code and states obligations."""

  def __init__(self, name, fn, functions=(), timeout=400, min_obligations=1, thorough=False):
    self.name, self.fn, self.functions = name, fn, tuple(functions)
    self.timeout, self.min_obligations, self.thorough = timeout, min_obligations, thorough


def run_case(pid, idx, tier):
  """Run in a child process; returns a plain dict."""
  from vc import interp, lib, prover
  from vc.terms import Unsupported
  mod = importlib.import_module('props.' + pid.lower())
  case = mod.CASES[idx]
  out = {'case': case.name, 'obligations': [], 'problem': None, 'paths': 0}
  t0 = time.time()

  def onalarm(sig, fr):
    raise CaseTimeout()

  signal.signal(signal.SIGALRM, onalarm)
  signal.alarm(int(case.timeout))
  ip = interp.Interp(lib.L)
  try:
    outs = ip.explore(lambda: case.fn(ip), maxpaths=3000)
    out['paths'] = len(outs)
    for o in outs:
      if o.kind == 'raise':
        out['problem'] = f'the contract driver itself raised {o.val.cls}'
  except Unsupported as e:
    out['problem'] = f'outside the verified subset: {e} (near {ip.where})'
    if os.environ.get('VERIF_TRACE'):
      traceback.print_exc()
  except CaseTimeout:
    out['problem'] = f'no proof within {case.timeout} s (near {ip.where})'
    if os.environ.get('VERIF_TRACE'):
      traceback.print_exc()
  except RecursionError:
    out['problem'] = 'recursion limit'
  except Exception as e:  # pylint: disable=broad-except
    out['problem'] = f'verifier error {type(e).__name__}: {e} (near {ip.where})'
    if os.environ.get('VERIF_TRACE'):
      traceback.print_exc()
  signal.alarm(0)
  seen = {}
  for o in ip.obligations:
    key = (o.name, o.key)
    if key not in seen or o.status != 'discharged':
      seen[key] = o
  out['obligations'] = [(o.name, o.status, o.detail, o.where) for o in seen.values()]
  if not out['problem'] and len(seen) < case.min_obligations:
    out['problem'] = f'only {len(seen)} obligations were generated (expected at least {case.min_obligations})'
  miss = [f for f in case.functions if f not in ip.inlined and f not in ip.under_contract]
  if not out['problem'] and miss:
    out['problem'] = f'functions never reached: {miss}'
  out['inlined'] = sorted(ip.inlined)
  out['under_contract'] = sorted(ip.under_contract)
  out['trusted'] = sorted(ip.trusted)
  s = prover.STATS
  out['stats'] = dict(queries=s.queries, time=s.time, backends=s.backends, facts=sorted(s.used_facts))
  out['wall'] = time.time() - t0
  return out


def _child(pid, idx, tier, q):
  try:
    q.send(run_case(pid, idx, tier))
  except BaseException as e:  # pylint: disable=broad-except
    q.send({'case': str(idx), 'obligations': [], 'problem': f'verifier died: {type(e).__name__}: {e}', 'paths': 0,
            'inlined': [], 'under_contract': [], 'trusted': [], 'stats': dict(queries=0, time=0, backends={}, facts=[]), 'wall': 0})
  q.close()


def run_all(pid, tier, only=None, jobs=8, budget=800, hurry=None):
  """hurry: a poll; once true (a failing input is known) at most 120 s are left."""
  mod = importlib.import_module('props.' + pid.lower())
  todo = [i for i, c in enumerate(mod.CASES)
          if (only is None or only in c.name) and (tier == 'thorough' or not c.thorough)]
  todo.sort(key=lambda i: -mod.CASES[i].timeout)
  running, res = [], {}
  t0 = time.time()
  asked = 0
  while todo or running:
    if hurry and time.time() - asked > 2:
      asked = time.time()
      if hurry():
        hurry, budget = None, min(budget, time.time() - t0 + 120)
    while todo and len(running) < jobs:
      i = todo.pop(0)
      a, b = mp.Pipe(False)
      p = mp.Process(target=_child, args=(pid, i, tier, b))
      p.start()
      b.close()
      running.append((i, p, a, time.time()))
    time.sleep(0.02)
    for e in list(running):
      i, p, a, ts = e
      got = None
      if a.poll():
        try:
          got = a.recv()
        except EOFError:
          got = None
          p.join(1)
      if got is None and p.is_alive():
        if time.time() - ts > mod.CASES[i].timeout + 20 or time.time() - t0 > budget:
          p.kill()
          p.join()
          got = None
        else:
          continue
      if got is None:
        got = {'case': mod.CASES[i].name, 'obligations': [], 'problem': 'no answer from the verifier (time or memory)',
               'paths': 0, 'inlined': [], 'under_contract': [], 'trusted': [],
               'stats': dict(queries=0, time=0, backends={}, facts=[]), 'wall': time.time() - ts}
      p.join(5)
      res[i] = got
      running.remove(e)
  return [res[i] for i in sorted(res)]
