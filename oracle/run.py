"""run.py CXX SEED TIER OUT: concrete replay of a property on the real code.

Runs seeded trials of oracle/cxx.py against the repository found on
PYTHONPATH, comparing observable behaviour with independent reference
computations. Never counted as proof: it looks for failing inputs (to report
with a failed obligation) and exercises the assumed library contracts.
"""
import importlib
import io
import json
import os
import sys
import time
import traceback
import contextlib
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

import numpy as np  # pylint: disable=wrong-import-position


def main():
  pid, seed, tier, out = sys.argv[1].upper(), int(sys.argv[2]), sys.argv[3], sys.argv[4]
  np.seterr(all='ignore')
  mod = importlib.import_module('oracle.' + pid.lower())
  from oracle.common import Fail, Skip
  res = {'evaluations': 0, 'distinct': 0, 'failures': [], 'samples': [], 'error': None}
  keys = set()
  t0 = time.time()
  limit = getattr(mod, 'LIMIT', {}).get(tier, 120 if tier == 'quick' else 1500)
  mult = 1 if tier == 'quick' else 12
  cases = mod.CASES
  share = limit / max(1, len(cases))
  for ci, (name, fn, n) in enumerate(cases):
    tc = time.time()
    for t in range(n * mult):
      if time.time() - tc > share and t > 0:
        break
      r = np.random.default_rng([seed, ci, t])
      np.random.seed((seed * 1000003 + ci * 10007 + t) % (2**32))
      buf = io.StringIO()
      fail = None
      try:
        with contextlib.redirect_stdout(buf), np.errstate(all='ignore'):
          key = fn(r)
      except Skip:
        continue
      except Fail as e:
        fail = str(e)
        key = None
      except Exception as e:  # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if 'causal_effect_bandits' in f.filename]
        fail = (f'unexpected {type(e).__name__}: {e} at ' +
                ', '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in (inner or tb)[-3:]))
        key = None
      res['evaluations'] += 1
      if key is not None:
        keys.add((name, str(key)))
        if len(res['samples']) < 8 and t < 2:
          res['samples'].append({'case': name, 'trial': t, 'input': str(key)[:300]})
      if fail is not None:
        res['failures'].append({'case': name, 'detail': fail, 'trial': t, 'rng_key': [seed, ci, t]})
        if sum(1 for f in res['failures'] if f['case'] == name) >= 3:
          break
  res['distinct'] = len(keys)
  res['wall'] = time.time() - t0
  if out == '/dev/stdout':
    print(json.dumps(res, indent=1))
  else:
    with open(out, 'w') as f:
      json.dump(res, f)


if __name__ == '__main__':
  main()
