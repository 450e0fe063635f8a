#!/usr/bin/env python3-vt
"""check.py CXX: decide one property against /repo's current tree.

The proof cases of props/cxx.py are run by the verifier (vc/) over the current
source; the concrete replay (oracle/cxx.py, on the real code) looks for failing
inputs and checks the assumed library contracts.
"""
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def oracle_cmd(pid, seed, tier, out):
  return ['/opt/venv/bin/python', os.path.join(HERE, 'oracle', 'run.py'), pid, str(seed), tier, out]


def main():
  pid = sys.argv[1].upper()
  only = sys.argv[2] if len(sys.argv) > 2 else None
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  try:
    seed = int(os.environ.get('VERIF_SEED', '1'))
  except ValueError:
    seed = 1
  repo = os.environ.get('VERIF_REPO', '/repo')
  t0 = time.time()
  env = dict(os.environ, PYTHONPATH=repo, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1')
  tmp = tempfile.mkdtemp(prefix='verif-')
  of = os.path.join(tmp, 'oracle.json')
  orc = None
  if only is None and os.path.exists(os.path.join(HERE, 'oracle', pid.lower() + '.py')):
    env['MPLCONFIGDIR'] = tmp
    env['HOME'] = tmp
    olog = open(os.path.join(tmp, 'log'), 'w+')
    orc = subprocess.Popen(oracle_cmd(pid, seed, tier, of), env=env, cwd=tmp, stdout=olog, stderr=subprocess.STDOUT)
  mod = importlib.import_module('props.' + pid.lower())
  from vc import task
  with open(os.path.join(HERE, 'known-findings.json')) as f:
    known = [k for k in json.load(f)['open'] if k['property'] == pid]

  def found():
    if orc is None or orc.poll() is None:
      return False
    try:
      with open(of) as f:
        return any(x['case'] not in [k['case'] for k in known] for x in json.load(f)['failures'])
    except (OSError, ValueError):
      return False

  res = task.run_all(pid, tier, only, jobs=int(os.environ.get('VERIF_JOBS', '8')),
                     budget=800 if tier == 'quick' else 6000, hurry=found)
  orep = {'evaluations': 0, 'distinct': 0, 'failures': [], 'samples': [], 'error': None}
  if orc is not None:
    try:
      orc.wait(timeout=max(5, (860 if tier == 'quick' else 7000) - (time.time() - t0)))
    except subprocess.TimeoutExpired:
      orc.kill()
      orc.wait()
      orep['error'] = 'replay timed out'
    try:
      with open(of) as f:
        orep.update(json.load(f))
    except (OSError, ValueError):
      olog.seek(0)
      orep['error'] = (orep['error'] or 'replay died') + ': ' + olog.read()[-2000:]
  subprocess.call(['rm', '-r', '-f', tmp])

  obl = [(r['case'],) + tuple(o) for r in res for o in r['obligations']]
  bad = [o for o in obl if o[2] != 'discharged']
  problems = [(r['case'], r['problem']) for r in res if r['problem']]
  ofail = orep['failures']
  knownhit = []
  rest = []
  for f in ofail:
    k = [k for k in known if k['case'] == f['case']]
    (knownhit if k else rest).append(f)
  ofail = rest

  backs, facts, trusted, inl, und = {}, set(), set(), set(), set()
  qn, qt = 0, 0.0
  for r in res:
    for b, n in r['stats']['backends'].items():
      backs[b] = backs.get(b, 0) + n
    facts |= set(r['stats']['facts'])
    trusted |= set(r['trusted'])
    inl |= set(r['inlined'])
    und |= set(r['under_contract'])
    qn += r['stats']['queries']
    qt += r['stats']['time']
  viol = bool(bad or problems or ofail)
  bounded = list(getattr(mod, 'BOUNDED', []))
  ev = {
      'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
      'coverage': {
          'obligations': len(obl), 'discharged': len(obl) - len(bad),
          'checker_cmd': f'cd /verif && python3-vt check.py {pid}',
          'trusted_base': [
              'vc/ symbolic executor and verification-condition generator for Python',
              'z3 5.3 (primary back end), cvc5 1.x (second opinion on unknown)',
              'vc/poly.py ring normal form (equalities of sums)'] + [f'library contract: {t}' for t in sorted(trusted)] + [
                  f'axiom schema: {t}' for t in sorted(facts)] + list(getattr(mod, 'TRUSTED', [])),
          'functions_verified_from_source': sorted(inl),
          'functions_used_through_contract': sorted(und),
          'cases': [{'name': r['case'], 'paths': r['paths'], 'obligations': len(r['obligations']),
                     'discharged': sum(1 for o in r['obligations'] if o[1] == 'discharged'),
                     'problem': r['problem'], 'wall_s': round(r['wall'], 2)} for r in res],
          'solver_queries': qn, 'solver_time_s': round(qt, 2), 'discharged_by_backend_queries': backs,
          'replay': {'evaluations': orep['evaluations'], 'distinct_nontrivial': orep['distinct'],
                     'samples': orep['samples'][:5], 'failures': len(orep['failures']), 'error': orep['error'],
                     'role': 'searches failing inputs on the real code and checks assumed contracts; never counted as proved'},
          'bounded_parts': bounded,
      },
      'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
          'floats are extended reals: rounding and signed zero ignored',
          'user-supplied objects (arms, data sources, distributions, predictors) obey the interface named in the case and have no other effect',
      ],
      'wall_s': round(time.time() - t0, 2), 'violations': len(bad) + len(problems) + len(ofail),
  }
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  if only is None:
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  for f in knownhit:
    print(f'KNOWN-FINDING: property={pid} {f["case"]}: {f["detail"][:300]}')
  print(f'{pid}: {len(obl) - len(bad)}/{len(obl)} obligations discharged in {len(res)} cases, '
        f'{qn} queries, {qt:.1f}s solver; replay {orep["evaluations"]} evaluations'
        f'{" ERROR " + orep["error"] if orep["error"] else ""}; {time.time() - t0:.1f}s')
  for c, p in problems:
    print(f'  NOT VERIFIED {c}: {p}'[:700])
  for o in bad:
    print(f'  FAILED OBLIGATION {o[0]}: {o[1]} [{o[2]}] at {o[4]}: {o[3][:600]}')
  for f in ofail:
    print(f'  FAILING INPUT {f["case"]}: {f["detail"][:600]}')
  if not viol:
    return 0
  os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
  rp = os.path.join(HERE, 'replays', f'{pid}.json')
  with open(rp, 'w') as f:
    json.dump({'property': pid, 'seed': seed, 'tier': tier,
               'failed_obligations': [dict(case=o[0], obligation=o[1], verdict=o[2], verifier_output=o[3], where=o[4]) for o in bad],
               'not_verified': [dict(case=c, reason=p) for c, p in problems],
               'failing_inputs': ofail,
               'replay_cmd': ' '.join(oracle_cmd(pid, seed, tier, '/dev/stdout'))}, f, indent=1)
  print(f'VIOLATION property={pid} replay={rp}' + ('' if ofail else ' no-failing-input-found'))
  return 1


if __name__ == '__main__':
  sys.exit(main())
