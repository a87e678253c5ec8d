#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough]: decides one property.

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error.
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = sys.executable

# property -> (quick runs, quick wall s, thorough runs, thorough wall s)
BUDGET = {
    'default': (8000, 75, 90000, 780),
  'C05': (8000, 100, 90000, 780),
  'C08': (8000, 100, 90000, 780),
  'C12': (8000, 100, 90000, 780),
}


def known(pid):
  """(known findings, fixed entries) of a property."""
  path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
  out = []
  if os.path.exists(path):
    for line in open(path):
      if line.startswith('known: ') and f'property={pid} ' in line:
        out.append(line.split(' ', 2)[2].strip())
  return out


def env_for():
  e = dict(os.environ)
  e.setdefault('PYTHONHASHSEED', '0')
  e['PYTHONDONTWRITEBYTECODE'] = '1'
  e['JAX_PLATFORMS'] = 'cpu'
  return e


def main():
  pid = sys.argv[1]
  tier = os.environ.get('VERIF_TIER', 'quick')
  if '--tier' in sys.argv:
    tier = sys.argv[sys.argv.index('--tier') + 1]
  seed = int(os.environ.get('VERIF_SEED', '1'))
  print(f'seed {seed} tier {tier} property {pid}', flush=True)
  t0 = time.time()
  q = BUDGET.get(pid, BUDGET['default'])
  runs, wall = (q[0], q[1]) if tier == 'quick' else (q[2], q[3])
  runs = int(os.environ.get('VERIF_RUNS', runs))
  wall = float(os.environ.get('VERIF_WALL', wall))
  nw = int(os.environ.get('VERIF_WORKERS', min(8, os.cpu_count() or 8)))
  hard = wall * 1.5 + 240
  tmp = tempfile.mkdtemp(prefix='dst-')
  try:
    rc = explore(pid, tier, seed, runs, wall, nw, hard, tmp, t0)
  finally:
    subprocess.run(['rm', '-rf', tmp])
  sys.exit(rc)


def explore(pid, tier, seed, runs, wall, nw, hard, tmp, t0):
  procs = {}
  parts = []
  n_out = [0]

  def spawn(i, first, left):
    n_out[0] += 1
    out = os.path.join(tmp, f'w{i}-{n_out[0]}.json')
    err = open(out + '.err', 'w')
    p = subprocess.Popen(
        [PY, os.path.join(HERE, 'runner.py'), 'worker', '--prop', pid, '--worker', str(i),
         '--of', str(nw), '--seed', str(seed), '--tier', tier, '--wall', str(left),
         '--runs', str(runs), '--out', out, '--first', str(first)],
        env=env_for(), stdout=err, stderr=subprocess.STDOUT, cwd=tmp)
    procs[i] = (p, out, err)

  for i in range(nw):
    spawn(i, i, wall)
  violation = None
  errors = []
  while procs:
    time.sleep(0.1)
    for i, (p, out, err) in list(procs.items()):
      if p.poll() is None:
        if time.time() - t0 > hard:
          p.kill()
          errors.append(f'worker {i} overran its time limit')
          del procs[i]
        continue
      err.close()
      del procs[i]
      if not os.path.exists(out):
        errors.append(f'worker {i} ended with {p.returncode}: '
                      + open(out + '.err').read()[-1500:])
        continue
      part = json.load(open(out))
      parts.append(part)
      for e in part['errors']:
        errors.append(f"run {e['k']}: {e['error']}\n{e['tb']}")
      if part['viol'] and violation is None:
        violation = part['viol']
        for p2, _, _ in procs.values():
          p2.kill()
        for p2, _, _ in procs.values():
          p2.wait()
        procs.clear()
        break
      if part['next'] is not None and time.time() - t0 < wall:
        spawn(i, part['next'], wall - (time.time() - t0))
  agg = combine(parts)
  explore_wall = time.time() - t0
  rc = 0
  replay_path = None
  if violation is not None:
    rc = 1
    replay_path, note = report(pid, tier, seed, violation, tmp)
    print(note)
  elif errors:
    rc = 2
  elif agg['runs'] == 0:
    errors.append('no run completed')
    rc = 2
  for e in errors[:5]:
    print('ERROR ' + e)
  for k in known(pid):
    print(f'KNOWN-FINDING: property={pid} {k}')
  write_evidence(pid, tier, seed, agg, explore_wall, time.time() - t0, violation is not None, nw)
  print(f"{pid}: {agg['runs']} runs, {agg['nontrivial']} non-trivial, "
        f"{len(agg['crcs'])} distinct, {time.time() - t0:.0f} s")
  if rc == 1:
    print(f'VIOLATION property={pid} replay={replay_path}')
  sys.stdout.flush()
  return rc


def combine(parts):
  agg = {'runs': 0, 'nontrivial': 0, 'ops': 0, 'stats': {}, 'fired': {}, 'probes': {},
         'samples': [], 'determinism_reruns': 0, 'determinism_mismatches': 0,
         'crcs': set(), 'pairs': set(), 'policies': {}, 'blocks': 0}
  for p in parts:
    for k in ('runs', 'nontrivial', 'ops', 'determinism_reruns', 'determinism_mismatches', 'blocks'):
      agg[k] += p[k]
    for k in ('stats', 'fired', 'probes', 'policies'):
      for n, v in p[k].items():
        agg[k][n] = agg[k].get(n, 0) + v
    agg['crcs'].update(p['crcs'])
    agg['pairs'].update(p['pairs'])
    agg['samples'] += p['samples']
  return agg


def report(pid, tier, seed, violation, tmp):
  """Minimises a violation, writes and verifies the replay file."""
  v = {'property': pid, 'tier': tier, 'seed': seed, 'run': violation['k'],
       'viol': violation['viol'], 'crc': violation['crc'], 'trace': violation['trace'],
       'scenario': violation['scenario'], 'original_scenario': violation['scenario']}
  d = os.path.join(ROOT, 'replays')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, f'{pid}-s{seed}-r{violation["k"]}.json')
  fin = os.path.join(tmp, 'viol.json')
  json.dump(v, open(fin, 'w'))
  fout = os.path.join(tmp, 'min.json')
  env = env_for()
  try:
    subprocess.run([PY, os.path.join(HERE, 'runner.py'), 'minimise', '--in', fin, '--out', fout,
                    '--wall', '75'], env=env, timeout=240, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
  except subprocess.TimeoutExpired:
    pass
  cands = []
  if os.path.exists(fout):
    mv = json.load(open(fout))
    if mv.get('standalone'):
      cands.append(mv)
  cands.append(dict(v, prefix=violation['prefix']))
  for tries, c in [(1, c) for c in cands] + [(4, cands[0])]:
    json.dump(c, open(path, 'w'), indent=1)
    try:
      p = subprocess.run([PY, os.path.join(HERE, 'runner.py'), 'replay', path, '--tries', str(tries)],
                         env=env, timeout=200, capture_output=True, text=True)
    except subprocess.TimeoutExpired:
      continue
    if p.returncode == 1:
      return path, p.stdout.split('VIOLATION ')[0]
  json.dump(dict(cands[-1], reproduced=False), open(path, 'w'), indent=1)
  return path, ('observed, but not reproduced by the replay file: ' + json.dumps(v['viol'])[:1500])


def write_evidence(pid, tier, seed, agg, explore_wall, wall, viol, nw):
  sys.path.insert(0, HERE)
  meta = json.load(open(os.path.join(HERE, 'meta.json'))).get(pid, {})
  h = max(explore_wall, 1e-6) / 3600
  cov = {
      'evaluations': agg['runs'],
      'distinct_nontrivial': len(agg['crcs']),
      'rule': meta.get('rule', ''),
      'samples': agg['samples'][:3],
      'nontrivial_runs': agg['nontrivial'],
      'runs_per_hour': round(agg['runs'] / h),
      'seeds': 'every run has its own seed, derived from the property, the check seed and the run number',
      'operations': agg['ops'],
      'simulated_time': 'counters.steps: scheduler steps, which are library bytecodes and declared points; '
                        'the code has no timers, so steps are the only clock',
      'counters': agg['stats'],
      'faults_injected': agg['fired'],
      'probes': agg['probes'],
      'schedule_policies': agg['policies'],
      'distinct_interleavings_measure': 'distinct_nontrivial counts different checksums of the event log: every '
                                        'preemption (location and callers), fault, operation result and end',
      'distinct_preemption_pairs': len(agg['pairs']),
      'distinct_preemption_pairs_measure': 'pairs (location a caller was preempted at, location the '
                                           'next caller was last preempted at)',
      'workload_blocks': agg['blocks'],
      'determinism_reruns': agg['determinism_reruns'],
      'determinism_mismatches': agg['determinism_mismatches'],
      'workers': nw,
      'real_components': meta.get('real', []),
      'stub_components': meta.get('stub', []),
  }
  ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
        'assumptions': meta.get('assumptions', []), 'wall_s': round(wall, 1),
        'violations': int(viol)}
  os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
  json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
  main()
