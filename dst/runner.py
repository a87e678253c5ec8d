"""Worker, minimiser and replayer of simulated runs.

  runner.py worker   --prop C01 --worker i --of n --seed S --tier T --wall W --runs N --out F
  runner.py minimise --in F --out G --wall W
  runner.py replay   FILE
"""
import argparse
import copy
import gc
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'props'))


def prop_module(pid):
  return importlib.import_module(pid.lower())


def rss_mb():
  with open('/proc/self/statm') as f:
    return int(f.read().split()[1]) * 4096 / 1e6


def clean(o):
  """JSON-safe copy."""
  if isinstance(o, dict):
    return {str(k): clean(v) for k, v in o.items()}
  if isinstance(o, (list, tuple)):
    return [clean(v) for v in o]
  if isinstance(o, (set, frozenset)):
    return sorted(clean(v) for v in o)
  if isinstance(o, (str, int, float, bool)) or o is None:
    return o
  return repr(o)


# -- worker -------------------------------------------------------------------

def worker(a):
  t0 = time.time()
  m = prop_module(a.prop)
  import sim
  if hasattr(m, 'init'):
    m.init(a.seed, a.tier)
  agg = {'runs': 0, 'nontrivial': 0, 'ops': 0, 'stats': {}, 'fired': {}, 'probes': {},
         'samples': [], 'determinism_reruns': 0, 'determinism_mismatches': 0,
         'crcs': set(), 'pairs': set(), 'policies': {}, 'errors': [], 'viol': None,
         'next': None, 'blocks': 0, 'done': False}

  def save():
    agg['wall'] = time.time() - t0
    out = dict(agg)
    out['crcs'] = sorted(agg['crcs'])
    out['pairs'] = sorted(agg['pairs'])
    tmp = a.out + '.tmp'
    with open(tmp, 'w') as f:
      json.dump(clean(out), f)
    os.replace(tmp, a.out)

  nblocks = (a.runs + m.BLOCK - 1) // m.BLOCK
  b = a.first
  stop = False
  while b < nblocks and not stop:
    history = []
    for k in range(b * m.BLOCK, min((b + 1) * m.BLOCK, a.runs)):
      if time.time() - t0 > a.wall:
        stop = True
        break
      sc = m.gen(k, a.seed, a.tier)
      try:
        r = m.run(sc)
        if k % 37 == 11:
          r2 = m.run(sc)
          agg['determinism_reruns'] += 1
          if r2['crc'] != r['crc']:
            agg['determinism_mismatches'] += 1
      except sim.HarnessError as e:
        agg['errors'].append({'k': k, 'error': repr(e), 'tb': traceback.format_exc()[-3000:],
                              'scenario': sc})
        save()
        os._exit(3)
      except Exception as e:
        agg['errors'].append({'k': k, 'error': repr(e), 'tb': traceback.format_exc()[-3000:],
                              'scenario': sc})
        save()
        os._exit(3)
      agg['runs'] += 1
      agg['ops'] += r.get('ops', 0)
      if r['nontrivial']:
        agg['nontrivial'] += 1
        agg['crcs'].add(r.get('sig') or r['crc'])
      for n, v in r['stats'].items():
        agg['stats'][n] = agg['stats'].get(n, 0) + v
      for n, v in r['fired'].items():
        agg['fired'][n] = agg['fired'].get(n, 0) + v
      for n, v in r.get('probes', {}).items():
        agg['probes'][n] = agg['probes'].get(n, 0) + v
      pk = (sc.get('policy') or {}).get('kind')
      if pk:
        agg['policies'][pk] = agg['policies'].get(pk, 0) + 1
      if len(agg['pairs']) < 400000:
        agg['pairs'] |= r.get('pairs', set())
      if len(agg['samples']) < 2 and r['nontrivial'] and not r['viol']:
        agg['samples'].append({'run': k, 'scenario': m.sample(sc) if hasattr(m, 'sample') else sc,
                               'stats': r['stats'], 'faults': r['fired'],
                               'event_log_crc': r['crc']})
      if r['viol']:
        agg['viol'] = {'k': k, 'scenario': sc, 'viol': r['viol'], 'crc': r['crc'],
                       'trace': r.get('trace'), 'prefix': history}
        save()
        os._exit(0)
      history.append(k)
    agg['blocks'] += 1
    b += a.of
    gc.collect()
    if rss_mb() > 2600 and b < nblocks and not stop:
      agg['next'] = b
      save()
      os._exit(0)
  agg['done'] = not stop
  save()
  sys.stdout.flush()
  os._exit(0)


# -- minimiser ----------------------------------------------------------------

def ddmin(items, test, deadline):
  """Smallest sublist found for which test holds (classic ddmin)."""
  n = 2
  if not items or time.time() > deadline:
    return items
  if test([]):
    return []
  while len(items) >= 2 and time.time() < deadline:
    size = max(1, len(items) // n)
    chunks = [items[i:i + size] for i in range(0, len(items), size)]
    reduced = False
    for i in range(len(chunks)):
      if time.time() > deadline:
        return items
      rest = [x for j, c in enumerate(chunks) if j != i for x in c]
      if test(rest):
        items, n, reduced = rest, max(n - 1, 2), True
        break
    if not reduced:
      if n >= len(items):
        break
      n = min(len(items), n * 2)
  return items


def minimise(a):
  t0 = time.time()
  deadline = t0 + a.wall
  with open(a.inp) as f:
    v = json.load(f)
  m = prop_module(v['property'])
  import sim
  if hasattr(m, 'init'):
    m.init(v['seed'], v['tier'])
  kind = v['viol']['kind']
  tests = [0]

  def attempt(sc):
    tests[0] += 1
    try:
      r = m.run(copy.deepcopy(sc))
    except (sim.HarnessError, Exception):
      return None
    if r['viol'] and r['viol']['kind'] == kind:
      return r
    return None

  out = dict(v)
  sc = v['scenario']
  best = attempt(sc)
  if best is None:
    out['standalone'] = False
    out['minimiser'] = {'tests': tests[0]}
    with open(a.out, 'w') as f:
      json.dump(clean(out), f, indent=1)
    os._exit(0)
  out['standalone'] = True

  def accept(c, r):
    nonlocal sc, best
    sc, best = c, r

  def try_(c):
    if time.time() > deadline:
      return False
    r = attempt(c)
    if r is not None:
      accept(c, r)
      return True
    return False

  # 1. Sequential schedule?  Else: the recorded schedule and faults.
  if 'policy' in sc and sc['policy'].get('kind') != 'replay':
    if not try_(dict(sc, policy={'kind': 'none'})):
      tr = best.get('trace') or {}
      c = dict(sc, policy={'kind': 'replay', 'switches': tr.get('switches', [])})
      if any(f.get('where') in ('hot', 'step', 'count', 'point', 'site') for f in sc.get('faults', [])):
        c['faults'] = [f for f in sc['faults'] if f.get('where') not in ('hot', 'step', 'count', 'point', 'site')] + tr.get('faults', [])
      try_(c)
  # 2. Fewer calls, callers, operations, faults.
  rounds = 0
  changed = True
  while changed and time.time() < deadline and rounds < 4:
    changed = False
    rounds += 1
    before = json.dumps(clean(sc), sort_keys=True)
    if sc.get('progs'):
      for i in range(len(sc['progs'])):
        if sc['progs'][i]:
          p = [list(q) for q in sc['progs']]
          p[i] = []
          try_(dict(sc, progs=p))
      for i in range(len(sc['progs'])):
        if len(sc['progs'][i]) > 1:
          def t(ops, i=i):
            p = [list(q) for q in sc['progs']]
            p[i] = ops
            return try_(dict(sc, progs=p))
          ddmin(sc['progs'][i], t, deadline)
    for key in ('faults', 'ops', 'after', *getattr(m, 'SHRINK', ())):
      if sc.get(key):
        ddmin(sc[key], lambda xs, key=key: try_(dict(sc, **{key: xs})), deadline)
    if sc.get('policy', {}).get('kind') == 'replay':
      sw = sc['policy']['switches']
      ddmin(sw, lambda xs: try_(dict(sc, policy={'kind': 'replay', 'switches': xs})), deadline)
    if hasattr(m, 'shrink'):
      for c in m.shrink(sc):
        if time.time() > deadline:
          break
        try_(c)
    changed = json.dumps(clean(sc), sort_keys=True) != before
  out['scenario'] = sc
  out['viol'] = best['viol']
  out['crc'] = best['crc']
  out['trace'] = best.get('trace')
  out['minimiser'] = {'tests': tests[0], 'wall_s': round(time.time() - t0, 1)}
  with open(a.out, 'w') as f:
    json.dump(clean(out), f, indent=1)
  os._exit(0)


# -- replay -------------------------------------------------------------------

def replay(a):
  with open(a.file) as f:
    v = json.load(f)
  m = prop_module(v['property'])
  if hasattr(m, 'init'):
    m.init(v['seed'], v['tier'])
  r = None
  for attempt in range(a.tries):
    for k in (v.get('prefix') or []):
      m.run(m.gen(k, v['seed'], v['tier']))
    r = m.run(copy.deepcopy(v['scenario']))
    if r['viol']:
      break
  if r['viol']:
    same = r['viol']['kind'] == v['viol']['kind']
    exact = same and r['crc'] == v['crc']
    print(f"replayed {a.file}: kind={r['viol']['kind']} same_kind={same} "
          f"event_log={'identical' if exact else 'differs'}")
    for k, x in r['viol']['detail'].items():
      print(f'  {k}: {x}')
    for line in schedule(r.get('trace') or {}):
      print('  ' + line)
    print(f"VIOLATION property={v['property']} replay={a.file}")
    sys.stdout.flush()
    os._exit(1 if same else 4)
  print('not reproduced')
  sys.stdout.flush()
  os._exit(0)


def schedule(tr):
  out = []
  for t, at, n in tr.get('switches', []):
    if t < 0:
      out.append(f'start with caller {n}')
    elif at < 0:
      out.append(f'caller {t} ends or blocks; caller {n} continues')
    else:
      out.append(f'caller {t} is preempted at its step {at}; caller {n} continues')
  for f in tr.get('faults', []):
    out.append(f"fault {f['kind']} delivered to caller {f['task']} at its step {f['at']}")
  return out[:60]


def main():
  p = argparse.ArgumentParser()
  s = p.add_subparsers(dest='cmd')
  w = s.add_parser('worker')
  for n, t in (('prop', str), ('worker', int), ('of', int), ('seed', int), ('tier', str),
               ('wall', float), ('runs', int), ('out', str), ('first', int)):
    w.add_argument('--' + n, type=t, required=True)
  mi = s.add_parser('minimise')
  mi.add_argument('--in', dest='inp', required=True)
  mi.add_argument('--out', required=True)
  mi.add_argument('--wall', type=float, default=90)
  r = s.add_parser('replay')
  r.add_argument('file')
  r.add_argument('--tries', type=int, default=1)
  a = p.parse_args()
  {'worker': worker, 'minimise': minimise, 'replay': replay}[a.cmd](a)


if __name__ == '__main__':
  main()
