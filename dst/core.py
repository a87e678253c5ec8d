"""Shared machinery of the properties: policies, faults, interleaved runs."""
import json
import math
import random
import zlib

import env
import sim
import jobs
import world


def sub_rng(*key):
  return random.Random('|'.join(str(k) for k in key))


def gen_policy(rng):
  k = rng.choices(['hot', 'store', 'race', 'uniform', 'quantum', 'park'], [29, 15, 20, 14, 6, 16])[0]
  seed = rng.randrange(1 << 30)
  if k == 'hot':
    return {'kind': 'hot', 'mod': rng.choice([8, 16, 32, 64, 128, 256]), 'seed': seed,
            'r': rng.choice([1.0, 0.5]), 'max': rng.choice([40, 200, 600])}
  if k == 'park':
    return {'kind': 'park', 'mod': rng.choice([32, 64, 128, 256, 512]), 'seed': seed,
            'r': rng.choice([1.0, 0.3, 0.1]), 'parks': rng.choice([1, 1, 2])}
  if k == 'race':
    return {'kind': 'race', 'mod': rng.choice([1, 2, 4, 8]), 'seed': seed, 'r': rng.choice([1.0, 0.6, 0.3]),
            'pl': rng.choice([0., 0.0003, 0.001]), 'max': rng.choice([60, 300])}
  if k == 'store':
    return {'kind': 'store', 'ps': rng.choice([1.0, 0.5]), 'pl': rng.choice([0., 0.002, 0.01]),
            'max': rng.choice([60, 300])}
  if k == 'uniform':
    return {'kind': 'uniform', 'p': rng.choice([0.0005, 0.002, 0.01, 0.05]),
            'max': rng.choice([50, 300, 800])}
  return {'kind': 'quantum', 'q': rng.choice([40, 150, 700, 3000]), 'max': 600}


INTERRUPTS = ('SimInterrupt', 'SimMemoryError', 'SimTimeout')


def gen_fault(rng, task, kinds=INTERRUPTS):
  return {'task': task, 'where': 'hot', 'mod': rng.choice([4, 16, 64, 256, 1024]),
          'seed': rng.randrange(1 << 30), 'nth': rng.choice([1, 1, 1, 2, 3, 6]),
          'kind': rng.choice(list(kinds))}


def gen_count_fault(rng, progs, kinds=INTERRUPTS, task=None):
  """A fault at the n-th possible point of one operation of one caller."""
  t = rng.randrange(len(progs)) if task is None else task
  k = rng.randrange(len(progs[t]))
  short = progs[t][k]['op'] in ('reg', 'eval', 'arith', 'rewrite')
  n = int(math.exp(rng.uniform(0, 5.5 if short else 8.5)))
  if progs[t][k]['op'] == 'reg':
    n = rng.choice([1, 1, 2, 3, 4])
  return {'task': t, 'where': 'count', 'op': k, 'n': n, 'kind': rng.choice(list(kinds))}


_sites = {}


def sites(op, setup=None):
  """Where a call passes: {function: [(location, visits)]}, from a run alone."""
  k = json.dumps([op, setup], sort_keys=True)
  v = _sites.get(k)
  if v is None:
    w = world.World(setup=setup)
    s = sim.Sim(sim.Policy({'kind': 'none'}, None), None)
    s.trace_loc = []
    s.add(lambda t: w.run(op))
    s.run()
    count = {}
    for _, loc, o, prev in s.trace_loc:
      if s.deliverable(o, prev):
        count[loc] = count.get(loc, 0) + 1
    v = {}
    for loc, n in count.items():
      f = env.LOC_NAME[loc].split('+')[0].split(':')
      v.setdefault(f[0] + ':' + f[-1], []).append((env.LOC_HASH[loc], n))
    v = _sites[k] = [v[n] for n in sorted(v)]
  return v


def gen_site_fault(rng, op, setup=None, kinds=INTERRUPTS, task=0, k=0):
  """A fault at a location chosen evenly over the functions a call passes."""
  locs = rng.choice(sites(op, setup))
  loc, n = rng.choice(locs)
  return {'task': task, 'where': 'site', 'op': k, 'loc': loc,
          'visit': rng.randrange(1, min(n, rng.choice([1, 3, 8, 50])) + 1),
          'kind': rng.choice(list(kinds))}


def new_sim(sc, **kw):
  """Simulator for a scenario (policy, faults and seed are part of it)."""
  rng = sub_rng('sched', sc.get('seed', 0))
  faults = [dict(f) for f in sc.get('faults', [])]
  return sim.Sim(sim.Policy(sc['policy'], rng), rng, faults=faults, **kw)


def sim_stats(s):
  return {'steps': s.steps, 'switches': s.stats['switches'], 'interrupts': s.stats['interrupts'],
          'stalls': s.stats['stalls'], 'blocked': s.stats['blocked'],
          'lock_ops': s.stats['lock_ops'], 'lock_timeouts': s.stats['lock_timeouts']}


def trace_of(s):
  """What replays a run exactly: preemptions and faults, by task-local step."""
  return {'switches': [list(x) for x in s.switches],
          'faults': [{'task': f['task'], 'where': 'step', 'at': f['at'], 'kind': f['kind']}
                     for f in s.fired]}


class Result(dict):
  """Outcome of one simulated run."""

  def __init__(self, s=None, **kw):
    super().__init__(viol=None, stats={}, crc=0, nontrivial=True, fired={})
    if s is not None:
      self['stats'] = sim_stats(s)
      self['crc'] = s.log_crc
      self['trace'] = trace_of(s)
      for f in s.fired:
        self['fired'][f['kind']] = self['fired'].get(f['kind'], 0) + 1
      self['pairs'] = {zlib.crc32(repr((loc_id(a), loc_id(b))).encode()) for a, b in s.pairs}
    self.update(kw)

  def violation(self, kind, **detail):
    if self['viol'] is None:
      self['viol'] = {'kind': kind, 'detail': detail}


def loc_id(a):
  return env.LOC_HASH[a] if a >= 0 else a


def run_programs(sc, w, on_op=None, max_steps=None, on_start=None, **kw):
  """Runs scenario programs (list of op lists, one per task) in world `w`.

  Returns (sim, history): history items are dicts {task, k, op, inv, ret, res,
  raw}."""
  s = new_sim(sc, max_steps=max_steps, **kw)
  hist = []

  def body(prog):
    def f(t):
      for k, op in enumerate(prog):
        h = {'task': t.idx, 'k': k, 'op': op, 'inv': s.stamp(), 'ret': None, 'res': None,
             'fault_hits': t.fault_hits, 'cost': (t.local, t.waited)}
        hist.append(h)
        s.begin_op(t, k)
        ue = t.extra.get('user_err', 0)
        if on_start is not None:
          with sim.quiet():
            on_start(t, h)
        r = world.result_of(lambda: w.do(op))
        h['raw'] = r
        with sim.quiet():
          h['res'] = world.canon_result(r)
        h['ret'] = s.stamp()
        h['cost'] = (t.local - h['cost'][0], t.waited - h['cost'][1])
        h['faulted'] = t.fault_hits > h['fault_hits']
        h['user_err'] = t.extra.get('user_err', 0) > ue
        if r[0] == 'exc':
          h['injected'] = sim.is_injected(t, r[1])
        s.log('ret', t.idx, k, jobs.crc(h['res']))
        if on_op is not None:
          with sim.quiet():
            on_op(t, h)
    return f

  for prog in sc['progs']:
    s.add(body(prog))
  s.run()
  return s, hist


def check_progress(s, r, bound=None):
  """Deadlock or step overrun of a run: a violation of progress."""
  if s.deadlock:
    r.violation('deadlock', tasks=s.deadlock)
  elif s.over is not None:
    r.violation('no-progress', task=s.over, steps=s.steps)
  for t in s.tasks:
    if isinstance(t.exc, sim.HarnessDeadlock):
      r.violation('deadlock', tasks=[t.idx])
    elif t.exc is not None and not sim.is_injected(t, t.exc):
      raise sim.HarnessError(f'task body failed: {t.exc!r}') from t.exc
