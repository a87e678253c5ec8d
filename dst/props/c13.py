"""C13: a stalled or killed caller never blocks the others."""
import json
import math

import arith
import c04
import core
import jobs
import sim
import world
from core import sub_rng

PID = 'C13'
BLOCK = 40

KILLS = core.INTERRUPTS
SECOND = 1e6      # steps a simulated second of waiting counts for
FACTOR, SLACK = 3, 4000


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [jobs.gen_job(blk, programs=0.15) for _ in range(3)]
  pb = [jobs.gen_job(blk, names=c04.FNS, degs=(0, 1, 1, 2)) for _ in range(2)]
  rng = sub_rng(PID, seed, k)
  init = [rng.choice([0, 1, 2, 3]) for _ in range(3)] + [None, None]
  ctx = [dict(arith.gen_ctx(blk), x64=True)]
  pool = {}
  jmain = dict(rng.choice(base + pb[:1]))
  if rng.random() < 0.4:
    jobs.set_point(rng, jmain)
  if rng.random() < 0.6:
    jmain['share'] = 0
  saved = []
  aop = [None]

  def op(victim):
    c = rng.random()
    if c < 0.4:
      j = dict(jmain)
      if not victim and rng.random() < 0.5:
        j = jobs.near_job(rng, jmain)
        if j['fn'] not in jobs.FUNCS:
          j = dict(jmain)
      if rng.random() < 0.3:
        j['save'] = f's{len(saved)}'
        saved.append((j['save'], dict(j, share=None)))
      return j
    if c < 0.62:
      if aop[0] is not None and rng.random() < 0.5:
        return dict(aop[0])
      aop[0] = arith.gen_op(rng, ctx[0], pool)
      return dict(aop[0])
    if c < 0.7 and saved:
      s, j = rng.choice(saved)
      return {'op': 'eval', 'slot': s, 'job': j, 'pt': rng.randrange(3),
              'how': rng.choice(('fields', 'final', 'lower', 'upper', 'call'))}
    if c < 0.82:
      return {'op': 'reg', 'prim': rng.choice([0, 0, 1, 2, 4]), 'enc': rng.randrange(8)}
    if c < 0.9:
      return {'op': 'rewrite', 'k': rng.randrange(1 << 20)}
    return dict(rng.choice(pb))

  nv = rng.choice([1, 1, 1, 2])
  ns = rng.choice([1, 1, 2])
  many = rng.random() < 0.25
  if many:
    # One caller dies again and again, or several stall, at the same operation.
    again = op(True)
    if rng.random() < 0.5:
      nv = rng.choice([2, 3, 4, 5])
      progs = [[dict(again)] for _ in range(nv)]
    else:
      nv = 1
      progs = [[dict(again) if rng.random() < 0.9 else op(True) for _ in range(rng.choice([4, 6, 10]))]]
    progs += [[dict(again, save=None) if rng.random() < 0.7 else op(False) for _ in range(rng.choice([1, 2]))]
              for _ in range(ns)]
    for p in progs:
      for o in p:
        o.pop('save', None)
  else:
    progs = []
    for t in range(nv + ns):
      progs.append([op(t < nv) for _ in range(rng.choice([1, 1, 2]) if t < nv else rng.choice([1, 2, 3]))])
  faults = []
  if many:
    # Together they may exhaust what a single one does not: at the same place.
    together = rng.random() < 0.7
    kind = ('stall',) if nv > 1 and rng.random() < 0.7 else KILLS
    n0 = int(math.exp(rng.uniform(3, 9)))
    for t in range(nv):
      for i in range(len(progs[t])):
        f = core.gen_count_fault(rng, progs, kind, task=t)
        f['op'] = i
        if progs[t][i]['op'] == 'bound':
          f['n'] = int(math.exp(rng.uniform(3, 9)))
        if together:
          f['n'] = n0 + (rng.randrange(-20, 21) if rng.random() < 0.3 else 0)
        faults.append(f)
    nv = 0
  for t in range(nv):
    for _ in range(rng.choice([1, 1, 2])):
      kind = ('stall',) if rng.random() < 0.6 else KILLS
      c = rng.random()
      if c < 0.45:
        f = core.gen_count_fault(rng, progs, kind, task=t)
      elif c < 0.9:
        f = core.gen_fault(rng, t, kind)
      else:
        f = {'task': t, 'where': 'point', 'op': rng.randrange(len(progs[t])),
             'n': rng.choice([1, 1, 2, 3]), 'kind': 'stall'}
      faults.append(f)
  return {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': progs, 'enc': init,
          'ctx': ctx, 'vals': pool,
          'shared': [o for p in progs for o in p if o.get('share') is not None],
          'policy': core.gen_policy(rng), 'faults': faults}


_solo = {}


def solo(sc, op):
  """(cost in steps, whether it succeeds) of `op` alone, in a pristine library."""
  op = {a: b for a, b in op.items() if a not in ('save', 'share')}
  setup = {'enc': sc['enc']}
  if op['op'] == 'arith':
    setup = {'ctx': sc['ctx'], 'vals': {op[a]: sc['vals'][op[a]] for a in ('a', 'b') if a in op}}
  if op['op'] == 'eval':
    op['job'] = {a: b for a, b in op['job'].items() if a not in ('save', 'share')}
  k = json.dumps([op, setup], sort_keys=True)
  v = _solo.get(k)
  if v is None:
    if len(_solo) > 20000:
      _solo.clear()
    w = world.World(setup=setup)
    progs = [[op]]
    if op['op'] == 'eval':
      progs = [[dict(op['job'], save=op['slot']), op]]
    s, hist = core.run_programs({'progs': progs, 'policy': {'kind': 'none'}}, w,
                                max_steps=20_000_000)
    h = hist[-1]
    if h['ret'] is None:
      v = (None, False)      # does not end even alone
    else:
      v = (h['cost'][0] + h['cost'][1] * SECOND, h['res'][0] == 'ok')
    _solo[k] = v
  return v


def run(sc):
  total = 0
  for p in sc['progs']:
    for op in p:
      total += solo(sc, op)[0] or 0
  w = world.World(setup={'shared': sc['shared'], 'enc': sc['enc'], 'ctx': sc['ctx'],
                         'vals': sc['vals']})
  s, hist = core.run_programs(sc, w, max_steps=int(FACTOR * total) + 1_500_000)
  r = core.Result(s)
  fired = [f for f in s.fired]
  stalled = {f['task'] for f in fired if f['kind'] == 'stall'}
  first = min([f['clock'] for f in fired] + [1 << 60])
  judged = [h for h in hist if h['task'] not in stalled and not h.get('faulted')
            and (h['ret'] is None or h['ret'] > first)]
  r['nontrivial'] = bool(fired) and bool(judged)
  r['probes'] = {'runs with a stalled caller': int(bool(stalled)),
                 'runs with a killed caller': int(any(f['kind'] != 'stall' for f in fired)),
                 'calls that had to complete': len(judged) if fired else 0,
                 'of these, started after a stall or kill': sum(h['inv'] > first for h in judged)}
  dead = [t for t in s.deadlock or ()]
  if s.deadlock:
    r.violation('blocked', callers=dead, faults=[[f['task'], f['kind'], f['loc']] for f in fired])
  elif s.over is not None:
    r.violation('no progress', caller=s.over, steps=s.steps,
                faults=[[f['task'], f['kind'], f['loc']] for f in fired])
  core.check_progress(s, r)
  if fired:
    for h in judged:
      if h['ret'] is None:
        r.violation('never completed', task=h['task'], k=h['k'], op=h['op'])
        continue
      alone, ok = solo(sc, h['op'])
      if alone is None:
        continue
      cost = h['cost'][0] + h['cost'][1] * SECOND
      if cost > FACTOR * alone + SLACK:
        r.violation('slow', task=h['task'], k=h['k'], op=h['op'], steps=h['cost'][0],
                    waited=h['cost'][1], alone=alone)
      if ok and h['res'][0] != 'ok' and (h['op']['op'] != 'eval'):
        r.violation('failed', task=h['task'], k=h['k'], op=h['op'], got=repr(h['raw'][1])[:300])
  r['ops'] = len(hist)
  return r
