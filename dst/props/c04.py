"""C04: registering an enclosure is atomic with respect to bounding calls.

Histories of registrations and bounding calls must be linearizable: the
registry is a map from primitive to enclosure, a registration writes one entry,
a bounding call reads the whole map at one point.
"""
import arith
import core
import jobs
import world
from core import sub_rng

PID = 'C04'
BLOCK = 40
NP = 5   # three primitives of the harness, one unused, and lax.exp
FNS = ('prim0', 'prim1', 'prim01', 'prim01', 'prim02', 'primexp', 'prim0exp', 'nested', 'exp')


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [jobs.gen_job(blk, names=FNS, degs=(0, 1, 1, 2)) for _ in range(3)]
  other = [jobs.gen_job(blk, degs=(0, 1, 2)) for _ in range(1)]
  rng = sub_rng(PID, seed, k)
  init = [rng.choice([None, 0, 1, 2, 3]) if rng.random() < 0.85 else None for _ in range(NP)]
  init[4] = rng.choice([None, None, 4])
  encs = list(range(8))
  rng.shuffle(encs)
  hot = rng.choice([0, 0, 1, 2, 4])
  share = rng.random() < 0.5

  def reg():
    p = hot if rng.random() < 0.6 else rng.choice([0, 1, 2, 4])
    return {'op': 'reg', 'prim': p, 'enc': rng.choice(encs[:4])}

  def bound():
    j = dict(rng.choice(base))
    if rng.random() < 0.15:
      j = dict(rng.choice(other))
    if rng.random() < 0.3:
      jobs.set_point(rng, j)
    if share:
      j['share'] = 0
    return j

  progs = []
  for _ in range(rng.choice([1, 2, 2])):
    progs.append([bound() if rng.random() < 0.75 else reg() for _ in range(rng.choice([1, 2, 3]))])
  for _ in range(rng.choice([1, 1, 2])):
    progs.append([reg() if rng.random() < 0.8 else bound() for _ in range(rng.choice([1, 2, 2, 3]))])
  return {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': progs, 'enc': init,
          'shared': [o for p in progs for o in p if o.get('share') is not None],
          'policy': core.gen_policy(rng)}


USES = {'prim0': (0,), 'prim1': (1,), 'prim01': (0, 1), 'prim02': (0, 2), 'primexp': (2, 4),
        'nested': (0, 1), 'prim0exp': (0, 4)}
NO_EXP = ('affine', 'neg', 'const', 'sq', 'cube', 'pow4', 'inv', 'log', 'sqrt', 'abs')


def ref(op, state):
  """The call's result if the registry is `state` (only what it uses counts)."""
  u = USES.get(op['fn'], () if op['fn'] in NO_EXP else (4,))
  enc = [e if i in u else None for i, e in enumerate(state)]
  return world.norm(world.reference(dict(op, share=None), {'enc': enc}))


def linearizable(hist, init):
  """Wing & Gong search with memoisation; returns None or the blocked state."""
  n = len(hist)
  seen = set()
  best = [0, None]

  def step(done, state):
    if done == (1 << n) - 1:
      return True
    if (done, state) in seen:
      return False
    seen.add((done, state))
    c = bin(done).count('1')
    if c > best[0]:
      best[:] = [c, done]
    first = min(hist[i]['ret'] for i in range(n) if not done >> i & 1)
    for i in range(n):
      if done >> i & 1 or hist[i]['inv'] > first:
        continue
      op = hist[i]['op']
      if op['op'] == 'reg':
        if hist[i].get('optional') and step(done | 1 << i, state):
          return True   # an interrupted registration without effect
        if hist[i]['res'][0] != 'ok' and not hist[i].get('optional'):
          continue
        s2 = state[:op['prim']] + (op['enc'],) + state[op['prim'] + 1:]
        if step(done | 1 << i, s2):
          return True
      elif ref(op, state) == world.norm(hist[i]['res']):
        if step(done | 1 << i, state):
          return True
    return False

  if step(0, tuple(init)):
    return None
  return best[1] or 0


def run(sc):
  for p in sc['progs']:
    for op in p:
      if op['op'] == 'bound':
        ref(op, sc['enc'])   # compile outside the simulated run
  w = world.World(setup={'shared': sc['shared'], 'enc': sc['enc']})
  s, hist = core.run_programs(sc, w, max_steps=20_000_000)
  r = core.Result(s)
  hist = [h for h in hist if h['res'] is not None]
  ops = [h['op']['op'] for h in hist]
  r['nontrivial'] = s.stats['switches'] > 0 and 'reg' in ops and 'bound' in ops
  regs = [h for h in hist if h['op']['op'] == 'reg']
  r['probes'] = {
      'registrations': len(regs),
      'registrations_during_a_bounding_call': sum(
          any(b['op']['op'] == 'bound' and b['inv'] < g['ret'] and g['inv'] < b['ret'] for b in hist)
          for g in regs)}
  core.check_progress(s, r)
  if r['viol'] is None:
    bad = linearizable(hist, sc['enc'])
    if bad is not None:
      r.violation('not linearizable', initial=sc['enc'], history=[
          [h['task'], h['inv'], h['ret'], h['op']['op'],
           f"prim{h['op']['prim']}:=enc{h['op']['enc']}" if h['op']['op'] == 'reg'
           else h['op']['fn'], jobs.show(h['res'][1:], 200),
           'placed' if bad >> i & 1 else 'cannot be placed'] for i, h in enumerate(hist)])
  r['ops'] = len(hist)
  return r
