"""C01: concurrent bounding calls do not interfere."""
import core
import jobs
import world
from core import sub_rng

PID = 'C01'
BLOCK = 40
TECH = 'deterministic simulation: seeded bytecode-level interleaving of caller threads'
RULE = ('a run interleaves 2-4 simulated caller threads, each making 1-3 bounding calls that share '
        'functions, bounding-function objects or differ in one argument; non-trivial: at least one '
        'preemption happened inside the library while another call was in progress; distinct: by '
        'event-log checksum')


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [jobs.gen_job(blk, programs=0.15) for _ in range(4)]
  rng = sub_rng(PID, seed, k)
  n = rng.choice([2, 2, 2, 3, 3, 4])
  j0 = rng.choice(base)
  if rng.random() < 0.5:
    j0 = dict(j0)
    jobs.set_point(rng, j0)
  progs = []
  share = rng.random() < 0.6
  for _ in range(n):
    prog = []
    for _ in range(rng.choice([1, 1, 2]) if n < 4 else 1):
      c = rng.random()
      if c < 0.25:
        j = dict(j0)
      elif c < 0.85:
        j = jobs.near_job(rng, j0)
      elif c < 0.92:
        j = jobs.gen_job(rng, bad=1.0, x64=False)
      else:
        j = dict(rng.choice(base))
      if share and j['fn'] in jobs.FUNCS:
        j['share'] = 0
      prog.append(j)
    progs.append(prog)
  return {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': progs,
          'shared': [j for p in progs for j in p if j.get('share') is not None],
          'policy': core.gen_policy(rng)}


def run(sc):
  refs = {}
  for p in sc['progs']:
    for op in p:
      world.reference(dict(op, share=None))
  w = world.World(setup={'shared': sc.get('shared', [])})
  s, hist = core.run_programs(sc, w, max_steps=20_000_000)
  r = core.Result(s)
  r['nontrivial'] = s.stats['switches'] > 0
  core.check_progress(s, r)
  for h in hist:
    if h['res'] is None:
      continue
    ref = world.reference(dict(h['op'], share=None))
    if world.norm(h['res']) != world.norm(ref):
      r.violation('differs', task=h['task'], k=h['k'], op=h['op'],
                  got=jobs.show(h['res'][1:]), alone=jobs.show(ref[1:]))
  r['ops'] = len(hist)
  return r
