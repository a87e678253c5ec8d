"""C02: arithmetic contexts can be shared between threads and reused."""
import arith
import core
import jobs
import world
from core import sub_rng

PID = 'C02'
BLOCK = 40


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [dict(arith.gen_ctx(blk), x64=blk.random() < 0.5) for _ in range(4)]
  rng = sub_rng(PID, seed, k)
  ctx = [rng.choice(base)]
  if rng.random() < 0.45:
    c = dict(ctx[0])   # a second context that differs in one aspect
    a = rng.choice(['deg', 'region', 'backend', 'any'])
    if a == 'deg':
      c['deg'] = rng.randrange(0, 4)
    elif a == 'backend':
      c['backend'] = 'jnp' if c['backend'] == 'np' else 'np'
    elif a == 'region':
      n = arith.gen_ctx(rng, xs=c['xs'])
      c['lo'], c['hi'] = n['lo'], n['hi']
    else:
      c = rng.choice(base)
    ctx.append(c)
  n = rng.choice([1, 2, 2, 2, 3, 4])
  pool = {}
  kinds = None
  if rng.random() < 0.5:   # same few operations in every thread
    kinds = [rng.choice(arith._TEA * 2 + arith._IA + arith._FN) for _ in range(2)]
  progs = []
  for t in range(n):
    prog = []
    for _ in range(rng.choice([1, 2, 3]) if n > 1 else rng.choice([3, 5, 7])):
      ci = rng.randrange(len(ctx))
      if prog and rng.random() < 0.15:
        prog.append(dict(rng.choice(prog)))
      elif t and rng.random() < 0.2:
        prog.append(dict(rng.choice(rng.choice(progs))))
      else:
        prog.append(arith.gen_op(rng, ctx[ci], pool, kinds, ci, mix=0.2))
    progs.append(prog)
  return {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': progs,
          'ctx': ctx, 'vals': pool, 'policy': core.gen_policy(rng)}


def ref(sc, op):
  ci = op['ctx']
  vals = {}
  for a in ('a', 'b'):
    if a in op:
      vals[op[a]] = dict(sc['vals'][op[a]], ctx=0)
  return world.reference(dict(op, ctx=0), {'ctx': [sc['ctx'][ci]], 'vals': vals})


def run(sc):
  for p in sc['progs']:
    for op in p:
      ref(sc, op)
  w = world.World(setup={'ctx': sc['ctx'], 'vals': sc['vals']})
  s, hist = core.run_programs(sc, w, max_steps=20_000_000)
  r = core.Result(s)
  r['nontrivial'] = s.stats['switches'] > 0 or len(sc['progs']) == 1
  core.check_progress(s, r)
  for h in hist:
    if h['res'] is None:
      continue
    want = ref(sc, h['op'])
    if world.norm(h['res']) != world.norm(want):
      r.violation('differs', task=h['task'], k=h['k'], op=h['op'], ctx=sc['ctx'][h['op']['ctx']],
                  got=jobs.show(h['res'][1:]), alone=jobs.show(want[1:]))
  r['ops'] = len(hist)
  return r
