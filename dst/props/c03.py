"""C03: a returned bound is a stable snapshot."""
import arith
import core
import jobs
import world
from core import sub_rng

PID = 'C03'
BLOCK = 40
HOW = ('fields', 'final', 'lower', 'upper', 'call')


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [jobs.gen_job(blk, args=('np',), programs=0.15) for _ in range(4)]
  rng = sub_rng(PID, seed, k)
  jb = [dict(rng.choice(base)) for _ in range(rng.choice([1, 2, 2, 3]))]
  for j in jb:
    if rng.random() < 0.5:
      jobs.set_point(rng, j)
    if rng.random() < 0.3:
      j['share'] = 0
  ctx = [arith.gen_ctx(rng)]
  pool = {}
  enc = [rng.choice([0, 1, 2, None]) for _ in range(3)]

  def evalop(i):
    e = {'op': 'eval', 'slot': f's{i}', 'job': dict(jb[i], share=None),
         'pt': rng.randrange(3), 'how': rng.choice(HOW), 'buf': rng.choice([0, 1, 1, 1])}
    if rng.random() < 0.15:
      e['odd'] = 1       # under the other precision setting: not judged
    return e

  def scribble(i):
    return {'op': 'scribble', 'slot': f's{i}',
            'which': sorted(rng.sample(range(3), rng.choice([1, 2, 3]))),
            'how': rng.choice(['nan', 0.0, 1.0, 0.5])}

  def other():
    c = rng.random()
    if c < 0.35:
      j = jobs.near_job(rng, rng.choice(jb))
      if rng.random() < 0.3 and j['fn'] in jobs.FUNCS:
        j['share'] = 0
      return j
    if c < 0.55:
      return arith.gen_op(rng, ctx[0], pool)
    if c < 0.7:
      return {'op': 'reg', 'prim': rng.randrange(3), 'enc': rng.randrange(8)}
    if c < 0.98:
      return {'op': 'badcall', 'k': rng.randrange(8)}
    return {'op': 'clear'}

  progs = []
  for i, j in enumerate(jb):
    prog = [{'op': 'wbound', 'slot': f's{i}', 'job': j, 'layout': rng.choice(jobs.LAYOUTS)}]
    for _ in range(rng.choice([2, 3, 4])):
      c = rng.random()
      prog.append(evalop(rng.randrange(len(jb))) if c < 0.45 else
                  scribble(i) if c < 0.75 else other())
    prog.append(evalop(i))
    progs.append(prog)
  if rng.random() < 0.6:
    progs.append([evalop(rng.randrange(len(jb))) if rng.random() < 0.6 else other()
                  for _ in range(rng.choice([2, 3, 4]))])
  first = []
  if rng.random() < 0.3:
    # A crowd around bounds that exist already.
    first = [p[0] for p in progs if p[0]['op'] == 'wbound'][:rng.choice([1, 1, 2])]
    one = rng.choice(HOW) if rng.random() < 0.5 else None
    for e in first:
      e['job'].pop('share', None)
    progs = []
    for t in range(rng.choice([2, 2, 3, 4])):
      prog = []
      for _ in range(rng.choice([2, 3, 5])):
        i = rng.randrange(len(first))
        c = rng.random()
        prog.append(evalop(i) if c < 0.85 else scribble(i) if c < 0.93 else other())
        if one and prog[-1]['op'] == 'eval':
          prog[-1]['how'] = one
      progs.append(prog)
  return {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': progs, 'first': first, 'enc': enc,
          'ctx': ctx, 'vals': pool, 'shared': [j for j in jb if j.get('share') is not None],
          'policy': core.gen_policy(rng)}


def want(op):
  """What the operation returns in a world of its own; None: not judged."""
  if op['op'] == 'wbound':
    return world.reference(dict(op['job'], share=None))
  if op['op'] == 'eval' and not op.get('odd'):
    return world.reference(dict(op, buf=0))
  return None


def run(sc):
  for p in sc['progs'] + [sc['first']]:
    for op in p:
      want(op)
  w = world.World(setup={'shared': sc['shared'], 'ctx': sc['ctx'], 'vals': sc['vals'],
                         'enc': sc['enc']})
  for op in sc['first']:
    w.run(op)
  s, hist = core.run_programs(sc, w, max_steps=20_000_000)
  r = core.Result(s)
  kinds = [op['op'] for p in sc['progs'] for op in p]
  r['nontrivial'] = 'eval' in kinds and ('scribble' in kinds or s.stats['switches'] > 0)
  r['probes'] = {'scribbles': kinds.count('scribble'), 'evaluations': kinds.count('eval')}
  core.check_progress(s, r)
  for h in hist:
    if h['res'] is None:
      continue
    ref = want(h['op'])
    if ref is None or h['res'] == ('ok', 'skip'):
      continue
    if world.norm(h['res']) != world.norm(ref):
      r.violation('differs', task=h['task'], k=h['k'], op=h['op'],
                  got=jobs.show(h['res'][1:]), alone=jobs.show(ref[1:]))
    elif world.canon_result(h['raw']) != h['res']:
      r.violation('result changed later', task=h['task'], k=h['k'], op=h['op'],
                  got=jobs.show(world.canon_result(h['raw'])[1:]), alone=jobs.show(ref[1:]))
  # At the end of the run every bound still says the same.
  for p in sc['progs'] + [sc['first']]:
    for op in p:
      if op['op'] != 'wbound' or op['slot'] not in w.slots:
        continue
      for how in HOW:
        o = {'op': 'eval', 'slot': op['slot'], 'job': dict(op['job'], share=None), 'pt': 1, 'how': how}
        got, ref = w.run(o), want(o)
        if world.norm(got) != world.norm(ref):
          r.violation('differs at the end', op=o, layout=op['layout'], got=jobs.show(got[1:]),
                      alone=jobs.show(ref[1:]))
          break
  r['ops'] = len(hist)
  return r
