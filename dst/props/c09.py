"""C09: bounding is re-entrant."""
import core
import jobs
import sim
import world
import arith
import c04
from core import sub_rng

PID = 'C09'
BLOCK = 30


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [jobs.gen_job(blk, degs=(0, 1, 1, 2, 3), programs=0.15) for _ in range(3)]
  pb = [jobs.gen_job(blk, names=c04.FNS[:-1], degs=(0, 1, 1, 2)) for _ in range(3)]
  rng = sub_rng(PID, seed, k)
  enc = [rng.choice([0, 1, 2, 3]) for _ in range(3)] + [None, None]
  ctx = [dict(arith.gen_ctx(blk), x64=blk.random() < 0.6)]
  pool = {}
  saved = []

  def job(p=0.5):
    j = dict(rng.choice(pb if rng.random() < p else base))
    if rng.random() < 0.4:
      jobs.set_point(rng, j)
    if rng.random() < 0.3 and j['fn'] in jobs.FUNCS:
      j = jobs.near_job(rng, j)
    return j

  def same(outer, at):
    j = dict(outer)
    if at == 'enc':
      if rng.random() < 0.6:
        jobs.set_point(rng, j)
    else:
      # Tracing a function from inside a trace of it with the same types is
      # refused by JAX: use another precision or shape.
      if rng.random() < 0.5 or jobs.FUNCS[j['fn']][0] != 'b' or j['fn'] in ('norm',):
        j['x64'] = not j['x64']
        jobs.set_point(rng, j)
      else:
        j['vec'] = not j['vec']
        jobs.set_point(rng, j)
    j['arg'] = rng.choice(['np', 'jax'])
    return {'op': 'same', 'job': j}

  def nest(depth):
    j = job(0.7)
    j['arg'] = rng.choice(['np', 'jax'])
    if rng.random() < 0.08:
      j['flaky'] = 1
    inner = []
    sames = 0
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
      at = rng.choice(['fn', 'fn2', 'enc', 'enc', 'enc'])
      if at == 'enc' and j['fn'] not in c04.USES:
        at = 'fn'
      c = rng.random()
      if c < 0.3 and not (at != 'enc' and sames):
        o = same(j, at)
        sames += at != 'enc'
      elif c < 0.5 and depth < 3:
        o = nest(depth + 1)
      elif c < 0.75:
        o = job()
        if rng.random() < 0.3:
          o['fn'] = j['fn']
          o['vec'] = j['vec']
          o['n'] = j.get('n', 2)
          o['deg'] = j['deg']
          jobs.set_point(rng, o)
      elif c < 0.83:
        o = arith.gen_op(rng, ctx[0], pool)
      elif c < 0.9:
        o = {'op': 'reg', 'prim': rng.choice([0, 1, 2]), 'enc': rng.randrange(8)}
      elif c < 0.95:
        o = {'op': 'rewrite', 'k': rng.randrange(1 << 20)}
      elif saved:
        s, sj = rng.choice(saved)
        o = {'op': 'eval', 'slot': s, 'job': sj, 'pt': rng.randrange(3),
             'how': rng.choice(('final', 'lower', 'upper', 'call'))}
      else:
        o = job()
      e = {'at': at, 'op': o, 'catch': rng.random() < 0.5, 'times': rng.choice([1, 1, 1, 2])}
      if at != 'enc' and o['op'] in ('bound', 'nest') and rng.random() < 0.15:
        e['mode'] = 'staged'
      if o['op'] == 'same' and at != 'enc':
        e['times'] = 1
      inner.append(e)
    return {'op': 'nest', 'job': j, 'inner': inner}

  n = rng.choice([1, 1, 1, 2])
  progs = []
  for t in range(n):
    prog = []
    if rng.random() < 0.3:
      j = job(0.2)
      j['save'] = f's{len(saved)}'
      prog.append(dict(j))
      saved.append((j.pop('save'), j))
    prog.append(nest(1))
    if rng.random() < 0.5:
      prog.append(job() if rng.random() < 0.6 else nest(2))
    progs.append(prog)
  sc = {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': progs, 'enc': enc, 'ctx': ctx,
        'vals': pool, 'policy': core.gen_policy(rng) if n > 1 else {'kind': 'none'}, 'faults': []}
  if rng.random() < 0.35:
    sc['faults'] = [core.gen_count_fault(rng, progs)]
  return sc


def plain_job(j):
  return {a: b for a, b in j.items() if a not in ('save', 'flaky')}


def as_bound(op, outer=None):
  """The bounding call an operation amounts to, or None."""
  if op['op'] == 'bound':
    return plain_job(op)
  if op['op'] == 'nest':
    return plain_job(op['job'])
  if op['op'] == 'same':
    o = outer['job']
    return dict(plain_job(op['job']), fn=o['fn'], deg=o['deg'], prop=o['prop'])
  return None


def registry_dependent(b):
  return b is not None and b['fn'] in c04.USES


def walk(op, outer=None):
  yield op, outer
  for e in op.get('inner', ()):
    yield from walk(e['op'], op)


def want(sc, op, b):
  if b is not None:
    return world.reference(b)
  if op['op'] == 'arith':
    vals = {op[a]: dict(sc['vals'][op[a]], ctx=0) for a in ('a', 'b') if a in op}
    return world.reference(op, {'ctx': sc['ctx'], 'vals': vals})
  if op['op'] == 'eval':
    return world.reference(dict(op, job=plain_job(op['job'])), {'enc': sc['enc']})
  return world.reference(op)


def run(sc):
  for p in sc['progs']:
    for top in p:
      for op, outer in walk(top):
        b = as_bound(op, outer)
        if registry_dependent(b):
          c04.ref(b, sc['enc'])
        elif op['op'] not in ('reg',):
          want(sc, op, b)
  w = world.World(setup={'enc': sc['enc'], 'ctx': sc['ctx'], 'vals': sc['vals']})
  s, hist = core.run_programs(sc, w, max_steps=20_000_000, nested_ok=len(sc['progs']) == 1)
  r = core.Result(s)
  core.check_progress(s, r)
  r['probes'] = {'nested calls': len(w.inner),
                 'nested in the bounded function': sum(h['at'] != 'enc' for h in w.inner),
                 'nested in an enclosure': sum(h['at'] == 'enc' for h in w.inner),
                 'through the same bounding function': sum(h['op']['op'] == 'same' for h in w.inner),
                 'depth 2 or more': sum(h['depth'] > 1 for h in w.inner),
                 'exceptions leaving an inner call': sum((h.get('res') or ('',))[0] == 'exc' for h in w.inner)}
  r['nontrivial'] = bool(w.inner)
  lin = []
  # Innermost calls finish first: report the first that is wrong.
  for h in w.inner:
    h['nested'] = True
  allh = w.inner + hist
  off_saved = any(h['op']['op'] == 'reg' for h in allh)
  for h in sorted(allh, key=lambda h: h['ret'] or 1 << 60):
    if h['res' if 'res' in h else 'op'] is None or 'res' not in h or h['res'] is None:
      continue
    if h['res'] == ('ok', 'skip'):
      continue
    op = h['op']
    where = dict(task=h['task'], nested=h.get('nested', False), at=h.get('at'), depth=h.get('depth', 0), op=op)
    b = as_bound(op, h.get('outer'))
    # What the callbacks of this call did decides whether it may fail.
    kids = [q for q in w.inner if q['parent'] is (h if h.get('nested') else None)
            and q['task'] == h['task'] and h['inv'] < q['inv'] and (q['ret'] or 0) <= h['ret']]
    escaped = [q for q in kids if (q.get('res') or ('exc',))[0] == 'exc' and not q['catch']]
    if escaped:
      if h['res'][0] == 'ok':
        r.violation('error of an inner call swallowed', **where)
      elif 'raw' in h and h['raw'][1] is not escaped[-1]['raw'][1] and (
          type(h['raw'][1]) is not type(escaped[-1]['raw'][1])) and not h['faulted']:
        r.violation('error of an inner call replaced', **where, got=repr(h['raw'][1])[:300],
                    inner=repr(escaped[-1]['raw'][1])[:300])
      continue
    if h['faulted'] and h['res'][0] == 'exc':
      continue     # killed, or an inner call was
    if h['faulted']:
      # Only legitimate if the interrupt hit an inner call and was caught.
      if not any(q.get('faulted') for q in kids):
        r.violation('interrupt swallowed', **where)
        continue
    if h['user_err'] and h['res'][0] == 'exc':
      continue
    if op['op'] == 'reg':
      lin.append(dict(h, op=op))
      continue
    staged = h.get('mode') == 'staged' or any(
        'TRACER' in repr(h['res'])[:20000] for _ in (0,) if h.get('nested'))
    if staged:
      if h['res'][0] == 'exc' and want(sc, op, b)[0] == 'ok' and not registry_dependent(b):
        r.violation('staged inner call fails', **where, error=repr(h['raw'][1])[:400])
      continue
    if registry_dependent(b):
      lin.append(dict(h, op=b))
      continue
    if op['op'] == 'eval' and op['job']['fn'] in c04.USES and off_saved:
      continue
    ref = want(sc, op, b)
    if world.norm(h['res']) != world.norm(ref):
      r.violation('differs', **where, got=jobs.show(h['res'][1:]),
                  error=repr(h['raw'][1])[:300] if h['res'][0] == 'exc' else '', alone=jobs.show(ref[1:]))
  if r['viol'] is None and lin:
    bad = c04.linearizable(lin, sc['enc'])
    if bad is not None:
      r.violation('not explained by any order of the registrations', initial=sc['enc'], history=[
          [h['task'], h['inv'], h['ret'], h.get('at'), f"prim{h['op']['prim']}:=enc{h['op']['enc']}"
           if h['op']['op'] == 'reg' else h['op']['fn'], jobs.show(h['res'][1:], 200),
           'placed' if bad >> i & 1 else 'cannot be placed'] for i, h in enumerate(lin)])
  r['ops'] = len(hist) + len(w.inner)
  return r
