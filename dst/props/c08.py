"""C08: traced bounding equals eager bounding and leaks nothing."""
import core
import jobs
import world
from core import sub_rng
from env import np

PID = 'C08'
BLOCK = 30
MODES = ('jit', 'jit', 'jit_x0', 'jit_region', 'jit_const', 'jit_const', 'jit_twice', 'vmap', 'vmap',
         'vmap_x0', 'jitvmap', 'grad', 'jitgrad', 'jvp', 'scan', 'eval')
BATCH = ('vmap', 'jitvmap', 'scan')


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [jobs.gen_job(blk, degs=(0, 1, 2, 2, 3), args=('np', 'jax'), programs=0.2) for _ in range(3)]
  bmodes = [blk.choice(MODES) for _ in range(5)]
  rng = sub_rng(PID, seed, k)
  if rng.random() < 0.4:
    return sweep(rng)
  j0 = dict(rng.choice(base))
  if rng.random() < 0.5:
    jobs.set_point(rng, j0)
  share = rng.random() < 0.7
  saved = []

  def traced():
    j = dict(j0)
    if rng.random() < 0.3:
      jobs.set_point(rng, j)
    if share:
      j['share'] = 0
    o = {'op': 'tbound', 'job': j, 'mode': rng.choice(bmodes if rng.random() < 0.8 else MODES),
         'abort': rng.random() < 0.2}
    pts = [[j['x0'], j['lo'], j['hi']]]
    for _ in range(2):
      q = dict(j)
      jobs.set_point(rng, q)
      pts.append([q['x0'], q['lo'], q['hi']])
    o['pts'] = pts
    return o

  def eager():
    c = rng.random()
    if c < 0.75 or not saved:
      j = dict(j0)
      if rng.random() < 0.35:
        j = jobs.near_job(rng, j0)
      elif rng.random() < 0.3:
        jobs.set_point(rng, j)
      if share and j['fn'] in jobs.FUNCS:
        j['share'] = 0
      if rng.random() < 0.5:
        j['save'] = f's{len(saved)}'
        saved.append((j['save'], {a: b for a, b in j.items() if a not in ('save', 'share')}))
      return j
    s, j = rng.choice(saved)
    return {'op': 'eval', 'slot': s, 'job': j, 'pt': rng.randrange(3),
            'how': rng.choice(('fields', 'final', 'lower', 'upper', 'call'))}

  n = rng.choice([1, 1, 1, 2, 2, 3])
  progs = []
  for t in range(n):
    prog = [traced() if rng.random() < 0.5 else eager()
            for _ in range(rng.choice([2, 3, 4]) if n == 1 else rng.choice([1, 2]))]
    progs.append(prog)
  if not any(o['op'] == 'tbound' for p in progs for o in p):
    progs[0].insert(0, traced())
  progs[-1].append(eager())   # the last word has an eager call
  sc = {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': progs,
        'policy': core.gen_policy(rng) if n > 1 else {'kind': 'none'}, 'faults': []}
  if rng.random() < 0.25:
    sc['faults'] = [core.gen_count_fault(rng, progs)]
  sc['shared'] = [o.get('job', o) for p in progs for o in p if o.get('job', o).get('share') is not None]
  return sc


_SCALAR = sorted(n for n, (kind, _, _) in jobs.FUNCS.items()
                 if kind == 'b' and n not in jobs._HEAVY and n not in jobs.PRIM_FNS)


def sweep(rng):
  """Many different functions of one number, traced in one or two ways."""
  x64 = rng.random() < 0.7
  modes = [rng.choice([m for m in MODES if m not in ('jit_twice', 'eval', 'jitgrad', 'grad')]) for _ in range(2)]
  prog = []
  for _ in range(8):
    j = jobs.gen_job(rng, names=_SCALAR, degs=(0, 1, 2, 2, 3), args=('jax',), x64=x64, vec=False)
    pts = [[j['x0'], j['lo'], j['hi']]]
    for _ in range(2):
      q = dict(j)
      jobs.set_point(rng, q)
      pts.append([q['x0'], q['lo'], q['hi']])
    prog.append({'op': 'tbound', 'job': j, 'mode': rng.choice(modes), 'abort': rng.random() < 0.05, 'pts': pts})
  prog.append(jobs.gen_job(rng, names=_SCALAR, degs=(1, 2), args=('jax',), x64=x64, vec=False))
  return {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': [prog], 'policy': {'kind': 'none'},
          'faults': [], 'shared': []}


def plain(j):
  return {a: b for a, b in j.items() if a not in ('save', 'share')}


def want(op):
  if op['op'] == 'bound':
    return world.reference(plain(op))
  if op['op'] == 'eval':
    return world.reference(dict(op, job=plain(op['job'])))
  j = dict(plain(op['job']), arg='jax')
  if op['mode'] == 'eval':
    return world.reference({'op': 'eval', 'slot': 'r', 'job': j, 'pt': 1, 'how': 'call'})
  if op['mode'] in BATCH:
    rs = []
    for x0, lo, hi in op['pts']:
      rs.append(world.reference(dict(j, x0=x0, lo=lo, hi=hi)))
    return ('batch', rs)
  return world.reference(j)


def arrays(c):
  """Canonical value -> nested tuples of arrays."""
  if isinstance(c, tuple) and c and c[0] == 'A':
    return np.frombuffer(c[3], dtype=c[1]).reshape(c[2]).astype(np.float64)
  if isinstance(c, tuple) and c and c[0] in ('T', 'L'):
    return tuple(arrays(x) for x in c[1:])
  if isinstance(c, tuple) and c and c[0] in ('float', 'int'):
    return np.float64(c[1])
  raise ValueError(c[:1] if isinstance(c, tuple) else c)


def leaves(v):
  if isinstance(v, tuple):
    return [x for e in v for x in leaves(e)]
  return [v]


def structure(v):
  return tuple(structure(x) for x in v) if isinstance(v, tuple) else np.shape(v)


def close(got, ref, tol):
  """None if equal up to rounding."""
  try:
    a = arrays(got)
    b = arrays(ref)
  except ValueError as e:
    return f'not arrays: {e}'
  if structure(a) != structure(b):
    return f'structure {structure(a)} instead of {structure(b)}'
  la, lb = leaves(a), leaves(b)
  scale = 1 + max((float(np.max(np.abs(x[np.isfinite(x)]), initial=0)) for x in map(np.asarray, lb)), default=0)
  for i, (x, y) in enumerate(zip(la, lb)):
    x, y = np.asarray(x), np.asarray(y)
    same = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * scale)
    if not same.all():
      return f'leaf {i}: {x.tolist()} instead of {y.tolist()}'
  return None


def run(sc):
  for p in sc['progs']:
    for op in p:
      want(op)
  w = world.World(setup={'shared': sc['shared']}, user_points=False)
  s, hist = core.run_programs(sc, w, max_steps=20_000_000,
                           nested_ok=len(sc["progs"]) == 1)
  r = core.Result(s)
  r['probes'] = {}
  core.check_progress(s, r)
  for h in hist:
    if h['res'] is None or h['res'] == ('ok', 'skip'):
      continue
    op = h['op']
    where = dict(task=h['task'], k=h['k'], op=op)
    if h['faulted']:
      if h['res'][0] == 'ok':
        r.violation('interrupt swallowed', **where)
      continue
    ref = want(op)
    if op['op'] != 'tbound':
      if world.norm(h['res']) != world.norm(ref):
        r.violation('eager call differs', **where, got=jobs.show(h['res'][1:]), error=repr(h['raw'][1])[:300],
                    alone=jobs.show(ref[1:]))
      continue
    n = 'traced ' + op['mode'] + (' aborted' if op['abort'] else '')
    r['probes'][n] = r['probes'].get(n, 0) + 1
    if op['abort']:
      ok_ref = ref[0] == 'ok' if ref[0] != 'batch' else all(x[0] == 'ok' for x in ref[1])
      if h['res'][0] != 'exc':
        r.violation('abort swallowed', **where)
      elif ok_ref and h['res'][1] != 'UserError':
        r.violation('traced call fails', **where, error=repr(h['raw'][1])[:400])
      continue
    tol = 1e-7 if op['job']['x64'] else 3e-2
    refs = ref[1] if ref[0] == 'batch' else [ref]
    if any(x[0] == 'exc' for x in refs):
      continue
    if h['res'][0] == 'exc':
      r.violation('traced call fails', **where, error=repr(h['raw'][1])[:400])
      continue
    for i, x in enumerate(refs):
      got = h['res'][1]
      if ref[0] == 'batch':
        got = row(got, i)
      bad = close(got, x[1][1] if op['mode'] != 'eval' else x[1], tol)
      if bad:
        r.violation('traced call differs', **where, row=i, what=bad[:500])
        break
  r['nontrivial'] = bool(r['probes'])
  r['ops'] = len(hist)
  return r


def row(c, i):
  """Row i of a batched canonical result."""
  if c[0] == 'A':
    a = np.frombuffer(c[3], dtype=c[1]).reshape(c[2])[i]
    return jobs.canon(np.ascontiguousarray(a))
  return (c[0],) + tuple(row(x, i) for x in c[1:])
