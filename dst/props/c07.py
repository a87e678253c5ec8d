"""C07: results do not depend on the history of the process."""
import arith
import core
import jobs
import settings
import sim
import world
import pristine
import c04
import c08
from core import sub_rng

PID = 'C07'
BLOCK = 40
CHILD = 90   # every CHILD-th run asks a pristine process as well


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [jobs.gen_job(blk, bad=0.1, programs=0.15) for _ in range(4)]
  pb = [jobs.gen_job(blk, names=c04.FNS[:-1], degs=(0, 1, 1, 2)) for _ in range(2)]
  tb = [jobs.gen_job(blk, degs=(0, 1, 2), args=('np', 'jax'), vec=False) for _ in range(1)]
  tmodes = [blk.choice(c08.MODES) for _ in range(2)]
  rng = sub_rng(PID, seed, k)
  enc = [rng.choice([None, 0, 1, 2, 3]) for _ in range(3)] + [None, None]
  ctx = [dict(rng.choice([arith.gen_ctx(blk), arith.gen_ctx(blk)]), x64=rng.random() < 0.6)
         for _ in range(2)]
  pool = {}
  jmain = dict(rng.choice(base))
  saved = []
  share = rng.random() < 0.5
  done = []

  def bound():
    j = dict(jmain)
    c = rng.random()
    if c < 0.45:
      j = jobs.near_job(rng, jmain) if jmain['fn'] in jobs.FUNCS else dict(rng.choice(base))
    elif c < 0.6:
      j = dict(rng.choice(base))
    elif c < 0.75:
      j = dict(rng.choice(pb))
    if rng.random() < 0.15:
      j['x64'] = not j['x64']
    if rng.random() < 0.2:
      j['via'] = 'global'
    if rng.random() < 0.1 and j['arg'] == 'np':
      j['odd'] = 1
    if share and rng.random() < 0.8:
      j['share'] = 0
    elif rng.random() < 0.35:
      j['reuse'] = 1
    if rng.random() < 0.3:
      j['save'] = f's{len(saved)}'
      saved.append((j['save'], {a: b for a, b in j.items() if a not in ('save', 'share', 'reuse')}))
    return j

  def op():
    c = rng.random()
    if done and c < 0.2:
      return dict(rng.choice(done))   # the same call again
    if c < 0.58:
      return bound()
    if c < 0.72:
      return arith.gen_op(rng, *(lambda i: (ctx[i], pool, None, i))(rng.randrange(2)))
    if c < 0.78 and saved:
      s, j = rng.choice(saved)
      return {'op': 'eval', 'slot': s, 'job': j, 'pt': rng.randrange(3),
              'how': rng.choice(('fields', 'final', 'lower', 'upper', 'call'))}
    if c < 0.83:
      return {'op': 'badcall', 'k': rng.randrange(8)}
    if c < 0.89:
      return {'op': 'reg', 'prim': rng.choice([0, 0, 1, 2]), 'enc': rng.randrange(8)}
    if c < 0.93:
      return {'op': 'rewrite', 'k': rng.randrange(1 << 20)}
    if c < 0.95:
      return {'op': 'clear'} if rng.random() < 0.15 else {'op': 'drop'}
    if c < 0.965:
      j = dict(rng.choice(tb))
      return {'op': 'tbound', 'job': j, 'mode': rng.choice(tmodes), 'abort': rng.random() < 0.3,
              'pts': [[j['x0'], j['lo'], j['hi']]] * 3}
    return bound()

  prog = []
  if k % 4 == 2:
    # Many cheap operations on contexts and operands that are used again and again.
    ctx = [dict(arith.gen_ctx(rng, backend='np'), x64=rng.random() < 0.7) for _ in range(3)]
    if rng.random() < 0.5:
      ctx[1] = dict(ctx[1], xs=ctx[0]['xs'], lo=ctx[0]['lo'], hi=ctx[0]['hi'])

    def op():
      if done and rng.random() < 0.25:
        return dict(rng.choice(done))
      i = rng.randrange(3)
      return arith.gen_op(rng, ctx[i], pool, None, i, reuse=0.75, mix=0.15)
  n = rng.choice([20, 40]) if k % 4 == 2 else rng.choice([3, 5, 7, 10])
  if k % 16 == 5:
    # Few different calls, many times, through one bounding function.
    n = rng.choice([40, 60, 100])
    few = []
    for _ in range(rng.choice([1, 2, 4])):
      j = dict(jmain)
      if few and rng.random() < 0.6:
        jobs.set_point(rng, j)
      if rng.random() < 0.8:
        j['share'] = 0
      few.append(j)

    def op():
      return dict(rng.choice(few))
  for _ in range(n):
    o = op()
    prog.append(o)
    done.append({a: b for a, b in o.items() if a != 'save'})
  return {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': [prog], 'enc': enc, 'ctx': ctx,
          'vals': pool, 'policy': {'kind': 'none'},
          'ambient': settings.gen_ambient(sub_rng(PID, seed, 'ambient', k),
                             sub_rng(PID, seed, 'ambient', 'block', k // BLOCK)), 'child': k % CHILD == CHILD // 2}


def plain(op):
  return {a: b for a, b in op.items() if a not in ('save', 'share', 'reuse', 'via')}


def query(sc, op, state):
  """(operation alone, setup) whose result `op` must have."""
  op = plain(op)
  if op['op'] == 'arith':
    vals = {op[a]: dict(sc['vals'][op[a]], ctx=0) for a in ('a', 'b') if a in op}
    return dict(op, ctx=0), {'ctx': [sc['ctx'][op['ctx']]], 'vals': vals}
  if op['op'] == 'bound':
    u = c04.USES.get(op['fn'], ())
    return op, {'enc': [e if i in u else None for i, e in enumerate(state)]}
  if op['op'] == 'eval':
    op['job'] = plain(op['job'])
    return op, {'enc': list(state)}
  return op, None


def want(sc, op, state):
  if op['op'] == 'tbound':
    return c08.want(op)
  return world.reference(*query(sc, op, state))


def check_traced(r, h, where):
  """A traced call equals the eager one up to rounding (as in C08)."""
  op = h['op']
  if op['abort']:
    if h['res'][0] == 'ok':
      r.violation('abort swallowed', **where)
    return
  ref = c08.want(op)
  refs = ref[1] if ref[0] == 'batch' else [ref]
  if any(x[0] == 'exc' for x in refs):
    return
  if h['res'][0] == 'exc':
    r.violation('traced call fails', **where, error=repr(h['raw'][1])[:400])
    return
  for i, x in enumerate(refs):
    got = c08.row(h['res'][1], i) if ref[0] == 'batch' else h['res'][1]
    bad = c08.close(got, x[1][1] if op['mode'] != 'eval' else x[1], 1e-7 if op['job']['x64'] else 3e-2)
    if bad:
      r.violation('traced call differs', **where, what=bad[:500])
      return


def run(sc):
  with settings.ambient(sc.get('ambient')):
    return run_ambient(sc)


def run_ambient(sc):
  w = world.World(setup={'enc': sc['enc'], 'ctx': sc['ctx'], 'vals': sc['vals']}, user_points=False)
  sim.install()
  proc0 = settings.process()
  leaks = []

  def on_start(t, h):
    settings.thread_ambient(sc.get('ambient', {}))
    h['settings'] = settings.local()

  def on_op(t, h):
    d = settings.diff(h.pop('settings'), settings.local())
    if d:
      leaks.append((h['op'], d))

  s, hist = core.run_programs(sc, w, max_steps=50_000_000, on_start=on_start, on_op=on_op)
  r = core.Result(s)
  core.check_progress(s, r)
  kinds = {h['op']['op'] for h in hist}
  r['nontrivial'] = len(hist) > 1
  r['probes'] = {}
  for h in hist:
    n = 'calls ' + h['op']['op'] + (' failing' if h['res'] and h['res'][0] == 'exc' else '')
    r['probes'][n] = r['probes'].get(n, 0) + 1
  if leaks:
    r.violation('settings changed', op=leaks[0][0], changed=repr(leaks[0][1])[:600])
  d = settings.diff(proc0, settings.process())
  if d:
    r.violation('process settings changed', changed=repr(d)[:600])
  state = list(sc['enc'])
  at = {}
  asked = []
  for i, h in enumerate(hist):
    op = h['op']
    if op['op'] == 'reg':
      if h['res'][0] != 'ok':
        r.violation('registration fails', k=i, op=op, error=repr(h['raw'][1])[:300])
      state[op['prim']] = op['enc']
      continue
    if op['op'] in ('clear', 'drop') or h['res'] == ('ok', 'skip'):
      continue
    where = dict(k=i, op=op, earlier=[q['op'].get('fn') or q['op'].get('name') or q['op']['op']
                                      for q in hist[:i]])
    if op.get('save'):
      at[op['save']] = tuple(state)
    if op['op'] == 'tbound':
      check_traced(r, h, where)
      continue
    st = at.get(op['slot'], tuple(state)) if op['op'] == 'eval' else tuple(state)
    ref = want(sc, op, st)
    if world.norm(h['res']) != world.norm(ref):
      r.violation('differs from a pristine copy of the library', **where, got=jobs.show(h['res'][1:]),
                  alone=jobs.show(ref[1:]))
    asked.append((h, query(sc, op, st)))
  if sc['child'] and asked and r['viol'] is None:
    h, q = asked[-1]
    ref = pristine.run(*q)
    r['probes']['asked a pristine process'] = 1
    if world.norm(h['res']) != world.norm(ref):
      r.violation('differs from a pristine process', op=h['op'], got=jobs.show(h['res'][1:]),
                  alone=jobs.show(ref[1:]))
  r['sig'] = sim.zlib.crc32(repr([h['op'] for h in hist]).encode())
  r['ops'] = len(hist)
  return r
