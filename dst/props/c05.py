"""C05: an interrupted call leaves no trace."""
import math
import zlib

import arith
import core
import jobs
import settings
import sim
import world
import c04
from core import sub_rng

PID = 'C05'
BLOCK = 40
SHRINK = ('after',)


COLD_SETUP = {'enc': [0, 1, 2, None, None]}


def cold_op(rng):
  """A call that is cheap once compiled and passes many parts of the library."""
  c = rng.random()
  if c < 0.6:
    return jobs.probe_job(rng)
  if c < 0.8:
    return dict(jobs.probe_job(rng), fn=rng.choice(['nested', 'vec', 'transp', 'conv', 'powf', 'logexp']))
  return {'op': 'rewrite', 'k': rng.randrange(8)}


def gen_cold(rng):
  """Episodes: in a library just imported, the first calls are interrupted."""
  ops = []
  for _ in range(8):
    o = cold_op(rng)
    p = dict(o) if rng.random() < 0.5 else cold_op(rng)
    if o['op'] == 'bound' and p['op'] == 'bound':
      p['x64'] = o['x64']
    fs = [core.gen_site_fault(rng, o, COLD_SETUP)]
    calls = [o]
    if rng.random() < 0.3:
      calls.append(dict(o))
      fs.append(core.gen_site_fault(rng, o, COLD_SETUP, k=1))
    ops.append({'calls': calls, 'faults': fs, 'probe': p})
  return {'prop': PID, 'seed': rng.randrange(1 << 40), 'kind': 'cold', 'ops': ops}


def run_cold(sc):
  r = core.Result()
  r['probes'] = {}
  fired = steps = 0
  for e in sc['ops']:
    want_ = world.reference(e['probe'], COLD_SETUP)
    w = world.World(setup=COLD_SETUP)
    s, hist = core.run_programs({'progs': [e['calls']], 'policy': {'kind': 'none'},
                                 'faults': e['faults']}, w, max_steps=20_000_000)
    core.check_progress(s, r)
    steps += s.steps
    for f in s.fired:
      r['fired'][f['kind']] = r['fired'].get(f['kind'], 0) + 1
      fired += 1
    for h in hist:
      if h['res'] is not None and h['faulted'] and h['res'][0] == 'ok':
        r.violation('interrupt swallowed', op=h['op'], got=jobs.show(h['res'][1:]))
    w.failing = False
    got = w.run(e['probe'])
    r['crc'] = zlib.crc32(repr((s.log_crc, got)).encode(), r['crc'])
    if world.norm(got) != world.norm(want_):
      r.violation('differs', phase='after', op=e['probe'], interrupted=e['calls'],
                  where=[f['loc'] for f in s.fired], got=jobs.show(got[1:]), alone=jobs.show(want_[1:]))
    if r['viol']:
      break
  r['nontrivial'] = fired > 0
  r['ops'] = sum(len(e['calls']) + 1 for e in sc['ops'])
  r['stats'] = {'steps': steps, 'interrupts': fired}
  r['probes'] = {'interrupted cold calls': fired}
  return r


def gen_arith(rng):
  """Episodes: long sequences of operations on two contexts, every second one
  interrupted; what comes after them on the same objects is as ever."""
  c = dict(arith.gen_ctx(rng, backend='np', deg=rng.choice([1, 2, 2, 3, 3])), x64=True)
  ctx = [c, dict(arith.gen_ctx(rng, backend='np', xs=c['xs'], deg=c['deg']), x64=True)]
  pool = {}
  # Operations with several steps of their own more often.
  deep = ('elem', 'elem', 'power', 'divide', 'compose', 'bilinear', 'multiply')

  def op():
    o = arith.gen_op(rng, c, pool, kinds=deep if rng.random() < 0.6 else None, reuse=0.5)
    o['ctx'] = rng.choice([0, 0, 0, 1])
    return o

  prog = []
  for _ in range(rng.choice([10, 16, 24])):
    prog.append(dict(rng.choice(prog)) if prog and rng.random() < 0.35 else op())
  faults = []
  for k, o in enumerate(prog):
    x = rng.random()
    if x < 0.2:
      faults.append(dict(core.gen_count_fault(rng, [prog]), op=k))
    elif x < 0.55:
      vals = {o[a]: pool[o[a]] for a in ('a', 'b') if a in o}
      faults.append(core.gen_site_fault(rng, o, {'ctx': ctx, 'vals': vals}, k=k))
  after = [dict(rng.choice(prog)) for _ in range(4)] + [op() for _ in range(4)]
  return {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': [prog], 'after': after,
          'enc': [None] * 5, 'ctx': ctx, 'vals': pool, 'shared': [], 'policy': {'kind': 'none'},
          'faults': faults}


def gen(k, seed, tier):
  if k % 4 in (1, 3):
    return gen_cold(sub_rng(PID, seed, k, 'cold'))
  amb = settings.gen_ambient(sub_rng(PID, seed, 'ambient', k),
                             sub_rng(PID, seed, 'ambient', 'block', k // BLOCK))
  sc = gen_arith(sub_rng(PID, seed, k, 'arith')) if k % 4 == 2 else gen_mixed(k, seed)
  return dict(sc, ambient=amb)


def gen_mixed(k, seed):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [jobs.gen_job(blk, programs=0.1) for _ in range(3)]
  pb = [jobs.gen_job(blk, names=c04.FNS, degs=(0, 1, 1, 2)) for _ in range(2)]
  rng = sub_rng(PID, seed, k)
  init = [rng.choice([0, 1, 2, 3]) for _ in range(3)] + [None, None]
  ctx = [dict(rng.choice([arith.gen_ctx(blk), arith.gen_ctx(blk)]), x64=True)]
  pool = {}
  jmain = dict(rng.choice(base + pb[:1]))
  if rng.random() < 0.4:
    jobs.set_point(rng, jmain)
  if rng.random() < 0.7:
    jmain['share'] = 0
  if rng.random() < 0.12:
    jmain['flaky'] = rng.choice([1, 1, 2])
  saved = []

  def op(main=False):
    c = rng.random()
    if c < 0.42:
      j = dict(jmain)
      if not main and rng.random() < 0.5:
        j = jobs.near_job(rng, jmain)
        if j['fn'] not in jobs.FUNCS:
          j = dict(jmain)
      if main and rng.random() < 0.4:
        j['save'] = f's{len(saved)}'
        saved.append((j['save'], dict(j, share=None)))
      return j
    if c < 0.66:
      return arith.gen_op(rng, ctx[0], pool)
    if c < 0.76 and saved:
      s, j = rng.choice(saved)
      return {'op': 'eval', 'slot': s, 'job': j, 'pt': rng.randrange(3),
              'how': rng.choice(('fields', 'final', 'lower', 'upper', 'call'))}
    if c < 0.84:
      o = {'op': 'reg', 'prim': rng.choice([0, 0, 1, 2]), 'enc': rng.randrange(8)}
      if rng.random() < 0.3:
        o['fail'] = 1
      return o
    if c < 0.9:
      return {'op': 'rewrite', 'k': rng.randrange(1 << 20)}
    return dict(rng.choice(pb))

  barrage = rng.random() < 0.45
  n = 1 if barrage else rng.choice([1, 1, 2, 2, 3])
  progs = [[op(t == 0) for _ in range(rng.choice([1, 2, 3]))] for t in range(n)]
  faults = [core.gen_fault(rng, rng.randrange(n)) for _ in range(rng.choice([1, 1, 2, 3]))]
  for f in faults:
    f['nth'] = rng.choice([1, 1, 2, 4])
  faults = [f if rng.random() < 0.5 else core.gen_count_fault(rng, progs) for f in faults]
  if barrage:
    # One caller whose calls are interrupted again and again, from a cold start.
    again = dict(jmain) if rng.random() < 0.4 else op(True)
    same = rng.choice([0.6, 0.6, 0.95])
    progs = [[dict(again) if rng.random() < same else dict(jobs.probe_job(rng)) if rng.random() < 0.3
              else op(True) for _ in range(rng.choice([4, 6, 8, 12, 12, 16]))]]
    faults = []
    for k in range(len(progs[0])):
      if rng.random() < 0.92:
        f = core.gen_count_fault(rng, progs)
        f['op'] = k
        if progs[0][k]['op'] == 'bound':
          f['n'] = int(math.exp(rng.uniform(3, 9)))
        faults.append(f)
  after = []
  for p in progs:
    for o in p:
      if rng.random() < (0.25 if barrage else 0.8):
        after.append({a: b for a, b in o.items()})
  after += [op() for _ in range(rng.choice([0, 1]))]
  if rng.random() < 0.5:
    rng.shuffle(after)
  if barrage or rng.random() < 0.4:
    after.insert(0, jobs.probe_job(rng))
  if not after:
    after = [dict(jmain)]
  return {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': progs, 'after': after, 'enc': init,
          'ctx': ctx, 'vals': pool,
          'shared': [o for p in progs + [after] for o in p if o.get('share') is not None],
          'policy': core.gen_policy(rng) if n > 1 else {'kind': 'none'}, 'faults': faults}


def plain(op):
  return {a: b for a, b in op.items() if a not in ('save', 'flaky', 'fail', 'share')}


def registry_dependent(op):
  return op['op'] == 'reg' or (op['op'] == 'bound' and op['fn'] in c04.USES)


def want(sc, op):
  op = plain(op)
  if op['op'] == 'arith':
    vals = {op[a]: sc['vals'][op[a]] for a in ('a', 'b') if a in op}
    return world.reference(op, {'ctx': sc['ctx'], 'vals': vals})
  if op['op'] == 'eval' and op['job']['fn'] in c04.USES:
    return None
  if op['op'] == 'eval':
    op['job'] = plain(op['job'])
  return world.reference(op)


def judge(sc, r, hist, phase):
  for h in hist:
    if h['res'] is None or h['res'] == ('ok', 'skip'):
      continue
    where = dict(phase=phase, task=h['task'], k=h['k'], op=h['op'])
    if h['faulted']:
      if h['res'][0] == 'ok':
        r.violation('interrupt swallowed', **where, got=jobs.show(h['res'][1:]))
      elif not h.get('injected'):
        r.violation('interrupt replaced by another error', **where, got=repr(h['raw'][1])[:300])
      continue
    if h.get('user_err'):
      if h['res'][0] == 'ok':
        r.violation('user error swallowed', **where)
      elif h['res'][1] != 'UserError':
        r.violation('user error replaced', **where, got=repr(h['raw'][1])[:300])
      continue
    if registry_dependent(h['op']):
      continue
    ref = want(sc, h['op'])
    if ref is not None and world.norm(h['res']) != world.norm(ref):
      r.violation('differs', **where, got=jobs.show(h['res'][1:]), alone=jobs.show(ref[1:]))


def run(sc):
  if sc.get('kind') == 'cold':
    return run_cold(sc)
  with settings.ambient(sc.get('ambient')):
    return run_warm(sc)


def run_warm(sc):
  for p in sc['progs'] + [sc['after']]:
    for op in p:
      if op['op'] == 'bound' and op['fn'] in c04.USES:
        c04.ref(plain(op), sc['enc'])
      elif op['op'] != 'reg':
        want(sc, op)
  w = world.World(setup={'shared': sc['shared'], 'enc': sc['enc'], 'ctx': sc['ctx'],
                         'vals': sc['vals']})
  vals0 = {n: jobs.canon(v) for n, v in w.vals.items()}
  tr0 = [jobs.canon(c.trust_region) for c in w.ctxs]
  sim.install()
  proc0 = settings.process()
  leaks = []

  def on_start(t, h):
    settings.thread_ambient(sc.get('ambient', {}))
    h['settings'] = settings.local()

  def on_op(t, h):
    d = settings.diff(h.pop('settings'), settings.local())
    if d:
      leaks.append((h['op'], d))

  s, hist = core.run_programs(sc, w, max_steps=20_000_000, on_start=on_start, on_op=on_op)
  r = core.Result(s)
  r['nontrivial'] = bool(s.fired) or any(h.get('user_err') for h in hist)
  r['probes'] = {'interrupted calls': sum(bool(h.get('faulted')) for h in hist),
                 'user errors': sum(bool(h.get('user_err')) for h in hist)}
  for h in hist:
    if h.get('faulted'):
      n = 'interrupted ' + h['op']['op']
      r['probes'][n] = r['probes'].get(n, 0) + 1
  core.check_progress(s, r)
  judge(sc, r, hist, 'during')
  # Nothing is left behind: further calls behave as in a world of their own.
  w.failing = False
  s2, hist2 = core.run_programs({'progs': [sc['after']], 'policy': {'kind': 'none'}}, w,
                                max_steps=20_000_000, on_start=on_start, on_op=on_op)
  core.check_progress(s2, r)
  judge(sc, r, hist2, 'after')
  r['crc'] = (r['crc'] * 31 + s2.log_crc) & 0xFFFFFFFF
  if leaks:
    r.violation('settings changed', op=leaks[0][0], changed=repr(leaks[0][1])[:600])
  d = settings.diff(proc0, settings.process())
  if d:
    r.violation('process settings changed', changed=repr(d)[:600])
  for n, v in w.vals.items():
    if jobs.canon(v) != vals0[n]:
      r.violation('operand modified', name=n, before=jobs.show(vals0[n]), now=jobs.show(jobs.canon(v)))
  for c, t0 in zip(w.ctxs, tr0):
    if jobs.canon(c.trust_region) != t0:
      r.violation('trust region modified', before=jobs.show(t0), now=jobs.show(jobs.canon(c.trust_region)))
  if w.arg_changes:
    r.violation('argument modified', change=repr(w.arg_changes[0])[:600])
  if r['viol'] is None:
    off = max([h['ret'] or 0 for h in hist] + [0]) + 10
    lin = []
    for i, h in enumerate(hist + hist2):
      if h['res'] is None or not registry_dependent(h['op']):
        continue
      if h['op']['op'] == 'bound' and (h['faulted'] or h.get('user_err')):
        continue
      o = off if i >= len(hist) else 0
      lin.append(dict(h, inv=h['inv'] + o, ret=h['ret'] + o, op=plain(h['op']),
                      optional=h['op']['op'] == 'reg' and h['faulted']))
    bad = c04.linearizable(lin, sc['enc'])
    if bad is not None:
      r.violation('not explained by any order of the registrations', initial=sc['enc'], history=[
          [h['task'], h['inv'], h['ret'], str(h['op'].get('prim')) + ':=' + str(h['op'].get('enc'))
           if h['op']['op'] == 'reg' else h['op']['fn'], jobs.show(h['res'][1:], 200),
           'placed' if bad >> i & 1 else 'cannot be placed'] for i, h in enumerate(lin)])
  r['ops'] = len(hist) + len(hist2)
  return r
