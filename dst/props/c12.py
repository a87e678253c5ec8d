"""C12: operations never modify operands or earlier results."""
import zlib

import arith
import core
import env
import jobs
import sim
import world
from core import sub_rng
from env import np

PID = 'C12'
BLOCK = 40
OPS = [o for o in arith._TEA * 3 + arith._IA * 2 + arith._FN if o not in ('asenc',)] + ['asenc']
_ENC_RESULT = {'add', 'subtract', 'multiply', 'negative', 'bilinear', 'compose', 'elem', 'power', 'divide', 'map',
               'asenc'}
_IV_RESULT = {'i_add', 'i_subtract', 'i_multiply', 'i_negative', 'i_bilinear'}
LAYOUTS = ('plain', 'plain', 'slab', 'slab', 'rev', 'strided', 'fortran', 'readonly', 'wide', 'bcast')
BNAMES = ['exp', 'swish', 'sq', 'softplus', 'affine', 'sigmoid', 'inv2', 'pow25', 'mlp0', 'quad0', 'vec', 'abs']


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  ctxs = [arith.gen_ctx(blk, backend=blk.choice(['np', 'np', 'np', 'np', 'jnp'])) for _ in range(3)]
  base = [jobs.gen_job(blk, names=BNAMES, args=('np',), programs=0.15) for _ in range(3)]
  rng = sub_rng(PID, seed, k)
  ctx = [dict(rng.choice(ctxs), x64=True)]
  if rng.random() < 0.3:
    ctx.append(dict(ctx[0], deg=rng.randrange(0, 4)))
  pool = {}
  n = rng.choice([1, 1, 1, 2, 2, 3])
  progs = []
  for t in range(n):
    prog = []
    for q in range(rng.choice([2, 4, 6, 9]) if n == 1 else rng.choice([1, 2, 4])):
      c = rng.random()
      if c < 0.16:
        j = dict(rng.choice(base))
        if rng.random() < 0.5:
          jobs.set_point(rng, j)
        o = {'op': 'pb', 'job': j, 'alias': rng.choice(['', '', 'x0=lo', 'x0=hi', 'lo=hi', 'all', 'rows']),
             'ev': rng.choice(['', 'lower', 'upper', 'call', 'final'])}
      else:
        ci = rng.randrange(len(ctx))
        o = arith.gen_op(rng, ctx[ci], pool, OPS, ci, reuse=0.8, mix=0.3)
        o['op'] = 'pa'
        # Earlier results, and one value in both places.
        for w in ('a', 'b'):
          if w in o and rng.random() < 0.45:
            d = pool[o[w]]
            cands = [i for i, p in enumerate(prog) if p['op'] == 'pa' and p['ctx'] == ci
                     and ((d['kind'] == 'enc' and p['name'] in _ENC_RESULT)
                          or (d['kind'] in ('nd', 'iv') and p['name'] in _IV_RESULT))]
            if cands:
              o[w] = f't{t}r{rng.choice(cands)}'
        if 'b' in o and rng.random() < 0.2 and o['name'] != 'compose':
          o['b'] = o['a']
        o['aslist'] = rng.random() < 0.25
      prog.append(o)
    progs.append(prog)
  for d in pool.values():
    d['layout'] = rng.choice(LAYOUTS)
    d['same'] = rng.random() < 0.2
  sc = {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': progs, 'ctx': ctx, 'vals': pool,
        'policy': core.gen_policy(rng) if n > 1 else {'kind': 'none'}, 'faults': []}
  if rng.random() < 0.4:
    sc['faults'] = [core.gen_count_fault(rng, progs) for _ in range(rng.choice([1, 1, 2]))]
    for f in sc['faults']:
      f['n'] = 1 + f['n'] // 4
  return sc


class Pool:
  """Caller-owned values, with a snapshot of each taken when it appeared."""

  def __init__(self):
    self.vals = {}
    self.snap = {}

  def put(self, name, v):
    self.vals[name] = v
    self.snap[name] = (deep(v), mark(v))

  def changed(self):
    for n, v in self.vals.items():
      m = mark(v)
      if m != self.snap[n][1]:
        return n, jobs.show(self.snap[n][1]), jobs.show(m)
    return None


def deep(v):
  if isinstance(v, tuple):
    return tuple(deep(x) for x in v)
  if isinstance(v, list):
    return [deep(x) for x in v]
  if isinstance(v, np.ndarray):
    return np.array(v, copy=True)
  return v


def mark(v):
  """What must stay the same: contents and array attributes."""
  if isinstance(v, tuple):
    return ('T',) + tuple(mark(x) for x in v)
  if isinstance(v, list):
    return ('L',) + tuple(mark(x) for x in v)
  if isinstance(v, np.ndarray):
    return (jobs.canon(v), v.strides, v.flags.writeable)
  return jobs.canon(v)


def lay(a, how, slab):
  """The array `a` in storage with layout `how` (a Python number stays one)."""
  if isinstance(a, (int, float)) and not isinstance(a, np.generic):
    return a
  a = np.asarray(a)
  if how == 'plain' or a.dtype == object:
    return np.array(a)
  if how == 'readonly':
    b = np.array(a)
    b.flags.writeable = False
    return b
  if how == 'bcast':
    return np.broadcast_to(a, a.shape)
  if how == 'fortran':
    return np.asfortranarray(a)
  if how == 'rev':
    if a.ndim == 0:
      return np.array([a, a + 1])[0:1].reshape(())
    return np.array(a[::-1])[::-1]
  if how == 'strided':
    raw = np.full(a.shape + (3,), 7.5, a.dtype)
    raw[..., 1] = a
    return raw[..., 1]
  if how == 'wide':
    raw = np.full(a.size + 8, 7.5, a.dtype)
    raw[4:4 + a.size] = a.reshape(-1)
    return raw[4:4 + a.size].reshape(a.shape)
  # One slab of storage for many operands.
  off = slab[1]
  slab[1] += a.size
  if slab[1] > slab[0].size:
    return np.array(a)
  v = slab[0][off:off + a.size].reshape(a.shape)
  v[...] = a
  return v


def layout(v, how, slab, same):
  if isinstance(v, tuple):
    if len(v) == 2 and same and not isinstance(v[0], tuple) and not isinstance(v[1], tuple) \
        and np.shape(v[0]) == np.shape(v[1]):
      x = lay(v[0], how, slab)
      return (x, x)    # an interval of one point: one array twice
    return tuple(layout(x, how, slab, same) for x in v)
  return lay(v, how, slab)


class W(world.World):

  def __init__(self, sc):
    self.pool = Pool()
    self.sc = sc
    super().__init__(setup={'ctx': sc['ctx']})
    slab = [np.zeros(4000), 0]
    for n, d in sorted(sc['vals'].items()):
      c = sc['ctx'][d.get('ctx', 0)]
      v = arith.build_operand(d, np)
      if c['backend'] == 'np' or d['seed'] % 3 == 0:
        v = layout(v, d['layout'], slab, d['same'])
      else:
        with jobs.prec(True):
          v = env.jax.tree_util.tree_map(
              lambda a: a if isinstance(a, (int, float)) and not isinstance(a, np.generic)
              else env.jnp.asarray(a), v)
      self.pool.put(n, v)
    for i, c in enumerate(self.ctxs):
      if sc['ctx'][i]['backend'] == 'np':
        c.trust_region = tuple(lay(x, 'slab', slab) for x in c.trust_region)
      self.pool.put(f'region of context {i}', c.trust_region)
    self.uses = {}
    self.changed = None

  def name(self, t, k):
    return f't{t}r{k}'

  def op_pa(self, o):
    if any(o[w] not in self.pool.vals for w in ('a', 'b') if w in o):
      return 'skip'
    c = self.ctx_desc[o['ctx']]
    vals = self.pool.vals
    if o.get('aslist'):
      vals = as_lists(o, vals)
      for w in ('a', 'b'):
        if w in o:
          self.pool.put(o[w] + ' as list', vals[o[w]])
    with jobs.prec(True):
      xp = arith.xp_of(c)
      return arith.exec_op(self.lib, o, self.ctxs[o['ctx']], xp, xp, vals, lambda: sim.point('callback'))

  def op_pb(self, o):
    j = o['job']
    with jobs.prec(j['x64']):
      arrs = pb_args(o)
      with sim.quiet():
        self.pool.put(f'arguments {len(self.pool.vals)}', arrs)
      return pb_call(self.lib, o, arrs, lambda f: self.lib.ab.taylor_bounds(f, j['deg'], j['prop']))


def as_lists(o, vals):
  """Sequences of coefficients as lists, where the library takes them."""
  if o['name'] not in ('eval', 'f_eval_elem', 'f_pbilinear', 'f_ipow', 'asenc', 'add', 'enclose', 'multiply'):
    return vals
  out = dict(vals)
  for w in ('a', 'b'):
    if w in o and isinstance(vals[o[w]], tuple) and o['name'] != 'f_eval_elem':
      out[o[w]] = list(vals[o[w]])
  return out


def pb_args(o):
  j = o['job']
  x0, lo, hi = jobs.laid_out(j, 'rows' if o['alias'] == 'rows' else 'own')
  if o['alias'] == 'x0=lo':
    x0 = lo
  elif o['alias'] == 'x0=hi':
    x0 = hi
  elif o['alias'] == 'lo=hi':
    x0 = lo = hi
  elif o['alias'] == 'all':
    hi = lo = x0
  return [x0, lo, hi]


def pb_call(lib, o, arrs, tb):
  j = o['job']
  b = tb(jobs.build_fn(j['fn']))(arrs[0], (arrs[1], arrs[2]))
  r = (b.coefficients, b.x0, b.x_trust_region)
  if o['ev'] == 'final':
    return r, b.final_interval()
  if o['ev']:
    return r, (b if o['ev'] == 'call' else getattr(b, o['ev']))(arrs[1])
  return r


def close(a, b, tol):
  """Equal structures with nearly equal numbers."""
  if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
    return (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b)
            and all(close(x, y, tol) for x, y in zip(a, b)))
  try:
    x, y = np.asarray(a, np.float64), np.asarray(b, np.float64)
  except (TypeError, ValueError):
    return jobs.canon(a) == jobs.canon(b)
  if x.shape != y.shape:
    return False
  s = tol * (1 + np.max(np.abs(y[np.isfinite(y)]), initial=0.))
  return bool(np.all((np.abs(x - y) <= s) | (x == y) | (np.isnan(x) & np.isnan(y))))


def clone(v):
  """Copy with the same memory layout."""
  if isinstance(v, tuple):
    return tuple(clone(x) for x in v)
  if isinstance(v, list):
    return [clone(x) for x in v]
  if not isinstance(v, np.ndarray):
    return v
  root = v
  while isinstance(root.base, np.ndarray):
    root = root.base
  c = np.array(root, order='K', copy=True)
  if root is v:
    return c
  off = v.__array_interface__['data'][0] - root.__array_interface__['data'][0]
  if c.strides != root.strides:
    return np.array(v)
  return np.ndarray(v.shape, v.dtype, buffer=c.data if c.flags.c_contiguous else None, offset=off,
                    strides=v.strides) if c.flags.c_contiguous else np.array(v)


def reference(sc, w, h, copy=None):
  """The operation on private copies of its operands, in a pristine world."""
  o = h['op']
  lib = env.fresh()
  if o['op'] == 'pb':
    j = o['job']
    with jobs.prec(j['x64']):
      arrs = [np.array(a) for a in pb_args(o)]
      return world.result_of(lambda: pb_call(lib, o, arrs, lambda f: lib.ab.taylor_bounds(f, j['deg'], j['prop'])))
  c = sc['ctx'][o['ctx']]
  with jobs.prec(True):
    xp = arith.xp_of(c)
    ctx = arith.build_ctx(lib, c)
    get = (lambda n: deep(w.pool.snap[n][0])) if copy is None else (lambda n: copy(w.pool.vals[n]))
    vals = {o[k]: get(o[k]) for k in ('a', 'b') if k in o}
    if 'b' in o and o['a'] == o['b']:
      # Two private copies.
      vals[o['b'] + "'"] = get(o['b'])
      o = dict(o, b=o['b'] + "'")
    if o.get('aslist'):
      vals = as_lists(o, vals)
    return world.result_of(lambda: arith.exec_op(lib, o, ctx, xp, xp, vals))


def run(sc):
  w = W(sc)
  r = core.Result()

  def on_op(t, h):
    if w.changed is None:
      ch = w.pool.changed()
      if ch is not None:
        w.changed = (ch, h['op'])
    if h['raw'][0] == 'ok' and h['res'] != ('ok', 'skip'):
      w.pool.put(w.name(h['task'], h['k']), h['raw'][1])

  s, hist = core.run_programs(sc, w, max_steps=20_000_000, on_op=on_op)
  r = core.Result(s)
  r['nontrivial'] = len(hist) > 1 or bool(s.fired)
  core.check_progress(s, r)
  ch = w.pool.changed()
  if w.changed is None and ch is not None:
    w.changed = (ch, 'some operation')
  if w.changed is not None:
    (n, before, now), op = w.changed
    r.violation('modified', value=n, after=op, before=before, now=now)
  n = 0
  for h in hist:
    if h['res'] is None or h['res'] == ('ok', 'skip') or h['faulted']:
      continue
    n += 1
    tol = 1e-10 if h['op']['op'] == 'pa' or h['op']['job']['x64'] else 1e-4
    ref = reference(sc, w, h)
    if h['raw'][0] == ref[0] and (ref[0] == 'exc' or close(h['raw'][1], ref[1], tol)):
      continue
    if h['op']['op'] == 'pa' and h['res'] == world.canon_result(reference(sc, w, h, clone)):
      r['copies'] = r.get('copies', 0) + 1
      continue   # rounding that depends on the memory layout
    if h['raw'][0] != ref[0]:
      r.violation('outcome differs', task=h['task'], k=h['k'], op=h['op'], got=repr(h['raw'])[:400], private=repr(ref)[:400])
    elif ref[0] == 'ok':
      if not close(h['raw'][1], ref[1], tol):
        r.violation('differs', task=h['task'], k=h['k'], op=h['op'], got=jobs.show(h['res'][1:]),
                    private=jobs.show(jobs.canon(ref[1])))
  r['ops'] = len(hist)
  r['probes'] = {'results compared': n, 'values watched': len(w.pool.vals),
                 'results that depend on the memory layout': r.get('copies', 0),
                 'interrupted operations': sum(bool(h.get('faulted')) for h in hist),
                 'operations that raised': sum(h['res'] is not None and h['res'][0] == 'exc' and not h['faulted'] for h in hist)}
  return r
