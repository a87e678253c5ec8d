"""World: one pristine copy of the library plus the objects callers share.

Operations are JSON; `World.do` executes one through the library's public API
and returns its canonical result.  The same code runs simulated callers and
the reference execution (the operation alone, in a pristine copy).
"""
import gc
import json
import threading

import env
import sim
import jobs
import arith
import rewrite
from env import np, jnp, jax


ENC_SCALE = [0.5, 1.0, 2.0, 3.0, 5.0, 7.0, 11.0, 13.0]


def fail_user(what):
  t = sim.current()
  if t is not None:
    t.extra['user_err'] = t.extra.get('user_err', 0) + 1
  raise jobs.UserError(what)


def make_enclosure(k, hook=None):
  """Enclosure generator number k: recognisable by its scale."""
  s = ENC_SCALE[k]

  def enclosure(x0, trust_region, degree, np_like):
    if hook:
      hook()
    a, b = trust_region
    if degree == 0:
      return ((a * s, b * s + 0.),)
    out = [x0 * s]
    for i in range(1, degree):
      out.append(np_like.ones_like(x0) * (s + i))
    w = np_like.ones_like(x0) * s
    out.append((w - 0.25 * s, w + 0.25 * s + (b - a) * 0.))
    return tuple(out)
  return enclosure


def result_of(f):
  """Runs f; returns ('ok', value) or ('exc', exception)."""
  try:
    return ('ok', f())
  except sim.SimAbort:
    raise
  except BaseException as e:
    return ('exc', e)


def canon_result(r):
  if r[0] == 'ok':
    return ('ok', jobs.canon(r[1]))
  return ('exc', type(r[1]).__name__)


def norm(r):
  """Errors compare as errors: which one is not promised."""
  return r if r[0] == 'ok' else ('exc',)


class World:

  def __init__(self, lib=None, setup=None, user_points=True):
    self.lib = lib or env.fresh()
    env.activate(self.lib)
    self.bound_funs = {}
    self.slots = {}
    self.bufs = {}
    self.rw = {}
    self.dead = set()
    self.inner = []              # results of calls made from callbacks
    self.calls = {}
    self.nests = {}              # thread -> nested calls in progress
    self.ctxs = []
    self.ctx_desc = []
    self.vals = {}
    self.fns = {}
    self.user_points = user_points
    self.failing = user_points   # whether flaky user code fails
    self.arg_changes = []
    self.setup_desc = setup or {}
    self._setup(self.setup_desc)

  # -- setup (before any simulated caller starts) ---------------------------
  def _setup(self, s):
    for i, k in enumerate(s.get('enc', [])):
      if k is not None:
        self.lib.jax_bound.register_elementwise_primitive(jobs.PRIMS[i], make_enclosure(k, self._hook))
    for c in s.get('ctx', []):
      with jobs.prec(c.get('x64', True)):
        self.ctxs.append(arith.build_ctx(self.lib, c))
        self.ctx_desc.append(c)
    for n, d in sorted(s.get('vals', {}).items()):
      c = self.ctx_desc[d.get('ctx', 0)]
      with jobs.prec(c.get('x64', True)):
        self.vals[n] = arith.build_operand(d, arith.xp_of(c))
    for j in s.get('shared', []):
      self._bound_fun(j, j['share'])

  def _hook(self):
    sim.point('enclosure')
    self._nested_ops('enc')

  def _enclosure(self, o):
    """Enclosure of a registration; the first o['fail'] uses of it fail."""
    left = [o.get('fail', 0)]

    def hook():
      self._hook()
      if left[0] > 0 and self.failing:
        left[0] -= 1
        fail_user('enclosure failed')
    return make_enclosure(o['enc'], hook)

  def _user_fn(self, j):
    f = self._flaky(j, jobs.build_fn(j['fn']))
    if not self.user_points or j.get('share') is not None:
      return f

    def g(x):
      sim.point('user')
      y = f(x)
      sim.point('user2')
      return y
    return g

  def _bound_fun(self, j, key=None):
    if key is not None:
      k = json.dumps([key, j['fn'], j['deg'], j['prop']])
      bf = self.bound_funs.get(k)
      if bf is None:
        bf = self.lib.ab.taylor_bounds(self._shared_fn(j), j['deg'], j['prop'])
        self.bound_funs[k] = bf
      return bf
    f = self._user_fn(j)
    if j.get('reuse'):
      # A function object at the address of an earlier, collected one.
      gc.collect()
      tries = []
      for _ in range(400):
        if id(f) in self.dead:
          break
        tries.append(f)
        f = self._user_fn(j)
    if len(self.dead) < 4000:
      self.dead.add(id(f))
    return self.lib.ab.taylor_bounds(f, j['deg'], j['prop'])

  def _shared_fn(self, j):
    k = (j.get('share'), j['fn'])
    f = self.fns.get(k)
    if f is None:
      f = self.fns[k] = self._flaky(j, jobs.build_fn(j['fn']))
    return f

  def _flaky(self, j, f):
    """A user function whose first j['flaky'] calls fail half way."""
    if not j.get('flaky') or not self.user_points:
      return f
    left = [j['flaky']]

    def g(x):
      y = f(x)
      if left[0] > 0 and self.failing:
        left[0] -= 1
        fail_user('user function failed')
      return y
    return g

  # -- operations ------------------------------------------------------------
  def do(self, op):
    """Returns the raw value of operation `op` (may raise)."""
    return getattr(self, 'op_' + op['op'])(op)

  def run(self, op):
    return canon_result(result_of(lambda: self.do(op)))

  def op_bound(self, j):
    if j.get('via') == 'global':
      # The process-wide precision setting instead of the thread's.
      old = jax.config.jax_enable_x64
      jax.config.update('jax_enable_x64', bool(j['x64']))
      try:
        return self._bound(j, jobs.noprec())
      finally:
        jax.config.update('jax_enable_x64', old)
    return self._bound(j, jobs.prec(j['x64']))

  def _bound(self, j, cm):
    with cm:
      x0, region = jobs.make_args(j)
      bf = self._bound_fun(j, j.get('share'))
      before = None
      def state():
        return jobs.canon((x0, region)), [a.flags.writeable for a in (x0, *region) if isinstance(a, np.ndarray)]
      if j['arg'] == 'np':
        before = state()
      try:
        b = bf(x0, region)
      finally:
        if before is not None:
          with sim.quiet():
            now = state()
            if now != before:
              self.arg_changes.append((dict(j), jobs.show(before), jobs.show(now)))
      if j.get('save'):
        self.slots[j['save']] = b
      return self.describe(b)

  def describe(self, b):
    return (b.coefficients, b.x0, b.x_trust_region)

  def points(self, j):
    """Points of the region of job j (deterministic)."""
    lo, hi = np.asarray(j['lo'], np.float64), np.asarray(j['hi'], np.float64)
    dt = np.float64 if j['x64'] else np.float32
    return [np.asarray(lo + (hi - lo) * f, dtype=dt) for f in (0., 0.3125, 1.)]

  def op_eval(self, o):
    """Evaluates a saved bound."""
    b = self.slots.get(o['slot'])
    if b is None:
      return 'skip'
    j = o['job']
    with jobs.prec(j['x64'] != bool(o.get('odd'))):
      x = self.points(j)[o['pt']]
      if o.get('buf'):
        # The caller keeps one array for its evaluation points.
        key = (threading.get_ident(), o['buf'], x.shape, str(x.dtype))
        old = self.bufs.get(key)
        if old is None:
          self.bufs[key] = x
        else:
          old[...] = x
          x = old
      if o['how'] == 'final':
        return b.final_interval()
      if o['how'] == 'lower':
        return b.lower(x)
      if o['how'] == 'upper':
        return b.upper(x)
      if o['how'] == 'fields':
        return self.describe(b)
      return b(x)

  # Arrays the caller keeps and overwrites later.
  def op_wbound(self, o):
    """Bounding call whose arguments live in caller-owned NumPy buffers."""
    j = o['job']
    with jobs.prec(j['x64']):
      arrs = jobs.laid_out(j, o['layout'])
      self.bufs[o['slot']] = arrs
      bf = self._bound_fun(j, j.get('share'))
      region = (arrs[1], arrs[2])
      b = bf(arrs[0], region)
      self.slots[o['slot']] = b
      return self.describe(b)

  def op_scribble(self, o):
    """The caller overwrites arrays it passed earlier."""
    arrs = self.bufs.get(o['slot'])
    if arrs is None:
      return 'skip'
    for i in o['which']:
      if o['how'] == 'nan':
        arrs[i][...] = np.nan
      else:
        arrs[i][...] = arrs[i] * 2 + o['how']
    return 'done'

  def op_arith(self, o):
    c = self.ctx_desc[o.get('ctx', 0)]
    with jobs.prec(c.get('x64', True)):
      xp = arith.xp_of(c)
      return arith.exec_op(self.lib, o, self.ctxs[o.get('ctx', 0)], xp, xp, self.vals,
                           lambda: sim.point('callback'))

  def op_tbound(self, o):
    """A bounding call inside a traced computation.

    o: job, mode, pts (centres and regions for batching), abort."""
    j = o['job']
    mode = o['mode']
    with jobs.prec(j['x64']):
      dt = np.float64 if j['x64'] else np.float32
      bf = self._bound_fun(j, j.get('share'))

      def arr(k, jj=j):
        return np.asarray(jj[k], dt)

      def core_fn(x0, lo, hi):
        sim.point('traced')
        b = bf(x0, (lo, hi))
        sim.point('traced2')
        if o.get('abort'):
          raise jobs.UserError('aborted inside a trace')
        return b.coefficients

      def total(x0, lo, hi):
        c = core_fn(x0, lo, hi)
        leaves = jax.tree_util.tree_leaves(c)
        return sum(jnp.sum(x) for x in leaves), c

      x0, lo, hi = arr('x0'), arr('lo'), arr('hi')
      if mode == 'jit':
        return jax.jit(lambda a, b, c: core_fn(a, b, c))(x0, lo, hi)
      if mode == 'jit_x0':
        return jax.jit(lambda a: core_fn(a, jnp.asarray(lo), jnp.asarray(hi)))(x0)
      if mode == 'jit_region':
        return jax.jit(lambda b, c: core_fn(jnp.asarray(x0), b, c))(lo, hi)
      if mode == 'jit_const':
        # Concrete arguments inside a trace.
        return jax.jit(lambda z: (core_fn(x0, lo, hi), z))(1.)[0]
      if mode == 'jit_twice':
        g = jax.jit(lambda a, b, c: core_fn(a, b, c))
        p = self._pts(o, dt)
        g(*[x[1] for x in p])
        return g(x0, lo, hi)
      if mode == 'vmap':
        return jax.vmap(lambda a, b, c: core_fn(a, b, c))(*self._pts(o, dt))
      if mode == 'vmap_x0':
        xs = jnp.stack([jnp.asarray(x0)] * 2)
        r = jax.vmap(lambda a: core_fn(a, jnp.asarray(lo), jnp.asarray(hi)))(xs)
        return jax.tree_util.tree_map(lambda a: a[1], r)
      if mode == 'jitvmap':
        return jax.jit(jax.vmap(lambda a, b, c: core_fn(a, b, c)))(*self._pts(o, dt))
      if mode == 'grad':
        g, c = jax.grad(lambda a, b, c: total(a, b, c), has_aux=True)(x0, lo, hi)
        return c
      if mode == 'jitgrad':
        f = jax.grad(lambda a, b, c: total(a, b, c), argnums=(1, 2), has_aux=True)
        return jax.jit(f)(x0, lo, hi)[1]
      if mode == 'jvp':
        t = [np.ones_like(a) for a in (x0, lo, hi)]
        return jax.jvp(lambda a, b, c: core_fn(a, b, c), (x0, lo, hi), tuple(t))[0]
      if mode == 'scan':
        p = self._pts(o, dt)
        return jax.lax.scan(lambda z, a: (z, core_fn(*a)), 0., p)[1]
      if mode == 'eval':
        # An eager bound evaluated inside a trace.
        b = bf(jnp.asarray(x0), (jnp.asarray(lo), jnp.asarray(hi)))
        x = self.points(j)[1]

        def ev(y):
          r = b(y)
          if o.get('abort'):
            raise jobs.UserError('aborted inside a trace')
          return r
        return jax.jit(ev)(x)
      raise AssertionError(mode)

  def _pts(self, o, dt):
    return tuple(jnp.asarray(np.asarray([p[i] for p in o['pts']], dt)) for i in range(3))

  def op_reg(self, o):
    return self.lib.jax_bound.register_elementwise_primitive(
        jobs.PRIMS[o['prim']], self._enclosure(o))

  def op_badcall(self, o):
    """Calls that must fail at once."""
    tb = self.lib.ab.taylor_bounds
    k = o['k']
    with jobs.prec(False):
      if k == 0:
        return tb(jobs.build_fn('exp'), -1)
      if k == 1:
        return tb(jobs.build_fn('exp'), 1)(np.ones((2, 2), np.float32), (np.zeros((2, 2)), np.ones((2, 2))))
      if k == 2:
        return tb(jobs.build_fn('exp'), 2)(0.5, (np.zeros(2, np.float32), 1.))
      if k == 3:
        return tb(jobs.build_fn('exp'), 1)(0.5, None)
      if k == 4:
        return tb(jobs.build_fn('abs'), 2)(0.5, (0.25, 1.))
      if k == 5:
        return self.lib.ia.IntervalArithmetic(np).power((np.float64(0.), np.float64(1.)), -2)
      if k == 6:
        return self.lib.ia.IntervalArithmetic(np).outer_power(np.ones(2), -1)
      return tb(jobs.build_fn('exp'), 2)(jnp.ones(3), (jnp.zeros(2), jnp.ones(2)))

  def op_clear(self, o):
    """Drops JAX's compilation caches."""
    with sim.quiet():
      jax.clear_caches()
    return 'done'

  # Calls made from inside the callbacks of another call.
  def op_nest(self, o):
    """Outer bounding call `job` whose callbacks make the calls `inner`.

    Entries of `inner`: at ('fn', 'fn2': start and end of the bounded function;
    'enc': a registered enclosure), op, catch, times, mode ('eager', 'staged').
    Operation 'same' uses the outer call's own bounding function."""
    j = o['job']
    f0 = self._flaky(j, jobs.build_fn(j['fn']))

    def f(x):
      self._nested_ops('fn')
      y = f0(x)
      self._nested_ops('fn2')
      return y
    bf = self.lib.ab.taylor_bounds(f, j['deg'], j['prop'])
    me = threading.get_ident()
    st = self.nests.setdefault(me, [])
    st.append({'o': o, 'bf': bf, 'count': [0] * len(o['inner'])})
    try:
      with jobs.prec(j['x64']):
        x0, region = jobs.make_args(j)
        return self.describe(bf(x0, region))
    finally:
      st.pop()

  def op_same(self, o):
    """The bounding function of the enclosing nested call, on other arguments."""
    j = o['job']
    with jobs.prec(j['x64']):
      x0, region = jobs.make_args(j)
      return self.describe(o['bf'](x0, region))

  def _nested_ops(self, at):
    st = self.nests.get(threading.get_ident())
    if not st:
      return
    top = st[-1]
    for i, e in enumerate(top['o']['inner']):
      if e['at'] != at or top['count'][i] >= e.get('times', 1):
        continue
      top['count'][i] += 1
      t = sim.current()
      op = e['op']
      if op['op'] == 'same':
        op = dict(op, bf=top['bf'])
      h = {'at': at, 'i': i, 'op': e['op'], 'outer': top['o'], 'depth': len(st), 'ret': None,
           'parent': self.calls.get(threading.get_ident()),
           'task': t.idx if t else -1, 'catch': e.get('catch'), 'mode': e.get('mode')}
      if t is not None:
        h['inv'] = t.sim.stamp()
        h['hits'], h['errs'] = t.fault_hits, t.extra.get('user_err', 0)
      self.inner.append(h)
      self.calls[threading.get_ident()] = h
      if e.get('mode') == 'staged' and at != 'enc':
        r = result_of(lambda: self.do(op))
      else:
        with jax.ensure_compile_time_eval():
          r = result_of(lambda: self.do(op))
      self.calls[threading.get_ident()] = h['parent']
      with sim.quiet():
        h['res'] = canon_result(r)
      h['raw'] = r
      if t is not None:
        h['ret'] = t.sim.stamp()
        h['faulted'] = t.fault_hits > h['hits']
        h['user_err'] = t.extra.get('user_err', 0) > h['errs']
        t.sim.log('inner', t.idx, at, i, jobs.crc(h['res']))
      if r[0] == 'exc' and not e.get('catch'):
        raise r[1]

  def op_drop(self, o):
    """The caller drops its bounding functions and bounds."""
    with sim.quiet():
      self.bound_funs.clear()
      self.fns.clear()
      self.rw.clear()
      if o.get('slots'):
        self.slots.clear()
      gc.collect()
    return 'done'

  def op_rewrite(self, o):
    with jobs.prec(False):
      p = self.rw.get(o['k'])
      if p is None:
        p = rewrite.Programs(o['k'])
        if o.get('share') is not None:
          self.rw[o['k']] = p
      return rewrite.run(self.lib, p)


_ref_cache = {}


def reference(op, setup=None):
  """Canonical result of `op` alone in a pristine copy of the library."""
  k = json.dumps([op, setup], sort_keys=True)
  r = _ref_cache.get(k)
  if r is None:
    if len(_ref_cache) > 20000:
      _ref_cache.clear()
    op = {a: b for a, b in op.items() if a not in ('save', 'reuse')}
    w = World(env.fresh(), setup, user_points=False)
    if op['op'] == 'eval':
      w.run(dict(op['job'], save=op['slot'], share=None))
    r = _ref_cache[k] = w.run(op)
  return r
