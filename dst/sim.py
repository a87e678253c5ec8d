"""Deterministic simulator for caller threads of a Python library.

Caller threads are real threads of which exactly one is ever runnable.  Control
changes hands only at scheduling points: bytecode instructions of library code
(via sys.monitoring), back-end calls, lock operations of the library, and
points the workload declares.  A policy (seeded, or a recorded list of
preemptions) decides at each point who continues, and whether a fault is
delivered there.  A run is a pure function of its scenario.
"""
import _thread
import dis
import sys
import threading
import time
import zlib

import env

mon = sys.monitoring
TOOL = 4
_EV = mon.events.INSTRUCTION

_real_lock = _thread.allocate_lock
_get_ident = _thread.get_ident

OP = dis.opmap
_CALL_OPS = frozenset(OP[n] for n in (
    'CALL', 'CALL_FUNCTION_EX', 'CALL_INTRINSIC_1', 'CALL_INTRINSIC_2') if n in OP)
_RET_OPS = frozenset(OP[n] for n in (
    'RETURN_VALUE', 'RETURN_CONST', 'YIELD_VALUE', 'RETURN_GENERATOR') if n in OP)
_BACK_OPS = frozenset(OP[n] for n in (
    'RESUME', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT') if n in OP)
_ARITH_OPS = frozenset(OP[n] for n in (
    'BINARY_OP', 'UNARY_NEGATIVE', 'UNARY_INVERT', 'COMPARE_OP', 'BINARY_SUBSCR') if n in OP)
_CLEANUP_OPS = frozenset(OP[n] for n in ('CALL_INTRINSIC_1', 'RERAISE') if n in OP)
_STORE_OPS = frozenset(OP[n] for n in (
    'STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'STORE_DEREF', 'DELETE_SUBSCR',
    'DELETE_ATTR') if n in OP)
_SHARED_OPS = _STORE_OPS | frozenset(OP[n] for n in (
    'LOAD_ATTR', 'LOAD_DEREF', 'FOR_ITER', 'CONTAINS_OP', 'BINARY_SUBSCR', 'CALL') if n in OP)
_RESUME = OP['RESUME']


FAIR = 400000   # steps


class SimAbort(BaseException):
  """Unwinds a task when the run is over; never delivered as a fault."""


class HarnessError(Exception):
  """The machinery itself misbehaved: never reported as a violation."""


class Task:
  __slots__ = ('sim', 'idx', 'fn', 'state', 'sem', 'local', 'prev', 'injax',
               'result', 'exc', 'wait_on', 'deadline', 'ended', 'np_calls',
               'steps_at_start', 'quiet', 'fault_hits', 'thread', 'name', 'extra',
               'visits', 'faults_on', 'nested_ok', 'deliv', 'op', 'waited', 'points')

  def __init__(self, sim, idx, fn, name):
    self.sim, self.idx, self.fn, self.name = sim, idx, fn, name
    self.state = 'ready'
    self.sem = _real_lock()
    self.sem.acquire()
    self.local = 0
    self.prev = -1
    self.injax = 0
    self.quiet = 0
    self.result = self.exc = self.wait_on = self.deadline = None
    self.np_calls = 0
    self.fault_hits = 0
    self.thread = None
    self.extra = {}
    self.visits = {}
    self.faults_on = True
    self.nested_ok = sim.nested_ok
    self.deliv = 0
    self.op = -1
    self.waited = 0.      # simulated seconds slept or waited for a lock in vain
    self.points = 0


_tasks = {}   # thread ident -> Task


def current():
  return _tasks.get(_get_ident())


def point(label=0):
  """A scheduling point declared by the workload (no-op outside a run)."""
  t = _tasks.get(_get_ident())
  if t is not None and not t.quiet:
    t.sim._point(t, label)


class quiet:
  """Context in which library code has no scheduling points (oracle code)."""

  def __enter__(self):
    t = self.t = _tasks.get(_get_ident())
    if t is not None:
      t.quiet += 1

  def __exit__(self, *a):
    if self.t is not None:
      self.t.quiet -= 1


class injax:
  """Marks a user callback called from inside a JAX trace."""

  def __enter__(self):
    t = self.t = _tasks.get(_get_ident())
    if t is not None:
      t.injax += 1

  def __exit__(self, *a):
    if self.t is not None:
      self.t.injax -= 1


_NESTED_CACHE = {}
_PKG_PREFIX = env.PKG + '/'
_HARNESS = __file__.rsplit('/', 1)[0] + '/'


def _file_class(fn):
  c = _NESTED_CACHE.get(fn)
  if c is None:
    if fn.startswith(_PKG_PREFIX):
      c = 0
    elif fn.startswith(_HARNESS):
      c = 2
    elif '/jax/' in fn or '/jaxlib/' in fn or '/flax/' in fn:
      c = 1
    else:
      c = 3
    _NESTED_CACHE[fn] = c
  return c


def _nested(frame):
  """Whether library frame `frame` was entered from inside JAX."""
  f = frame.f_back
  while f is not None:
    c = _file_class(f.f_code.co_filename)
    if c == 1:
      return True
    if c == 2:
      return False
    f = f.f_back
  return False


def _on_instr(code, off):
  t = _tasks.get(_get_ident())
  if t is None or t.quiet:
    return
  if t.injax:
    return
  if not t.nested_ok and _nested(sys._getframe(1)):
    return
  base, raw = env.CODES[code]
  t.sim._event(t, base + (off >> 1), raw[off])


_installed = False


def _unraisable(u):
  """Python discards what is raised in a finaliser: the fault had no effect."""
  t = _tasks.get(_get_ident())
  if t is not None and is_injected(t, u.exc_value):
    t.fault_hits -= 1
    t.sim.stats['discarded'] = t.sim.stats.get('discarded', 0) + 1
    return
  sys.__unraisablehook__(u)


def install():
  global _installed
  if _installed:
    return
  _installed = True
  sys.setswitchinterval(0.05)
  sys.unraisablehook = _unraisable
  mon.use_tool_id(TOOL, 'dst')
  mon.register_callback(TOOL, _EV, _on_instr)
  env._on_new_code.append(lambda c: mon.set_local_events(TOOL, c, _EV))
  for c in env.CODES:
    mon.set_local_events(TOOL, c, _EV)


# --------------------------------------------------------------------------
# Locks created by the library are simulated: waiting is a scheduling decision.


class SimLock:
  """Lock/RLock whose waiters are parked by the simulator."""

  def __init__(self, reentrant):
    self._re = reentrant
    self._owner = None
    self._count = 0

  def _me(self):
    t = _tasks.get(_get_ident())
    return t if t is not None else ('thread', _get_ident())

  def acquire(self, blocking=True, timeout=-1):
    me = self._me()
    if isinstance(me, Task):
      if me.sim.abort:
        raise SimAbort()
      if not me.quiet and not me.injax:
        me.sim.stats['lock_ops'] += 1
        me.sim._point(me, 11)
    return self._take(me, blocking, timeout)

  def _take(self, me, blocking=True, timeout=-1):
    while self._owner is not None:
      if self._re and self._owner == me:
        break
      if not blocking:
        return False
      if not isinstance(me, Task):
        # Outside a run nobody else can release it.
        raise HarnessDeadlock('lock held while no other caller can run')
      if me.sim._block(me, self, timeout) == 'timeout':
        return False
    self._owner = me
    self._count += 1
    return True

  def release(self):
    me = self._me()
    if isinstance(me, Task) and me.sim.abort:
      return                     # the run is over; callers are unwinding
    if self._owner is None:
      raise RuntimeError('release unlocked lock')
    if self._re and self._owner != me:
      raise RuntimeError('cannot release un-acquired lock')
    self._count -= 1
    if self._count == 0:
      self._owner = None

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()

  def locked(self):
    return self._owner is not None

  # Condition support.
  def _is_owned(self):
    return self._owner == self._me()

  def _release_save(self):
    c, self._count, self._owner = self._count, 0, None
    return c

  def _acquire_restore(self, c):
    # Like the real one, not interruptible.
    me = self._me()
    if isinstance(me, Task) and me.sim.abort:
      return
    self._take(me)
    self._count = c

  def _at_fork_reinit(self):
    self._owner, self._count = None, 0


class HarnessDeadlock(Exception):
  """A lone caller waits for a lock nobody can release: a real deadlock."""


def _from_library(depth):
  f = sys._getframe(depth)
  n = 0
  while f is not None and n < 12:
    fn = f.f_code.co_filename
    if _file_class(fn) == 0 or env._is_pkg(f.f_globals.get('__name__') or ''):
      return True
    base = fn.rsplit('/', 1)[-1]
    if base not in ('threading.py', 'queue.py', 'dataclasses.py', 'contextlib.py',
                    'functools.py', '<string>'):
      return False
    f = f.f_back
    n += 1
  return False


def _install_locks():
  real_L, real_R, real_A = threading.Lock, threading.RLock, threading._allocate_lock

  def Lock():
    return SimLock(False) if _from_library(2) else real_L()

  def RLock(*a, **k):
    return SimLock(True) if _from_library(2) else real_R(*a, **k)

  def alloc():
    return SimLock(False) if _from_library(2) else real_A()

  threading.Lock = Lock
  threading.RLock = RLock
  threading._allocate_lock = alloc
  _thread.allocate_lock = Lock
  _thread.RLock = RLock

  # Sleeping and reading the clock inside the library: simulated time.
  real = {n: getattr(time, n) for n in ('sleep', 'time', 'monotonic', 'perf_counter')}

  def sleep(s):
    t = _tasks.get(_get_ident())
    if t is None or not _from_library(2):
      return real['sleep'](s)
    t.sim.now += max(s, 1e-6)
    t.waited += max(s, 1e-6)
    t.sim.stats['sleeps'] = t.sim.stats.get('sleeps', 0) + 1
    t.sim._yield(t)

  def clock(name):
    def f():
      t = _tasks.get(_get_ident())
      if t is None or not _from_library(2):
        return real[name]()
      return t.sim.now + t.local * 1e-7
    return f

  time.sleep = sleep
  for n in ('time', 'monotonic', 'perf_counter'):
    setattr(time, n, clock(n))


_install_locks()


# --------------------------------------------------------------------------
# Scheduling policies.


def _mix(h, seed):
  x = (h ^ seed) * 0x9E3779B1 & 0xFFFFFFFF
  x ^= x >> 15
  x = x * 0x85EBCA6B & 0xFFFFFFFF
  x ^= x >> 13
  return x


class Policy:
  """Decides at each scheduling point; built from a JSON spec."""

  def __init__(self, spec, rng):
    self.spec = spec
    self.kind = spec['kind']
    self.rng = rng
    self.budget = spec.get('max', 400)
    self.visits = {}
    k = self.kind
    if k == 'replay':
      self.at_map = {(a, b): c for a, b, c in spec['switches'] if b >= 0}
      self.end_map = {}
      for a, b, c in spec['switches']:
        if b < 0:
          self.end_map[a] = c
    elif k in ('hot', 'park', 'race'):
      self.mod = spec['mod']
      self.seed = spec['seed']
      self.r = spec.get('r', 1.0)
      self.hot_cache = {}
      self.parked = []
      self.parks = spec.get('parks', 1)
    self.since = 0

  def at(self, t, loc, op, prev):
    """Returns the index of the task to switch to, or None."""
    k = self.kind
    if k == 'none':
      return None
    if k == 'replay':
      return self.at_map.get((t.idx, t.local))
    if self.budget <= 0:
      return None
    if k == 'uniform':
      go = self.rng.random() < self.spec['p']
    elif k == 'quantum':
      self.since += 1
      go = self.since >= self.spec['q']
    elif k == 'store':
      # Right after a store to something that may be shared (or right before
      # such an access), else rarely.
      if prev in _STORE_OPS:
        go = self.rng.random() < self.spec['ps']
      elif op in _SHARED_OPS:
        go = self.rng.random() < self.spec['pl']
      else:
        go = False
    elif k == 'race':
      # Around a random subset of the stores, most often between computing what
      # is stored and storing it; rarely elsewhere.
      if op in _STORE_OPS or prev in _STORE_OPS:
        h = self.hot_cache.get(loc)
        if h is None:
          lh = env.LOC_HASH[loc] if loc >= 0 else -loc
          h = self.hot_cache[loc] = (_mix(lh, self.seed) % self.mod) == 0
        go = h and self.rng.random() < (self.r if op in _STORE_OPS else 0.3)
      else:
        go = self.rng.random() < self.spec['pl']
    elif k == 'hot':
      # A random subset of program locations is hot: preempt there.
      h = self.hot_cache.get(loc)
      if h is None:
        lh = env.LOC_HASH[loc] if loc >= 0 else -loc
        h = self.hot_cache[loc] = (_mix(lh, self.seed) % self.mod) == 0
      go = h and self.rng.random() < self.r
    elif k == 'park':
      # A task is parked at a hot location until all others are done.
      go = False
      if len(self.parked) < self.parks and t.idx not in self.parked:
        h = self.hot_cache.get(loc)
        if h is None:
          lh = env.LOC_HASH[loc] if loc >= 0 else -loc
          h = self.hot_cache[loc] = (_mix(lh, self.seed) % self.mod) == 0
        go = h and self.rng.random() < self.r
      if not go and t.idx in self.parked:
        # Do not run a parked task while another can make progress.
        go = any(x.idx not in self.parked for x in t.sim.ready_others(t))
    else:
      raise HarnessError(k)
    if not go:
      return None
    ready = t.sim.ready_others(t)
    if not ready:
      return None
    if k == 'park':
      fresh = [x for x in ready if x.idx not in self.parked]
      if t.idx not in self.parked:
        self.parked.append(t.idx)
      ready = fresh or ready
    self.budget -= 1
    self.since = 0
    return ready[self.rng.randrange(len(ready))].idx if len(ready) > 1 else ready[0].idx

  def next(self, idx, ready):
    """Chooses among `ready` after task `idx` ended or blocked."""
    if self.kind == 'replay':
      w = self.end_map.get(idx)
      for r in ready:
        if r.idx == w:
          return r
      return ready[0]
    if self.kind == 'park':
      ready = [r for r in ready if r.idx not in self.parked] or ready
    if self.kind == 'none':
      return ready[0]
    return ready[self.rng.randrange(len(ready))]


class Sim:
  """One simulated execution."""

  def __init__(self, policy, rng, faults=(), max_steps=None, stall_ok=False,
               watchdog=240, nested_ok=False):
    # Whether library code running inside a JAX trace has scheduling points.
    self.nested_ok = nested_ok
    self.policy = policy
    self.rng = rng
    self.tasks = []
    self.steps = 0
    self.clock = 0
    self.switches = []
    self.log_crc = 0
    self.log_n = 0
    self.stats = {'switches': 0, 'lock_ops': 0, 'interrupts': 0, 'blocked': 0,
                  'lock_timeouts': 0, 'stalls': 0}
    self.pairs = set()
    self.faults = {}
    self.fault_specs = []
    for f in faults:
      self.fault_specs.append(f)
    self.fired = []
    self.abort = False
    self.cur = None
    self.main = _real_lock()
    self.main.acquire()
    self.deadlock = None
    self.over = None
    self.max_steps = max_steps
    self.watchdog = watchdog
    self.trace_loc = None
    self.last_loc = {}
    self.quantum = 0
    self.now = 1.7e9
    # step faults: (task, local) -> spec ; hot faults: list
    self._step_faults = {}
    self._hot_faults = {}
    self._count_faults = {}
    self._point_faults = {}
    self._site_faults = {}
    for f in faults:
      if f.get('where') == 'site':
        self._site_faults.setdefault(f['task'], []).append(f)
      if f.get('where') == 'point':
        self._point_faults.setdefault(f['task'], []).append(f)
      if f.get('where') == 'count':
        self._count_faults.setdefault(f['task'], []).append(f)
      if 'at' in f and f.get('where', 'step') == 'step':
        self._step_faults.setdefault((f['task'], f['at']), []).append(f)
      elif f.get('where') == 'hot':
        self._hot_faults.setdefault(f['task'], []).append(f)

  # -- construction ---------------------------------------------------------
  def add(self, fn, name=''):
    t = Task(self, len(self.tasks), fn, name)
    self.tasks.append(t)
    return t

  def ready_others(self, t):
    return [x for x in self.tasks if x.state == 'ready' and x is not t]

  def begin_op(self, t, k):
    """Task `t` starts its operation number k (faults may refer to it)."""
    t.op = k
    t.deliv = 0
    t.points = 0

  # -- logging --------------------------------------------------------------
  def log(self, *ev):
    self.log_n += 1
    self.log_crc = zlib.crc32(repr(ev).encode(), self.log_crc)

  def stamp(self):
    """Global event sequence number (orders invocations and returns)."""
    self.clock += 1
    return self.clock

  # -- running --------------------------------------------------------------
  def run(self):
    install()
    for t in self.tasks:
      th = threading.Thread(target=self._body, args=(t,), daemon=True)
      t.thread = th
      th.start()
    first = self.policy.next(-1, [t for t in self.tasks if t.state == 'ready'])
    self.switches.append((-1, -1, first.idx))
    self.cur = first
    first.sem.release()
    if not self.main.acquire(timeout=self.watchdog):
      raise HarnessError('watchdog: a task neither finished nor yielded')
    for t in self.tasks:
      t.thread.join(timeout=30)
      if t.thread.is_alive():
        raise HarnessError('task did not unwind')
    for t in self.tasks:
      self.log('end', t.idx, t.local, t.state, type(t.exc).__name__)
    return self

  def _body(self, t):
    t.sem.acquire()
    _tasks[_get_ident()] = t
    try:
      if not self.abort:
        t.result = t.fn(t)
      t.state = 'done'
    except SimAbort:
      t.state = 'aborted'
    except BaseException as e:  # recorded, judged by the property
      t.exc = e
      t.state = 'done'
    finally:
      _tasks.pop(_get_ident(), None)
    self._finish(t)

  def _finish(self, t):
    self._dispatch(t.idx)

  def _dispatch(self, idx):
    """Hands control to the next task after the current one ended or blocked.

    Returns the task that got control (None: run over)."""
    if not self.abort:
      ready = [x for x in self.tasks if x.state == 'ready']
      if not ready:
        ready = self._wake_timeouts()
      if ready:
        n = self.policy.next(idx, ready)
        self.switches.append((idx, -1, n.idx))
        self.log('next', idx, n.idx)
        self.cur = n
        n.sem.release()
        return n
      blocked = [x for x in self.tasks if x.state == 'blocked']
      if blocked:
        self.deadlock = [x.idx for x in blocked]
        self.log('deadlock', self.deadlock)
      self.abort = True
    # Unwind whatever is parked, one at a time.
    for x in self.tasks:
      if x.state in ('ready', 'blocked', 'stalled'):
        x.state = 'unwinding'
        self.cur = x
        x.sem.release()
        return x
    if all(x.state in ('done', 'aborted') for x in self.tasks):
      self.main.release()
    return None

  def _wake_timeouts(self):
    out = []
    for x in self.tasks:
      if x.state == 'blocked' and x.deadline is not None:
        x.extra['timed_out'] = True
        x.waited += x.deadline
        self.now += x.deadline
        x.state = 'ready'
        self.stats['lock_timeouts'] += 1
        out.append(x)
        break
    return out

  def _park(self, t):
    t.sem.acquire()
    if self.abort:
      raise SimAbort()

  def _switch(self, t, n, loc):
    self.stats['switches'] += 1
    self.quantum = 0
    self.switches.append((t.idx, t.local, n.idx))
    self.log('sw', t.idx, t.local, n.idx, env.LOC_HASH[loc] if loc >= 0 else loc)
    self.last_loc[t.idx] = loc
    self.pairs.add((loc, self.last_loc.get(n.idx, -1)))
    self.cur = n
    n.sem.release()
    self._park(t)

  def _block(self, t, lock, timeout):
    """Parks `t` until `lock` is free; returns 'timeout' if that never is."""
    self.stats['blocked'] += 1
    t.state = 'blocked'
    t.wait_on = lock
    t.deadline = timeout if timeout is not None and timeout >= 0 else None
    self.log('block', t.idx, t.local)
    # Wake tasks whose lock has become free.
    while True:
      self._refresh_blocked()
      if t.state == 'ready':
        break
      n = self._dispatch(t.idx)
      if n is t:
        t.sem.acquire()
        if self.abort:
          raise SimAbort()
        break
      self._park(t)
      break
    t.wait_on = None
    if t.extra.pop('timed_out', False):
      t.deadline = None
      return 'timeout'
    return 'ok'

  def _refresh_blocked(self):
    for x in self.tasks:
      if x.state == 'blocked' and x.wait_on._owner is None:
        x.state = 'ready'

  # -- scheduling points ----------------------------------------------------
  def _point(self, t, label):
    t.local += 1
    self.steps += 1
    loc = -1000 - (label if isinstance(label, int) else zlib.crc32(str(label).encode()) % 100000)
    if self._point_faults or self._step_faults:
      self._maybe_point_fault(t, loc)
    self._step(t, loc, -1, t.prev)

  def _event(self, t, loc, op):
    t.local += 1
    self.steps += 1
    prev = t.prev
    t.prev = op
    if self.trace_loc is not None:
      self.trace_loc.append((t.idx, loc, op, prev))
    if self._hot_faults or self._step_faults or self._count_faults or self._site_faults:
      self._maybe_fault(t, loc, op, prev)
    self._step(t, loc, op, prev)

  def _step(self, t, loc, op, prev):
    if self.abort:
      raise SimAbort()
    if self.max_steps is not None and self.steps > self.max_steps:
      self.over = t.idx
      self.abort = True
      raise SimAbort()
    self._refresh_blocked_fast()
    w = self.policy.at(t, loc, op, prev)
    if w is None:
      # Fairness: no caller runs for ever while others are ready (busy waits).
      self.quantum += 1
      if self.quantum > FAIR and self.policy.kind != 'replay':
        self.quantum = 0
        ready = self.ready_others(t)
        if ready:
          w = ready[0].idx
    if w is not None and w != t.idx:
      if 0 <= w < len(self.tasks) and self.tasks[w].state == 'ready':
        self._switch(t, self.tasks[w], loc)

  def _yield(self, t):
    """Lets another ready task run (a sleep inside the library)."""
    t.local += 1
    self.steps += 1
    if self.abort:
      raise SimAbort()
    if self.max_steps is not None and self.steps > self.max_steps:
      self.over = t.idx
      self.abort = True
      raise SimAbort()
    self._refresh_blocked_fast()
    if self.policy.kind == 'replay':
      w = self.policy.at_map.get((t.idx, t.local))
    else:
      ready = self.ready_others(t)
      w = ready[self.rng.randrange(len(ready))].idx if ready else None
    if w is not None and w != t.idx and self.tasks[w].state == 'ready':
      self._switch(t, self.tasks[w], -11)

  def _refresh_blocked_fast(self):
    if self.stats['blocked']:
      self._refresh_blocked()

  def deliverable(self, op, prev):
    """Whether an asynchronous exception can surface at this instruction."""
    if op in _CLEANUP_OPS:
      return False               # exception handling, such as closing a generator
    return op in _BACK_OPS or prev in _CALL_OPS or prev in _RET_OPS or op in _ARITH_OPS

  def _maybe_fault(self, t, loc, op, prev):
    fs = self._step_faults.get((t.idx, t.local))
    if fs:
      for f in fs:
        if f.get('done'):
          continue
        if f['kind'] == 'stall':
          f['done'] = True
          self._stall(t, loc)
        elif t.faults_on:
          f['done'] = True
          self._raise(t, f, loc)
    cs = self._count_faults.get(t.idx)
    if cs and t.faults_on and self.deliverable(op, prev):
      t.deliv += 1
      for f in cs:
        if not f.get('done') and t.op == f['op'] and t.deliv >= f['n']:
          f['done'] = True
          f['at'] = t.local
          if f['kind'] == 'stall':
            self._stall(t, loc)
          else:
            self._raise(t, f, loc)
    ss = self._site_faults.get(t.idx)
    if ss and t.faults_on and self.deliverable(op, prev):
      h = env.LOC_HASH[loc]
      for f in ss:
        if f['loc'] != h or f.get('done') or t.op != f['op']:
          continue
        f['seen'] = f.get('seen', 0) + 1
        if f['seen'] >= f['visit']:
          f['done'] = True
          f['at'] = t.local
          if f['kind'] == 'stall':
            self._stall(t, loc)
          else:
            self._raise(t, f, loc)
    hs = self._hot_faults.get(t.idx)
    if hs and t.faults_on:
      for f in hs:
        if f.get('done'):
          continue
        if not self.deliverable(op, prev):
          continue
        if _mix(env.LOC_HASH[loc], f['seed']) % f['mod']:
          continue
        n = t.visits.get(loc, 0) + 1
        t.visits[loc] = n
        if n != f['nth']:
          continue
        f['done'] = True
        f['at'] = t.local
        if f['kind'] == 'stall':
          self._stall(t, loc)
        else:
          self._raise(t, f, loc)

  def _maybe_point_fault(self, t, loc):
    """Callers can also stall inside user code."""
    t.points += 1
    for f in self._point_faults.get(t.idx, ()):
      if not f.get('done') and t.op == f['op'] and t.points == f['n']:
        f['done'] = True
        self._stall(t, loc)
    for f in self._step_faults.get((t.idx, t.local), ()):
      if not f.get('done') and f['kind'] == 'stall':
        f['done'] = True
        self._stall(t, loc)

  def _raise(self, t, f, loc):
    self.stats['interrupts'] += 1
    t.fault_hits += 1
    e = make_exception(f['kind'])
    f['exc_id'] = id(e)
    t.extra.setdefault('injected', []).append(e)
    self.fired.append({'task': t.idx, 'at': t.local, 'kind': f['kind'], 'clock': self.clock,
                       'loc': env.LOC_NAME[loc]})
    self.log('fault', t.idx, t.local, f['kind'], env.LOC_HASH[loc])
    raise e

  def _stall(self, t, loc):
    """Parks `t` for ever (until the run is unwound)."""
    self.stats['stalls'] += 1
    self.fired.append({'task': t.idx, 'at': t.local, 'kind': 'stall', 'clock': self.clock,
                       'loc': env.LOC_NAME[loc] if loc >= 0 else 'user code'})
    self.log('stall', t.idx, t.local, env.LOC_HASH[loc] if loc >= 0 else loc)
    t.state = 'stalled'
    self._dispatch(t.idx)
    self._park(t)


class SimInterrupt(KeyboardInterrupt):
  pass


class SimMemoryError(MemoryError):
  pass


class SimTimeout(Exception):
  """An asynchronous cancellation (e.g. a request deadline)."""


class SimRuntimeError(RuntimeError):
  """Stands for a back-end runtime failure."""


class SimNotImplemented(NotImplementedError):
  pass


class SimFloatingPointError(FloatingPointError):
  pass


class SimValueError(ValueError):
  pass


class SimTypeError(TypeError):
  pass


class SimAttributeError(AttributeError):
  pass


class SimIndexError(IndexError):
  pass


class SimKeyError(KeyError):
  pass


class SimOverflow(OverflowError):
  pass


class SimZeroDiv(ZeroDivisionError):
  pass


EXC = {c.__name__: c for c in (
    SimInterrupt, SimMemoryError, SimTimeout, SimRuntimeError, SimNotImplemented,
    SimFloatingPointError, SimValueError, SimTypeError, SimAttributeError,
    SimIndexError, SimKeyError, SimOverflow, SimZeroDiv)}


def make_exception(kind):
  return EXC[kind]('injected by the simulator')


def is_injected(t, e):
  """Whether `e` is (or was caused by) an exception injected into task `t`."""
  inj = t.extra.get('injected', ())
  seen = 0
  while e is not None and seen < 10:
    if any(e is x for x in inj):
      return True
    e = e.__cause__ or e.__context__
    seen += 1
  return False
