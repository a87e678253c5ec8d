"""Simulated numeric back end: the real NumPy / JAX behind a seam at which every
operation issued by library code can be counted, perturbed or made to fail.

Seams: the `np_like` parameter the library's API has; the `jax.numpy` module
object its modules refer to; operators on arrays; `Primitive.bind`.
"""
import functools
import sys
import _thread
import types

import env
import sim
from env import jax, jnp, np

_plans = {}   # thread ident -> plan


class active:
  """Installs `plan` for the calling thread; plan(name, fn, args, kw) -> value."""

  def __init__(self, plan):
    self.plan = plan

  def __enter__(self):
    self.old = _plans.get(_thread.get_ident())
    _plans[_thread.get_ident()] = self.plan
    return self.plan

  def __exit__(self, *a):
    if self.old is None:
      _plans.pop(_thread.get_ident(), None)
    else:
      _plans[_thread.get_ident()] = self.old


_PFX = env.PKG + '/'


def _call(name, fn, args, kw):
  plan = _plans.get(_thread.get_ident())
  if plan is None or plan.busy:
    return fn(*args, **kw)
  plan.busy = True
  try:
    return plan(name, fn, args, kw)
  finally:
    plan.busy = False


_WRAP_CLASSES = (types.FunctionType, types.BuiltinFunctionType, np.ufunc, type(jnp.sin),
                 type(jnp.add), type(np.sum))
# Not operations on array contents.
_INERT = {'shape', 'ndim', 'size', 'result_type', 'dtype', 'issubdtype', 'isscalar', 'iinfo',
          'finfo', 'can_cast', 'promote_types'}


class Proxy(types.ModuleType):
  """A module whose functions go through the seam."""

  def __init__(self, base):
    super().__init__(base.__name__)
    self.__dict__['_base'] = base
    self.__dict__['_cache'] = {}

  def __getattr__(self, n):
    c = self.__dict__['_cache']
    if n in c:
      return c[n]
    v = getattr(self.__dict__['_base'], n)
    if callable(v) and not isinstance(v, type) and n not in _INERT and not n.startswith('__'):
      f = v
      pname = n

      def g(*args, **kw):
        return _call(pname, f, args, kw)
      try:
        functools.update_wrapper(g, f)
      except Exception:
        pass
      c[n] = g
      return g
    c[n] = v
    return v

  # Two views of one module compare as that module.
  def __eq__(self, o):
    return o is self or o is self.__dict__['_base'] or (
        isinstance(o, Proxy) and o.__dict__['_base'] is self.__dict__['_base'])

  def __hash__(self):
    return hash(self.__dict__['_base'])


NP = Proxy(np)
JNP = Proxy(jnp)


def proxy_of(xp):
  return NP if xp is np else JNP


def install(lib):
  """Puts the seam under the modules of a fresh copy of the library."""
  for m in lib.mods.values():
    for k, v in list(vars(m).items()):
      if v is jnp:
        setattr(m, k, JNP)
      elif v is np and not k.startswith('__'):
        setattr(m, k, NP)


# Operators on arrays, from library frames only.
_OPS = [f'__{r}{n}__' for n in ('add', 'sub', 'mul', 'truediv', 'pow', 'matmul', 'mod', 'floordiv')
        for r in ('', 'r')] + ['__neg__', '__abs__', '__lt__', '__le__', '__gt__', '__ge__',
                               '__eq__', '__ne__', '__getitem__']


def _from_lib(depth=2):
  f = sys._getframe(depth)
  return f.f_code.co_filename.startswith(_PFX)


def _patch_jax_ops():
  cls = type(jnp.zeros(1))
  for n in _OPS + ['reshape', 'sum', 'min', 'max', 'transpose', 'astype', 'dot', 'prod']:
    f = getattr(cls, n, None)
    if f is None:
      continue

    def mk(n, f):
      def g(*a, **k):
        if not _plans or not _from_lib():
          return f(*a, **k)
        return _call('op' + n, f, a, k)
      try:
        functools.update_wrapper(g, f)
      except Exception:
        pass
      return g
    try:
      setattr(cls, n, mk(n, f))
    except (TypeError, AttributeError):
      pass


def _patch_bind():
  cls = env.jex.core.Primitive
  f = cls.bind

  def bind(self, *a, **k):
    if not _plans or not _from_lib():
      return f(self, *a, **k)
    return _call('bind:' + self.name, functools.partial(f, self), a, k)
  cls.bind = bind


_patched = False


def patch():
  global _patched
  if not _patched:
    _patched = True
    _patch_jax_ops()
    _patch_bind()


class Arr(np.ndarray):
  """NumPy array whose operators go through the seam."""

  def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
    ins = tuple(x.view(np.ndarray) if isinstance(x, Arr) else x for x in inputs)
    if out is not None:
      kw['out'] = tuple(x.view(np.ndarray) if isinstance(x, Arr) else x for x in out)
    fn = getattr(ufunc, method)
    r = _call(ufunc.__name__, fn, ins, kw)
    if out is not None:
      return out[0] if len(out) == 1 else out

    return wrap(r)

  def __array_function__(self, func, types_, args, kwargs):
    r = super().__array_function__(func, types_, args, kwargs)
    return r


def wrap(v):
  """View of the NumPy arrays in `v` whose operators go through the seam."""
  if isinstance(v, tuple):
    return tuple(wrap(x) for x in v)
  if isinstance(v, list):
    return [wrap(x) for x in v]
  if isinstance(v, np.ndarray):
    return v.view(Arr)
  if isinstance(v, np.floating):
    return np.asarray(v).view(Arr)
  return v


def is_float_array(v):
  return (isinstance(v, (np.ndarray, np.generic, jax.Array))
          and not isinstance(v, jax.core.Tracer)
          and np.issubdtype(v.dtype, np.floating))


class Plan:
  """Counts the operations and applies faults to some of them.

  faults: dicts {n, scope: once|from|name, kind, elem}."""

  def __init__(self, faults=()):
    self.busy = False
    self.n = 0
    self.faults = [dict(f) for f in faults]
    self.fired = 0
    self.names = []

  def __call__(self, name, fn, args, kw):
    k = self.n
    self.n += 1
    hit = None
    for f in self.faults:
      s = f['scope']
      if s == 'once':
        m = k == f['n']
      elif s == 'from':
        m = k >= f['n']
      else:
        m = k >= f['n'] and f.get('name', name) == name
        if k == f['n']:
          f['name'] = name
          m = True
      if m:
        hit = f
        break
    if hit is None:
      return fn(*args, **kw)
    if hit['kind'] != 'nan':
      self.fired += 1
      self.names.append(name)
      raise sim.make_exception(hit['kind'])
    v = fn(*args, **kw)
    if not is_float_array(v):
      return v
    self.fired += 1
    self.names.append(name)
    a = np.array(v)
    if hit['elem'] is None or a.ndim == 0:
      a[...] = np.nan
    else:
      a.reshape(-1)[hit['elem'] % max(a.size, 1)] = np.nan
    if isinstance(v, jax.Array):
      with jax.enable_x64(a.dtype == np.float64):
        return jnp.asarray(a)
    return a


# -- rounding -----------------------------------------------------------------

_HIGH = {np.dtype(np.float32): np.float64, np.dtype(np.float64): np.longdouble}
_BASIC = {}
for _n, _f in (('add', np.add), ('subtract', np.subtract), ('multiply', np.multiply),
               ('divide', np.divide), ('true_divide', np.divide)):
  _BASIC[_n] = (_f, False)
for _n, _f in (('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('truediv', np.divide)):
  _BASIC[f'op__{_n}__'] = (_f, False)
  _BASIC[f'op__r{_n}__'] = (_f, True)
_INEXACT = {'power', 'exp', 'exp2', 'expm1', 'log', 'log1p', 'sqrt', 'tensordot', 'dot', 'matmul', 'einsum',
            'sum', 'prod', 'square', 'reciprocal', 'logaddexp', 'outer', 'op__pow__', 'op__rpow__', 'op__matmul__',
            'op__rmatmul__', 'opsum', 'opdot', 'opprod', 'bind:dot_general', 'bind:conv_general_dilated',
            'bind:reduce_sum', 'bind:reduce_window_sum', 'bind:integer_pow', 'bind:exp', 'bind:log', 'bind:logistic',
            'bind:sqrt', 'bind:rsqrt', 'bind:cbrt', 'bind:pow', 'bind:mul', 'bind:add', 'bind:sub', 'bind:div',
            'bind:custom_jvp_call', 'bind:jit', 'bind:pjit'}


class RoundPlan:
  """Rounds the last bits of every inexact back-end operation some other way.

  mode: 'up', 'down', 'away', 'rand', 'alt' or 'one' (a single operation)."""

  def __init__(self, mode, rng, ulps=1, at=0):
    self.busy = False
    self.mode = mode
    self.rng = rng
    self.nrng = np.random.default_rng(rng.randrange(1 << 30))
    self.ulps = ulps
    self.at = at
    self.n = 0
    self.fired = 0
    self.names = {}

  def __call__(self, name, fn, args, kw):
    v = fn(*args, **kw)
    if name not in _BASIC and name not in _INEXACT:
      return v
    if isinstance(v, (tuple, list)):
      return type(v)(self.bend(name, x, None) for x in v)
    return self.bend(name, v, args if not kw else None)

  def direction(self, a):
    """+1 / -1 for every element."""
    self.n += 1
    m = self.mode
    if m == 'up':
      return np.ones(a.shape)
    if m == 'down':
      return -np.ones(a.shape)
    if m == 'away':
      return np.where(a >= 0, 1., -1.)
    if m == 'alt':
      return np.full(a.shape, 1. if self.n % 2 else -1.)
    if m == 'one':
      return np.full(a.shape, (self.rng.choice([-1., 1.]) if self.n - 1 == self.at else 0.))
    return self.nrng.integers(-1, 2, a.shape).astype(np.float64)

  def bend(self, name, v, args):
    if not is_float_array(v) or v.dtype not in _HIGH or v.size == 0:
      return v
    a = np.asarray(v)
    d = self.direction(a)
    ok = np.isfinite(a) & (a != 0)
    big = np.finfo(a.dtype).max / 4
    ok &= (np.abs(a) < big) & (np.abs(a) > np.finfo(a.dtype).tiny * 8)
    out = a
    if name in _BASIC and args is not None and len(args) == 2:
      f, rev = _BASIC[name]
      try:
        h = _HIGH[a.dtype]
        x, y = np.asarray(args[0], h), np.asarray(args[1], h)
        if rev:
          x, y = y, x
        with np.errstate(all='ignore'):
          e = f(x, y)
        if e.shape != a.shape:
          return v
      except (TypeError, ValueError, jax.errors.TracerArrayConversionError):
        return v
      err = e - a.astype(h)
      ok &= err != 0        # exact results cannot be rounded differently
      # Of the two neighbours of the exact value, the one in direction d.
      up = np.where(err > 0, np.nextafter(a, np.inf, dtype=a.dtype), a)
      dn = np.where(err < 0, np.nextafter(a, -np.inf, dtype=a.dtype), a)
      out = np.where(ok, np.where(d > 0, up, np.where(d < 0, dn, a)), a)
    else:
      ok &= (a != 1) & (a != np.round(a * 64) / 64)
      out = a
      for _ in range(self.ulps):
        out = np.where(ok & (d != 0), np.nextafter(out, np.where(d > 0, np.inf, -np.inf).astype(a.dtype)), out)
      out = out.astype(a.dtype)
    ch = int((out != a).sum())
    if not ch:
      return v
    self.fired += ch
    self.names[name] = self.names.get(name, 0) + ch
    if isinstance(v, jax.Array):
      with jax.enable_x64(out.dtype == np.float64):
        return jnp.asarray(out)
    if isinstance(v, np.ndarray):
      return out.view(type(v)) if type(v) is not np.ndarray else out
    return out[()]
