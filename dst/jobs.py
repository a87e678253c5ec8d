"""Workload library: functions to bound, jobs, and canonical results.

A job is plain JSON.  `build_fn(name)` returns a *new* function object each
time, so that JAX's own per-function caches never connect two runs.
"""
import math
import zlib

import env
import progs
from env import jax, jnp, np

# --------------------------------------------------------------------------
# Harness primitives with registrable enclosures.

PRIM_N = 4
PRIMS = []


def _mk_prim(i):
  p = env.jex.core.Primitive(f'harness_prim_{i}')
  p.def_abstract_eval(lambda x: jax.core.ShapedArray(x.shape, x.dtype))
  p.def_impl(lambda x: x)
  return p


for _i in range(PRIM_N):
  PRIMS.append(_mk_prim(_i))


PRIMS.append(jax.lax.exp_p)   # re-registering a primitive that has an enclosure


def call_prim(i):
  p = PRIMS[i]
  return lambda x: p.bind(jnp.asarray(x))


# --------------------------------------------------------------------------
# Functions.  dom: 'any' or 'pos' (argument must stay positive).

def _w(k, *shape):
  """Fixed, irregular constants."""
  n = int(np.prod(shape))
  v = np.array([math.sin(1.7 * i + 0.3 + k) for i in range(1, n + 1)])
  return np.asarray(v.reshape(shape), dtype=np.float32)


def _mlp(k):
  w1, b1, w2 = _w(k, 3, 2), _w(k + 1, 3), _w(k + 2, 2, 3)

  def f(x):
    h = jax.nn.swish(jnp.dot(w1, x) + b1)
    return jnp.sum((jnp.dot(w2, h) - 1.) ** 2)
  return f


def _quad(k):
  a = _w(k, 2, 2)

  def f(x):
    return jnp.dot(x, jnp.dot(a, x)) + jnp.sum(x)
  return f


def _conv():
  ker = _w(3, 1, 1, 2)

  def f(x):
    lhs = (x * jnp.asarray(_w(4, 1, 1, 3)))
    return jnp.sum(jax.lax.conv_general_dilated(lhs, jnp.asarray(ker, lhs.dtype), (1,), 'VALID') ** 2)
  return f


def _jitted():
  g = jax.jit(lambda x: jnp.exp(-x) * 2.)

  def f(x):
    return g(x) * jax.nn.sigmoid(g(x)) + x
  return f


_C3 = _w(9, 3)
_M32 = _w(5, 3, 2)

_B = np.asarray(np.arange(12).reshape(2, 3, 2) / 4. - 1., np.float32)


def _conv2():
  def f(x):
    lhs = (x * _C3).reshape(1, 1, 3)
    rhs = (jnp.exp(x) * _C3[:2]).reshape(1, 1, 2)
    return jax.lax.conv_general_dilated(lhs, rhs, (1,), 'VALID')
  return f


def _conv2d():
  def f(x):
    return jax.lax.conv_general_dilated((x * _M32).reshape(1, 1, 3, 2),
                                        (x * _M32[:2]).reshape(1, 1, 2, 2), (1, 1), 'SAME')
  return f


def _consts():
  c = jnp.sort(jnp.asarray(_C3))
  def f(x):
    k = jnp.sort(-jnp.asarray(_C3))
    return x * k[0] + jnp.max(jax.nn.relu(c)) * jnp.exp(x)
  return f


# name: (kind, dom, builder).  kind: 's' scalar argument, 'v' vector argument
# of length 2, 'b' both.
class Table(dict):
  """Functions by name, including random programs."""

  def get(self, name, default=None):
    if name.startswith('rp'):
      return ('v' if name[-1] == 'v' else 's', 'any', lambda: progs.build(progs.named(name)))
    return dict.get(self, name, default)

  def __getitem__(self, name):
    return self.get(name) or dict.__getitem__(self, name)

  def __contains__(self, name):
    return name.startswith('rp') or dict.__contains__(self, name)


FUNCS = Table({
    'exp': ('b', 'any', lambda: lambda x: jnp.exp(x)),
    'abs': ('b', 'any', lambda: lambda x: jnp.abs(x)),
    'log': ('b', 'pos', lambda: lambda x: jnp.log(x)),
    'sqrt': ('b', 'pos', lambda: lambda x: jnp.sqrt(x)),
    'rsqrt': ('b', 'pos', lambda: lambda x: jax.lax.rsqrt(x * 1.)),
    'cbrt': ('b', 'pos', lambda: lambda x: jax.lax.cbrt(x * 1.)),
    'sigmoid': ('b', 'any', lambda: lambda x: jax.nn.sigmoid(x)),
    'softplus': ('b', 'any', lambda: lambda x: jax.nn.softplus(x)),
    'swish': ('b', 'any', lambda: lambda x: jax.nn.swish(x)),
    'sq': ('b', 'any', lambda: lambda x: x ** 2),
    'cube': ('b', 'any', lambda: lambda x: x ** 3),
    'pow4': ('b', 'any', lambda: lambda x: x ** 4 - x),
    'inv': ('b', 'pos', lambda: lambda x: 1. / x),
    'pow25': ('b', 'pos', lambda: lambda x: x ** 2.5),
    'inv2': ('b', 'any', lambda: lambda x: 1. / (1. + x ** 2)),
    'expsq': ('b', 'any', lambda: lambda x: jnp.exp(-(x * x)) + x),
    'lse': ('b', 'any', lambda: lambda x: jnp.log(1. + jnp.exp(x))),
    'sigswish': ('b', 'any', lambda: lambda x: jax.nn.sigmoid(x) * jax.nn.swish(x - 1.)),
    'split': ('b', 'any', lambda: lambda x: jax.nn.softplus(jax.nn.sigmoid(x) * 3.) - x),
    'affine': ('b', 'any', lambda: lambda x: 3. - 2. * x),
    'neg': ('b', 'any', lambda: lambda x: -x),
    'const': ('s', 'any', lambda: lambda x: 2. + 0. * x),
    'vec': ('s', 'any', lambda: lambda x: jnp.exp(x * _C3)),
    'reshape': ('s', 'any', lambda: lambda x: (jnp.sin(0.) + x * jnp.array([[1.], [2.]])).reshape(-1)),
    'transp': ('s', 'any', lambda: lambda x: jnp.transpose(jnp.exp(x) * _M32)),
    'vecsum': ('s', 'any', lambda: lambda x: jnp.sum((x * _C3) ** 2)),
    'conv': ('s', 'any', _conv),
    'jitted': ('b', 'any', _jitted),
    'norm': ('s', 'pos', lambda: lambda x: jnp.linalg.norm(x * _C3)),
    'mlp0': ('v', 'any', lambda: _mlp(0)),
    'mlp1': ('v', 'any', lambda: _mlp(7)),
    'quad0': ('v', 'any', lambda: _quad(0)),
    'quad1': ('v', 'any', lambda: _quad(4)),
    'dot': ('v', 'any', lambda: lambda x: jnp.dot(_M32, jnp.exp(x))),
    'sumsig': ('v', 'any', lambda: lambda x: jnp.sum(jax.nn.sigmoid(x) * x)),
    'smat': ('s', 'any', lambda: lambda x: jnp.dot(x * _M32, jnp.exp(x) * _M32.T)),
    'sbatch': ('s', 'any', lambda: lambda x: jnp.einsum('bij,bj->bi', x * _B, jnp.exp(x) * _B[:, 0])),
    'spool': ('s', 'any', lambda: lambda x: jax.lax.reduce_window(
        jnp.exp(x * _C3), 0., jax.lax.add, (2,), (1,), 'VALID')),
    'ssqueeze': ('b', 'any', lambda: lambda x: jnp.squeeze(jnp.exp(x * _M32[None]), 0)),
    'conv2': ('s', 'any', _conv2),
    'conv2d': ('s', 'any', _conv2d),
    'vdotself': ('v', 'any', lambda: lambda x: jnp.dot(jnp.exp(x), x ** 2)),
    'vouter': ('v', 'any', lambda: lambda x: jnp.exp(x)[:, None] * _C3[None, :]),
    'vsum': ('v', 'any', lambda: lambda x: jnp.sum(jnp.exp(x)[None, :] * _M32, axis=1)),
    'vbatch': ('v', 'any', lambda: lambda x: jax.vmap(jnp.dot)(x[:, None] * _C3[None, :], _B)),
    'vmat': ('v', 'any', lambda: lambda x: jnp.dot(x[:, None] * _M32[:2], (jnp.exp(x)[:, None] * _M32[1:]))),
    'vten': ('v', 'any', lambda: lambda x: jnp.tensordot(
        x[:, None] * _M32[:2], jnp.exp(x)[:, None] * _M32[1:], axes=[[0], [1]])),
    'div': ('b', 'any', lambda: lambda x: (x + 3.) / (x * x + 2.)),
    'powf': ('b', 'any', lambda: lambda x: (x * x + 1.) ** 1.5),
    'mean': ('b', 'any', lambda: lambda x: jnp.mean(jnp.exp(x))),
    'divc': ('b', 'any', lambda: lambda x: x / np.float32(3.) - x ** 2 / np.float32(5.)),
    'neg1': ('b', 'nz', lambda: lambda x: x ** -1.),
    'ipow3': ('b', 'nz', lambda: lambda x: x ** -3),
    'ipow2': ('b', 'nz', lambda: lambda x: x ** -2.),
    'softmaxish': ('v', 'any', lambda: lambda x: jnp.exp(x) / jnp.sum(jnp.exp(x))),
    'silu': ('b', 'any', lambda: lambda x: jax.nn.silu(x * 1.5) + x),
    'logsig': ('b', 'any', lambda: lambda x: jax.nn.log_sigmoid(x)),
    'sigm2': ('b', 'any', lambda: lambda x: jax.nn.sigmoid(2. * x + 1.)),
    'bcast': ('b', 'any', lambda: lambda x: jnp.broadcast_to(jnp.exp(x), (3,) + jnp.shape(x)) * _w(2, 3, 1)
              if jnp.ndim(x) else jnp.broadcast_to(jnp.exp(x), (3,)) * _C3),
    'consts': ('b', 'any', _consts),
    'sqrtsq': ('b', 'any', lambda: lambda x: jnp.sqrt(x * x + 1.)),
    'logexp': ('b', 'any', lambda: lambda x: jnp.log(jnp.exp(x) + jnp.exp(-x))),
    'absexp': ('b', 'any', lambda: lambda x: jnp.abs(x) + jnp.exp(jnp.abs(x - 1.))),
    'pow0': ('b', 'any', lambda: lambda x: x ** 0 + x ** 1 + 2. * x ** 2),
    'pow5': ('b', 'any', lambda: lambda x: (x - 0.5) ** 5),
    'poww': ('b', 'pos', lambda: lambda x: x ** 0.5 - x ** -1.5),
    'zoo': ('b', 'any', lambda: lambda x: (
        jax.nn.sigmoid(x) + jax.nn.softplus(x) * 0.5 - jax.nn.swish(x) + jnp.exp(-x) + jnp.abs(x)
        + jnp.sqrt(x ** 2 + 1.) + x ** 3)),
    'prim0': ('b', 'any', lambda: call_prim(0)),
    'prim1': ('b', 'any', lambda: call_prim(1)),
    'prim01': ('b', 'any', lambda: (lambda a, b: lambda x: a(x) + b(x) * b(a(x)))(call_prim(0), call_prim(1))),
    'prim02': ('b', 'any', lambda: (lambda a, b: lambda x: a(x) * 2. - b(x) + a(-x))(call_prim(0), call_prim(2))),
    'nested': ('b', 'any', lambda: (lambda a, b: lambda x: jax.jit(lambda y: a(b(y)) + a(y))(x) - b(x))(call_prim(0), call_prim(1))),
    'prim0exp': ('b', 'any', lambda: (lambda a: lambda x: a(x) * 2. + jnp.exp(a(x)))(call_prim(0))),
    'primexp': ('b', 'any', lambda: (lambda a: lambda x: jnp.exp(a(x)) + x)(call_prim(2))),
})

# Functions no caller can bound: each call fails (deterministically).
BAD = {
    'bad_tanh': ('b', 'any', lambda: lambda x: jnp.tanh(x)),
    'bad_sin': ('b', 'any', lambda: lambda x: jnp.exp(jnp.sin(x))),
    'bad_where': ('b', 'any', lambda: lambda x: jnp.where(x > 0, x, jnp.exp(x))),
    'bad_raise': ('b', 'any', lambda: _raising),
    'bad_varpow': ('b', 'pos', lambda: lambda x: x ** x),
    'bad_cat': ('v', 'any', lambda: lambda x: jnp.concatenate([x, jnp.exp(x)])),
}


class UserError(Exception):
  """Raised by a user's function."""


def _raising(x):
  jnp.exp(x)
  raise UserError('user function failed')


def build_fn(name):
  return (FUNCS.get(name) or BAD[name])[2]()


_MAXDEG = {'abs': 1, 'absexp': 1, 'zoo': 1}
_HEAVY = {'mlp0', 'mlp1', 'quad0', 'quad1', 'dot', 'conv', 'transp', 'sigswish', 'split',
          'jitted', 'vec', 'norm', 'smat', 'sbatch', 'spool', 'ssqueeze', 'conv2', 'conv2d',
          'vdotself', 'vouter', 'vsum', 'vbatch', 'vmat', 'vten', 'softmaxish', 'bcast', 'consts',
          'div', 'logexp', 'absexp', 'sqrtsq', 'zoo', 'prim01', 'prim02', 'nested'}
PRIM_FNS = ('prim0', 'prim1', 'prim01', 'prim02', 'nested', 'prim0exp', 'primexp')


def gen_job(rng, names=None, x64=None, degs=(0, 1, 2, 3), args=('py', 'np', 'jax'),
            vec=None, bad=0.0, programs=0.0):
  """A random bounding job."""
  if bad and rng.random() < bad:
    name = rng.choice(sorted(BAD))
    kind, dom, _ = BAD[name]
  else:
    if names is None:
      names = [n for n in FUNCS if n not in PRIM_FNS]
    name = rng.choice(list(names))
    if programs and rng.random() < programs:
      name = f'rp{rng.randrange(1000)}{rng.choice("sv")}'
    kind, dom, _ = FUNCS.get(name) or BAD[name]
  if vec is None:
    v = kind == 'v' or (kind == 'b' and rng.random() < 0.35)
  else:
    v = vec if kind == 'b' else kind == 'v'
  deg = min(rng.choice(list(degs)), _MAXDEG.get(name, 9))
  if name in _HEAVY or name.startswith('rp'):
    deg = min(deg, 2)
  j = {'op': 'bound', 'fn': name, 'deg': deg, 'prop': rng.random() < 0.5, 'vec': v}
  if v and kind == 'b' and name != 'ssqueeze' and rng.random() < 0.3:
    j['n'] = rng.choice([1, 3])
  set_point(rng, j, dom)
  j['arg'] = rng.choice(list(args))
  j['x64'] = (rng.random() < 0.4) if x64 is None else x64
  return j


def probe_job(rng):
  """A call that uses many parts of the library (cheap once compiled)."""
  return {'op': 'bound', 'fn': 'zoo', 'deg': 1, 'prop': rng.random() < 0.3, 'vec': False, 'x0': 0.5,
          'lo': 0., 'hi': 1., 'arg': 'jax', 'x64': rng.random() < 0.5}


def set_point(rng, j, dom=None):
  """Chooses centre and region for job `j` (multiples of 1/64: exact floats)."""
  if dom is None:
    dom = (FUNCS.get(j['fn']) or BAD[j['fn']])[1]
  n = j.get('n', 2) if j['vec'] else 1
  x0, lo, hi = [], [], []
  for _ in range(n):
    if dom in ('pos', 'nz'):
      a = rng.randrange(16, 96) / 64
      b = a + rng.randrange(8, 160) / 64
    else:
      a = rng.randrange(-160, 96) / 64
      b = a + rng.randrange(8, 192) / 64
    c = a + (b - a) * rng.choice([0.25, 0.5, 0.5, 0.75, 0.375])
    x0.append(c)
    lo.append(a)
    hi.append(b)
  if j['vec']:
    j['x0'], j['lo'], j['hi'] = x0, lo, hi
  else:
    j['x0'], j['lo'], j['hi'] = x0[0], lo[0], hi[0]


def near_job(rng, j):
  """A job that differs from `j` in one aspect only."""
  k = dict(j)
  dom = (FUNCS.get(j['fn']) or BAD[j['fn']])[1]
  c = rng.choice(['x0', 'region', 'deg', 'prop', 'x64', 'arg', 'point', 'fn', 'vec', 'same'])
  if c == 'x0':
    f = rng.choice([0.25, 0.5, 0.75, 0.625])
    if j['vec']:
      k['x0'] = [a + (b - a) * f for a, b in zip(j['lo'], j['hi'])]
    else:
      k['x0'] = j['lo'] + (j['hi'] - j['lo']) * f
  elif c == 'region':
    f = rng.choice([0.5, 0.25, 0.75])
    if j['vec']:
      k['lo'] = [x - (x - a) * f for x, a in zip(j['x0'], j['lo'])]
      k['hi'] = [x + (b - x) * f for x, b in zip(j['x0'], j['hi'])]
    else:
      k['lo'] = j['x0'] - (j['x0'] - j['lo']) * f
      k['hi'] = j['x0'] + (j['hi'] - j['x0']) * f
  elif c == 'deg':
    lim = 2 if j['fn'] in _HEAVY or j['fn'].startswith('rp') else 3
    lim = min(lim, _MAXDEG.get(j['fn'], 9))
    k['deg'] = rng.randrange(0, lim + 1)
  elif c == 'prop':
    k['prop'] = not j['prop']
  elif c == 'x64':
    k['x64'] = not j['x64']
  elif c == 'arg':
    k['arg'] = rng.choice(['py', 'np', 'jax'])
  elif c == 'point':
    set_point(rng, k, dom)
  elif c == 'fn':
    same = [n for n, (kd, dm, _) in FUNCS.items()
            if n not in PRIM_FNS and n not in _HEAVY and n not in _MAXDEG
            and dm == 'any' and (kd == 'b' or (j.get('n', 2) == 2 and (kd == 'v') == bool(j['vec'])))]
    if dom == 'any' or rng.random() < 0.5:
      k['fn'] = rng.choice(same)
  elif c == 'vec':
    kind = (FUNCS.get(j['fn']) or BAD[j['fn']])[0]
    if kind == 'b':
      k['vec'] = not j['vec']
      set_point(rng, k, dom)
  return k


# --------------------------------------------------------------------------
# Arguments and canonical results.

def make_args(j, wrap=None):
  """Returns (x0, (lo, hi)) as the caller would pass them.  Must run under the
  job's precision setting."""
  dt = np.float64 if j['x64'] != bool(j.get('odd')) else np.float32
  kind = j['arg']
  if j['vec'] and kind == 'py':
    kind = 'jax'   # lists are not arrays

  def mk(v):
    if kind == 'py':
      return float(v)
    if kind == 'np':
      return np.array(v, dtype=dt)
    return jnp.asarray(np.array(v, dtype=dt))
  return mk(j['x0']), (mk(j['lo']), mk(j['hi']))


LAYOUTS = ('aligned', 'aligned', 'rows', 'strided', 'odd', 'own')


def laid_out(j, layout):
  """Mutable arrays (x0, lo, hi) in buffers with a chosen memory layout."""
  dt = np.dtype(np.float64 if j['x64'] else np.float32)
  vals = [np.asarray(j[k], dtype=dt) for k in ('x0', 'lo', 'hi')]
  n = max(vals[0].size, 1)

  def at(size, off):
    raw = np.empty(size * dt.itemsize + 192, dtype=np.uint8)
    start = (-raw.ctypes.data) % 64 + off
    return raw[start:start + size * dt.itemsize].view(dt)
  out = []
  if layout == 'rows':
    b = at(3 * n, 0).reshape(3, n)
    out = [b[i].reshape(v.shape) if v.ndim else b[i, 0:1].reshape(()) for i, v in enumerate(vals)]
  elif layout == 'strided':
    b = at(6 * n, 0).reshape(n, 6)
    out = [b[:, i] if v.ndim else b[0, i:i + 1].reshape(()) for i, v in enumerate(vals)]
  elif layout == 'own':
    out = [np.empty(v.shape, dt) for v in vals]
  else:
    off = 0 if layout == 'aligned' else dt.itemsize
    out = [at(n, off).reshape(v.shape) for v in vals]
  for o, v in zip(out, vals):
    o[...] = v
  return out


class prec:
  """Thread-local precision setting for a job."""

  def __init__(self, x64):
    self.cm = jax.enable_x64(bool(x64))

  def __enter__(self):
    return self.cm.__enter__()

  def __exit__(self, *a):
    return self.cm.__exit__(*a)


class noprec:
  """Leaves the precision setting alone."""

  def __enter__(self):
    pass

  def __exit__(self, *a):
    pass


def canon(v):
  """Structure, dtype, shape and bytes of a result, as a hashable value."""
  if isinstance(v, tuple):
    return ('T',) + tuple(canon(x) for x in v)
  if isinstance(v, list):
    return ('L',) + tuple(canon(x) for x in v)
  if isinstance(v, dict):
    return ('D',) + tuple((k, canon(x)) for k, x in sorted(v.items()))
  if v is None or isinstance(v, (bool, str)):
    return v
  if isinstance(v, (int, float)):
    return (type(v).__name__, repr(v))
  if isinstance(v, BaseException):
    return ('E', type(v).__name__)
  if isinstance(v, jax.core.Tracer):
    return ('TRACER',)
  try:
    a = np.asarray(v)
  except Exception as e:  # e.g. deleted or leaked arrays
    return ('UNREADABLE', type(e).__name__)
  if a.dtype == object:
    return ('OBJ', type(v).__name__)
  a = np.ascontiguousarray(a)
  b = a.tobytes()
  if a.dtype.kind == 'f' and np.isnan(a).any():
    # NaN payload and sign carry no meaning.
    a = a.copy()
    a[np.isnan(a)] = np.nan
    b = a.tobytes()
  return ('A', str(a.dtype), a.shape, b)


def show(c, n=400):
  """Short readable rendering of a canonical value."""
  def r(c):
    if isinstance(c, tuple) and c and c[0] == 'A':
      a = np.frombuffer(c[3], dtype=c[1]).reshape(c[2])
      return f'{a.tolist()}:{c[1]}'
    if isinstance(c, tuple) and c and c[0] in ('T', 'L'):
      return '(' + ', '.join(r(x) for x in c[1:]) + ')'
    return repr(c)
  s = r(c)
  return s if len(s) <= n else s[:n] + '...'


def crc(c):
  return zlib.crc32(repr(c).encode())
