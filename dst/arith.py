"""Arithmetic workload: operations on contexts, enclosures and intervals.

Operations are JSON; operands are named and described by JSON as well, so that
several threads can share one operand object.
"""
import functools

from env import np, jnp, jax

ELEM = ('exp', 'sigmoid', 'softplus', 'swish', 'abs', 'log', 'pow')


def gen_operand(rng, kind, xs, batch, deg=None, pos=False):
  """kind: 'nd' | 'iv' | 'enc' (Taylor enclosure) | 'elem' (elementwise)."""
  d = {'kind': kind, 'xs': list(xs), 'batch': list(batch),
       'seed': rng.randrange(1 << 30), 'pos': pos}
  if kind in ('enc', 'elem'):
    d['n'] = deg + 1
    # Which coefficients are intervals.
    d['iv'] = [int(rng.random() < (0.8 if i == deg else 0.15)) for i in range(deg + 1)]
    if rng.random() < 0.3:
      d['iv'] = [0] * deg + [1]
    if rng.random() < 0.15:
      d['iv'] = [0] * (deg + 1)
  if rng.random() < 0.3:
    # Python numbers, constant arrays and degenerate intervals.
    d['form'] = [rng.choice(['arr', 'arr', 'num', 'num', 'const', 'same'])
                 for _ in range(d.get('n', 1))]
    d['c'] = [rng.choice([1, 2, 1., 0.5] if pos else [1, 1, 0, -1, 2, 1., 0.5, -1., 0.])
              for _ in range(d.get('n', 1))]
  return d


def _special(d, i, v, numbers, dt):
  """Coefficient i of operand d, which is v unless d has a special form."""
  if 'form' not in d or d['form'][i] == 'arr':
    return v
  f, c = d['form'][i], d['c'][i]
  shape = np.shape(v[0] if isinstance(v, tuple) else v)
  if f == 'same':
    w = v[0] if isinstance(v, tuple) else v
    return (w, w)              # one array is both end points
  if f == 'num' and numbers and shape == ():
    return (c, c + 1) if isinstance(v, tuple) else c
  w = np.full(shape, c, dt)
  return (w, w + np.asarray(0.5, dt)) if isinstance(v, tuple) else w


def _arr(r, shape, pos, dt):
  v = r.integers(8 if pos else -96, 128 if pos else 97, size=shape) / 64.
  return np.asarray(v, dtype=dt)


def _iv(r, shape, pos, dt):
  a = _arr(r, shape, pos, dt)
  w = np.asarray(r.integers(0, 64, size=shape) / 64., dtype=dt)
  return a, a + w


def build_operand(d, xp, dt=np.float64):
  r = np.random.default_rng(d['seed'])
  def conv(v):
    if isinstance(v, tuple):
      a = conv(v[0])
      return (a, a if v[1] is v[0] else conv(v[1]))
    return v if xp is np or not isinstance(v, np.ndarray) else jnp.asarray(v)
  batch, xs = tuple(d['batch']), tuple(d['xs'])
  k = d['kind']
  if k == 'nd':
    v = _arr(r, batch, d['pos'], dt)
    return conv(v if d.get('form') == ['same'] else _special(d, 0, v, False, dt))
  if k == 'iv':
    return conv(_special(d, 0, _iv(r, batch, d['pos'], dt), False, dt))
  out = []
  for i in range(d['n']):
    shape = batch + (xs * i if k == 'enc' else ())
    pos = d['pos'] and i == 0
    v = _iv(r, shape, pos, dt) if d['iv'][i] else _arr(r, shape, pos, dt)
    if d.get('form', [0] * 9)[i] != 'same' or d['iv'][i]:
      # Where numbers stand for arrays of any shape.
      v = _special(d, i, v, not (xs and i and k == 'enc'), dt)
    out.append(conv(v))
  return tuple(out)


def gen_ctx(rng, backend=None, xs=None, deg=None):
  xs = xs if xs is not None else rng.choice([[], [2], [2]])
  n = 2 if xs else 1
  lo = [-rng.randrange(8, 96) / 64 for _ in range(n)]
  hi = [rng.randrange(8, 96) / 64 for _ in range(n)]
  if not xs:
    lo, hi = lo[0], hi[0]
  return {'backend': backend or rng.choice(['np', 'np', 'jnp']),
          'deg': deg if deg is not None else rng.choice([0, 1, 2, 2, 3]),
          'xs': list(xs), 'lo': lo, 'hi': hi}


def xp_of(c):
  return np if c['backend'] == 'np' else jnp


def build_ctx(lib, c, np_like=None, dt=np.float64):
  xp = np_like if np_like is not None else xp_of(c)
  base = xp_of(c)
  tr = (base.asarray(np.array(c['lo'], dt)), base.asarray(np.array(c['hi'], dt)))
  return lib.ea.TaylorEnclosureArithmetic(c['deg'], tr, xp)


_TEA = ('add', 'subtract', 'multiply', 'divide', 'negative', 'power', 'bilinear',
        'compose', 'elem', 'enclose', 'eval', 'asenc', 'map')
_IA = ('i_add', 'i_subtract', 'i_multiply', 'i_negative', 'i_power', 'i_outer_power',
       'i_outer_product', 'i_tensordot', 'i_bilinear', 'i_shape')
_FN = ('f_enclosure', 'f_pow_enclosure', 'f_range', 'f_coeffs', 'f_mono', 'f_eval_elem',
       'f_ipow', 'f_pbilinear')


def gen_op(rng, ctx, pool, kinds=None, ci=0, reuse=0.6, mix=0.):
  """A random operation on context `ctx` (number `ci`), with operands drawn
  from / added to `pool` (dict name -> operand description)."""
  xs = tuple(ctx['xs'])

  def operand(kind, batch, deg=None, pos=False):
    cands = [n for n, d in pool.items()
             if d['kind'] == kind and tuple(d['batch']) == tuple(batch)
             and tuple(d['xs']) == xs and d['pos'] == pos and d['ctx'] == ci
             and (deg is None or d.get('n') == deg + 1)]
    if cands and rng.random() < reuse:
      return rng.choice(cands)
    if deg is None and kind in ('enc', 'elem'):
      deg = rng.randrange(0, ctx['deg'] + 1)
    n = f'o{len(pool)}'
    pool[n] = gen_operand(rng, kind, xs, batch, deg, pos)
    pool[n]['ctx'] = ci
    return n

  batch = rng.choice([(), (3,), (3,)])
  name = rng.choice(list(kinds) if kinds else list(_TEA) * 2 + list(_IA) + list(_FN))
  o = {'op': 'arith', 'name': name, 'ctx': ci}
  if name in ('add', 'subtract', 'multiply'):
    other = () if rng.random() < mix else batch   # broadcasting
    o['a'], o['b'] = operand('enc', other), operand('enc', batch)
    if rng.random() < 0.5:
      o['a'], o['b'] = o['b'], o['a']
  elif name == 'divide':
    o['a'] = operand('enc', batch)
    o['b'] = operand('enc', batch, pos=True)
  elif name in ('negative', 'asenc', 'map'):
    o['a'] = operand('enc', batch)
  elif name == 'power':
    o['p'] = rng.choice([0, 1, 2, 2, 3, 3, 4, -1, 2.5, -.5])
    o['a'] = operand('enc', batch, pos=o['p'] not in (0, 1, 2, 3, 4))
  elif name == 'bilinear':
    o['a'], o['b'] = operand('enc', (3,)), operand('enc', (3,))
  elif name == 'compose':
    o['a'] = operand('elem', batch, deg=ctx['deg'])
    o['b'] = operand('enc', batch)
  elif name == 'elem':
    o['f'] = rng.choice(['exp', 'sigmoid', 'softplus', 'swish', 'abs', 'log', 'pow'])
    if o['f'] == 'abs' and ctx['deg'] > 1:
      o['f'] = 'exp'
    o['p'] = rng.choice([-1, 3, 2.5, -.5])
    if ctx['deg'] == 0:
      batch = tuple(batch)
    o['a'] = operand('enc', batch, pos=True)
    o['tr'] = rng.random() < 0.3
  elif name == 'enclose':
    o['a'] = operand('enc', batch)
    o['k'] = rng.randrange(0, ctx['deg'] + 1)
  elif name == 'eval':
    o['a'] = operand('enc', batch)
    o['z'] = [rng.randrange(-64, 65) / 64 for _ in range(2 if xs else 1)]
    o['ivz'] = rng.random() < 0.4
  elif name in ('i_add', 'i_subtract', 'i_multiply', 'i_outer_product', 'i_bilinear', 'i_tensordot'):
    o['a'] = operand(rng.choice(['nd', 'iv', 'iv']), (3,))
    o['b'] = operand(rng.choice(['nd', 'iv', 'iv']), (3,))
    o['axes'] = rng.choice([0, 1])
    o['bd'] = rng.choice([0, 0, 1])
  elif name in ('i_negative', 'i_shape'):
    o['a'] = operand(rng.choice(['nd', 'iv']), (3,))
  elif name in ('i_power', 'i_outer_power'):
    o['p'] = rng.choice([0, 1, 2, 2, 3, 4])
    if name == 'i_power' and rng.random() < 0.35:
      o['p'] = rng.choice([-1, -2, 0.5, 2.5])
    o['a'] = operand(rng.choice(['nd', 'iv', 'iv']), batch, pos=o['p'] != int(o['p']))
    o['bd'] = rng.choice([0, 0, 1]) if batch else 0
  elif name in ('f_enclosure', 'f_range', 'f_coeffs', 'f_mono'):
    o['f'] = rng.choice(['exp', 'sigmoid', 'softplus', 'swish', 'swish', 'softplus', 'abs', 'log'])
    o['k'] = rng.randrange(0, 4)
    if o['f'] == 'abs':
      o['k'] = min(o['k'], 1)
    o['a'] = operand('iv', batch, pos=o['f'] == 'log')
  elif name == 'f_pow_enclosure':
    o['p'] = rng.choice([-1, 2, 3, .5, 2.5])
    o['k'] = rng.randrange(0, 4)
    o['a'] = operand('iv', batch, pos=True)
  elif name == 'f_eval_elem':
    o['a'] = operand('elem', batch)
    o['b'] = operand(rng.choice(['nd', 'iv']), batch)
  elif name == 'f_ipow':
    o['a'] = operand('enc', ())
    o['p'] = rng.randrange(0, 4)
  elif name == 'f_pbilinear':
    o['a'], o['b'] = operand('enc', ()), operand('enc', ())
  return o


_PE = {'exp': 'exp_enclosure', 'sigmoid': 'sigmoid_enclosure', 'softplus': 'softplus_enclosure',
       'swish': 'swish_enclosure', 'abs': 'abs_enclosure', 'log': 'log_enclosure'}
_EF = {'exp': 'EXP', 'sigmoid': 'SIGMOID', 'softplus': 'SOFTPLUS', 'swish': 'SWISH',
       'abs': 'ABS', 'log': 'LOG'}


def enclosure_fun(lib, o):
  if o['f'] == 'pow':
    return functools.partial(lib.pe.pow_enclosure, o['p'])
  return getattr(lib.pe, _PE[o['f']])


def exec_op(lib, o, ctx, xp, np_like, vals, hook=None):
  """Runs operation `o` on context object `ctx` through the public API.

  hook: called inside user callbacks (bilinear functions, mapped functions)."""
  n = o['name']
  a = vals[o['a']] if 'a' in o else None
  b = vals[o['b']] if 'b' in o else None
  ia = ctx.set_arithmetic if ctx is not None else lib.ia.IntervalArithmetic(np_like)
  if n in ('add', 'subtract', 'multiply', 'divide'):
    return getattr(ctx, n)(a, b)
  if n == 'negative':
    return ctx.negative(a)
  if n == 'asenc':
    return lib.ea.as_taylor_enclosure(a, np_like)
  if n == 'map':
    def m(c):
      if hook:
        hook()
      return c * 2
    return lib.ea.map_over_enclosure(a, m)
  if n == 'power':
    return ctx.power(a, o['p'])
  if n == 'bilinear':
    # (3,)-batched dot product with a fixed reversal: u, v -> u * reversed(v).
    def bil(u, v, p, q):
      if hook:
        hook()
      u, v = xp.asarray(u), xp.asarray(v)
      w = v[::-1]
      if u.shape[0] == 1 or u.ndim == 0:
        return u * w
      uu = u.reshape(u.shape + (1,) * q)
      vv = w.reshape(w.shape[:w.ndim - q] + (1,) * p + w.shape[w.ndim - q:])
      return uu * vv
    return ctx.arbitrary_bilinear(a, b, bil)
  if n == 'compose':
    return ctx.compose_enclosures(a, b)
  if n == 'elem':
    f = ctx.get_elementwise_fun(enclosure_fun(lib, o))
    if ctx.max_degree == 0 or not o['tr']:
      return f(a)
    c0 = a[0]
    lo, hi = (c0 if isinstance(c0, tuple) else (c0, c0))
    return f(a, (lo - 0.125 * (lo > 0.25), hi + 1.))
  if n == 'enclose':
    return lib.ea.enclose_enclosure(a, ctx.trust_region, o['k'], np_like)
  if n == 'eval':
    z = np.asarray(o['z'] if ctx.trust_region[0].ndim else o['z'][0])
    z = xp.asarray(z)
    return lib.poly.eval_taylor_enclosure(a, (z, z + 0.25) if o['ivz'] else z, np_like)
  if n in ('i_add', 'i_subtract', 'i_multiply'):
    return getattr(ia, n[2:])(a, b)
  if n == 'i_negative':
    return ia.negative(a)
  if n == 'i_shape':
    return (ia.shape(a), ia.ndim(a))
  if n == 'i_power':
    return ia.power(a, o['p'])
  if n == 'i_outer_power':
    return ia.outer_power(a, o['p'], o['bd'])
  if n == 'i_outer_product':
    return ia.outer_product(a, b, o['bd'])
  if n == 'i_tensordot':
    return ia.tensordot(a, b, o['axes'])
  if n == 'i_bilinear':
    def bil2(u, v):
      if hook:
        hook()
      return xp.asarray(u) * xp.asarray(v)[::-1]
    return ia.arbitrary_bilinear(a, b, bil2)
  if n in ('f_enclosure', 'f_pow_enclosure'):
    f = enclosure_fun(lib, o) if n == 'f_enclosure' else functools.partial(lib.pe.pow_enclosure, o['p'])
    return f((a[0] + a[1]) / 2, (a[0], a[1]), o['k'], np_like)
  if n == 'f_range':
    return lib.ef.get_range(getattr(lib.ef, _EF[o['f']]).derivative_id(o['k']), a, np_like)
  if n == 'f_coeffs':
    return tuple(lib.ef.get_taylor_polynomial_coefficients(
        getattr(lib.ef, _EF[o['f']]), o['k'], a[0], np_like))
  if n == 'f_mono':
    fid = getattr(lib.ef, _EF[o['f']]).derivative_id(o['k'])
    return lib.ef.get_function_data(fid).monotone_over(a, np_like)
  if n == 'f_eval_elem':
    return lib.poly.eval_elementwise_taylor_enclosure(a, b, np_like)
  if n == 'f_ipow':
    s = lib.ia.IntervalArithmetic(np_like)
    a = tuple(c if not isinstance(c, tuple) else c for c in a) if not ctx_xs(ctx) else a[:1]
    return lib.poly.integer_power(
        a, o['p'], s.add, np_like.asarray(0), np_like.asarray(1),
        lambda u, v, i, j: s.multiply(u, v),
        lambda u, i, j: s.power(u, j), s.multiply)
  if n == 'f_pbilinear':
    s = lib.ia.IntervalArithmetic(np_like)
    if ctx_xs(ctx):
      a, b = a[:1], b[:1]
    return lib.poly.arbitrary_bilinear(a, b, s.add, np_like.asarray(0),
                                       lambda u, v, i, j: s.multiply(u, v))
  raise AssertionError(n)


def ctx_xs(ctx):
  return ctx is not None and ctx.trust_region[0].ndim > 0
