"""Random array programs: the same program for JAX (to be bounded) and, written
independently, for NumPy in extended precision."""
import functools
import random

import env
from env import jax, jnp, np

LD = np.longdouble
MAXSIZE = 18


def const(seed, shape):
  r = random.Random(seed)
  n = int(np.prod(shape)) if shape else 1
  v = [r.choice([-12, -8, -6, -4, -3, -2, -1, 1, 2, 3, 5, 8, 10]) / 8 for _ in range(n)]
  return np.asarray(v, np.float32).reshape(shape)


# Operations of one argument.  'q': total, so that the argument may be anything.
def _sig(u):
  e = np.exp(-np.abs(u))
  return np.where(u >= 0, 1 / (1 + e), e / (1 + e))


def _sp(u):
  return np.maximum(u, 0) + np.log1p(np.exp(-np.abs(u)))


UNARY = {
    'exp': (lambda u: jnp.exp(u), np.exp),
    'expn': (lambda u: jnp.exp(-u * u), lambda u: np.exp(-u * u)),
    'sigmoid': (lambda u: jax.nn.sigmoid(u), _sig),
    'logistic': (lambda u: jax.lax.logistic(u), _sig),
    'softplus': (lambda u: jax.nn.softplus(u), _sp),
    'swish': (lambda u: jax.nn.swish(u), lambda u: u * _sig(u)),
    'silu2': (lambda u: u * jax.nn.sigmoid(u), lambda u: u * _sig(u)),
    'neg': (lambda u: -u, lambda u: -u),
    'sq': (lambda u: u ** 2, lambda u: u * u),
    'uu': (lambda u: u * u, lambda u: u * u),
    'cube': (lambda u: u ** 3, lambda u: u ** 3),
    'pow4': (lambda u: u ** 4, lambda u: u ** 4),
    'p0': (lambda u: u ** 0 + u, lambda u: 1 + u),
    'fpow': (lambda u: u ** 2., lambda u: u * u),
    'abs': (lambda u: jnp.abs(u), np.abs),
    'logsig': (lambda u: jax.nn.log_sigmoid(u), lambda u: -_sp(-u)),
    'lexp': (lambda u: jnp.log(1.5 + jnp.exp(u)), lambda u: np.log(1.5 + np.exp(u))),
    'rt': (lambda u: jnp.sqrt(1.5 + u * u), lambda u: np.sqrt(1.5 + u * u)),
    'rsq': (lambda u: jax.lax.rsqrt(1.5 + jnp.exp(u)), lambda u: 1 / np.sqrt(1.5 + np.exp(u))),
    'rec': (lambda u: 1. / (1.5 + jnp.exp(u)), lambda u: 1 / (1.5 + np.exp(u))),
    'ipw': (lambda u: (1.5 + jnp.exp(u)) ** -2, lambda u: (1.5 + np.exp(u)) ** -2),
    'pw': (lambda u: (1.5 + u ** 2) ** 1.5, lambda u: (1.5 + u * u) ** LD(1.5)),
}
SING = {'lexp', 'rt', 'rsq', 'rec', 'ipw', 'pw', 'div', 'divv'}
BINARY = {
    'add': (lambda a, b: a + b, lambda a, b: a + b),
    'sub': (lambda a, b: a - b, lambda a, b: a - b),
    'mul': (lambda a, b: a * b, lambda a, b: a * b),
    'divv': (lambda a, b: a / (1.5 + jnp.exp(b)), lambda a, b: a / (1.5 + np.exp(b))),
}


# Operations the library may refuse to bound, but must not mistreat.  (Where they
# jump, the reference is NaN: points near a jump are not used.)
def _jump(f, at):
  return lambda u: np.where(np.abs(u - np.round(u - at) - at) < 1e-3, np.nan, f(u))


ODD = {
    'toint': (lambda u: u.astype(jnp.int32).astype(u.dtype), _jump(np.trunc, 0)),
    'floor': (lambda u: jnp.floor(u), _jump(np.floor, 0)),
    'round': (lambda u: jnp.round(u), _jump(np.round, .5)),
    'sign': (lambda u: jnp.sign(u), _jump(np.sign, 0)),
    'max0': (lambda u: jnp.maximum(u, 0.125), lambda u: np.maximum(u, 0.125)),
    'clip': (lambda u: jax.lax.clamp(-0.25, u, 0.5), lambda u: np.clip(u, -0.25, 0.5)),
    'where': (lambda u: jnp.where(u > 0, u, 2 * u), lambda u: np.where(u > 0, u, 2 * u)),
    'rev': (lambda u: u[::-1], lambda u: u[::-1]),
    'slice': (lambda u: u[1:], lambda u: u[1:]),
    'concat': (lambda u: jnp.concatenate([u, 2 * u]), lambda u: np.concatenate([u, 2 * u])),
    'cumsum': (lambda u: jnp.cumsum(u, axis=0), lambda u: np.cumsum(u, axis=0)),
    'rmax': (lambda u: jnp.max(u, axis=0), lambda u: np.max(u, axis=0)),
    'tanh': (lambda u: jnp.tanh(u), np.tanh),
    'relu': (lambda u: jax.nn.relu(u), lambda u: np.maximum(u, 0)),
    'stopg': (lambda u: jax.lax.stop_gradient(u), lambda u: u),
    'remat': (lambda u: jax.checkpoint(lambda v: jnp.exp(v) * v)(u), lambda u: np.exp(u) * u),
    'cond': (lambda u: jax.lax.cond(jnp.sum(u) > 0, lambda v: v * v, lambda v: v, u),
             lambda u: u * u if np.sum(u) > 0 else u),
    'loop': (lambda u: jax.lax.fori_loop(0, 3, lambda i, v: v * 0.5 + 1, u),
             lambda u: ((u * .5 + 1) * .5 + 1) * .5 + 1),
    'gather': (lambda u: u[jnp.array([0, -1, 0])], lambda u: u[np.array([0, -1, 0])]),
    'sort': (lambda u: jnp.sort(u, axis=0), lambda u: np.sort(u, axis=0)),
}

ODD_ARRAY = {'rev', 'slice', 'concat', 'cumsum', 'rmax', 'gather', 'sort'}


def _dot_np(a, b, dn):
  (ca, cb), (ba, bb) = dn
  la = [None] * a.ndim
  lb = [None] * b.ndim
  n = iter('abcdefghijklmnop')
  batch = []
  for i, j in zip(ba, bb):
    la[i] = lb[j] = next(n)
    batch.append(la[i])
  for i, j in zip(ca, cb):
    la[i] = lb[j] = next(n)
  fa = [i for i in range(a.ndim) if la[i] is None]
  fb = [j for j in range(b.ndim) if lb[j] is None]
  for i in fa:
    la[i] = next(n)
  for j in fb:
    lb[j] = next(n)
  out = ''.join(batch + [la[i] for i in fa] + [lb[j] for j in fb])
  return np.einsum(f"{''.join(la)},{''.join(lb)}->{out}", a, b)


def _rwin_np(a, w):
  out = a
  for ax, k in enumerate(w):
    n = out.shape[ax] - k + 1
    out = sum(np.take(out, range(i, i + n), axis=ax) for i in range(k))
  return out


def step(ins, vals, real):
  """Value of instruction `ins` given earlier values; real: with JAX."""
  op, args = ins['op'], [vals[i] for i in ins['args']]
  k = 0 if real else 1
  wrap = (lambda f: jax.jit(lambda *a: f(*a))) if real and ins.get('jit') else (lambda f: f)

  def c():
    v = const(ins['seed'], tuple(ins['cs']))
    return v.astype(args[0].dtype) if real else v.astype(LD)
  if op in UNARY:
    return wrap(UNARY[op][k])(args[0])
  if op in ODD:
    return ODD[op][k](args[0])
  if op in BINARY:
    f = BINARY[op][k]
    if len(args) == 2:
      return wrap(f)(*args)
    v = c()
    if real and ins.get('num'):
      v = float(v.reshape(-1)[0])
    return wrap(lambda u: f(u, v) if not ins['flip'] else f(v, u))(args[0])
  if op == 'div':
    v = c()
    return args[0] / v
  if op == 'dot':
    dn = tuple(tuple(tuple(x) for x in y) for y in ins['dn'])
    ops = args if len(args) == 2 else ([c(), args[0]] if ins['flip'] else [args[0], c()])
    if not real:
      return _dot_np(*ops, dn)
    dt = jnp.result_type(*ops)
    return jax.lax.dot_general(*[jnp.asarray(o, dt) for o in ops], dn)
  if op == 'transpose':
    return (jnp if real else np).transpose(args[0], ins['perm'])
  if op == 'reshape':
    return (jnp if real else np).reshape(args[0], ins['shape'])
  if op == 'squeeze':
    return (jnp if real else np).squeeze(args[0], ins['axis'])
  if op == 'expand':
    return (jnp if real else np).expand_dims(args[0], ins['axis'])
  if op == 'bcast':
    return (jnp if real else np).broadcast_to(args[0], ins['shape'])
  if op in ('sum', 'mean'):
    return getattr(jnp if real else np, op)(args[0], axis=tuple(ins['axis']), keepdims=ins['keep'])
  if op == 'rwin':
    if not real:
      return _rwin_np(args[0], ins['w'])
    return jax.lax.reduce_window(args[0], 0., jax.lax.add, tuple(ins['w']), (1,) * len(ins['w']), 'VALID')
  raise AssertionError(op)


def evaluate(prog, x, real):
  vals = [x]
  for ins in prog['ins']:
    vals.append(step(ins, vals, real))
  return vals if not real else vals[-1]


def build(prog):
  return lambda x: evaluate(prog, x, True)


def _dims(rng, ndim):
  return [rng.choice([1, 2, 2, 3]) for _ in range(ndim)]


def propose(rng, shapes, absok, odd):
  """A random next instruction (may be rejected by the caller)."""
  n = len(shapes)
  i = n - 1 if rng.random() < 0.6 else rng.randrange(n)
  sh = shapes[i]
  nd = len(sh)
  c = rng.random()
  if odd and rng.random() < 0.3:
    op = rng.choice(sorted(ODD) + ['toint'] * 4)
    return None if nd == 0 and op in ODD_ARRAY else {'op': op, 'args': [i]}
  if c < 0.3:
    op = rng.choice(sorted(UNARY))
    if op == 'abs' and not absok:
      op = 'exp'
    return {'op': op, 'args': [i], 'jit': rng.random() < 0.15}
  if c < 0.55:
    op = rng.choice(['add', 'sub', 'mul', 'mul', 'divv', 'div'])
    if op == 'div':
      cs = [d for d in sh]
      return {'op': op, 'args': [i], 'cs': cs, 'seed': rng.randrange(1 << 30)}
    if rng.random() < 0.5:
      return {'op': op, 'args': [i, rng.randrange(n)], 'jit': rng.random() < 0.1}
    cs = rng.choice([[], list(sh), list(sh), [rng.choice([d, 1]) for d in sh], _dims(rng, 1) + list(sh)])
    return {'op': op, 'args': [i], 'cs': cs, 'seed': rng.randrange(1 << 30), 'flip': rng.random() < 0.4,
            'num': cs == [] and rng.random() < 0.7}
  if c < 0.75 and nd >= 1:
    axes = list(range(nd))
    rng.shuffle(axes)
    nc = rng.choice([0, 1, 1, 1, 2])
    nb = rng.choice([0, 0, 0, 1, 1, 2])
    ca, ba = axes[:nc], axes[nc:nc + nb]
    if rng.random() < 0.55:
      # with a constant
      extra = _dims(rng, rng.choice([0, 1, 1, 2]))
      dims = [('c', k) for k in range(len(ca))] + [('b', k) for k in range(len(ba))] + [
          ('f', k) for k in range(len(extra))]
      rng.shuffle(dims)
      cs = [sh[ca[k]] if t == 'c' else sh[ba[k]] if t == 'b' else extra[k] for t, k in dims]
      cb = [dims.index(('c', k)) for k in range(len(ca))]
      bb = [dims.index(('b', k)) for k in range(len(ba))]
      flip = rng.random() < 0.5
      dn = [[cb, ca], [bb, ba]] if flip else [[ca, cb], [ba, bb]]
      return {'op': 'dot', 'args': [i], 'cs': cs, 'seed': rng.randrange(1 << 30), 'flip': flip, 'dn': dn}
    j = rng.randrange(n)
    bx = list(range(len(shapes[j])))
    rng.shuffle(bx)
    pairs = []
    for p in axes:
      for q in bx:
        if shapes[i][p] == shapes[j][q] and q not in [y for _, y in pairs]:
          pairs.append((p, q))
          break
    rng.shuffle(pairs)
    cp, bp = pairs[:nc], pairs[nc:nc + nb]
    return {'op': 'dot', 'args': [i, j], 'dn': [[[p for p, _ in cp], [q for _, q in cp]],
                                               [[p for p, _ in bp], [q for _, q in bp]]]}
  k = rng.choice(['transpose', 'reshape', 'squeeze', 'expand', 'bcast', 'sum', 'sum', 'mean', 'rwin'])
  if k == 'transpose':
    perm = list(range(nd))
    rng.shuffle(perm)
    return {'op': k, 'args': [i], 'perm': perm}
  if k == 'reshape':
    size = int(np.prod(sh)) if sh else 1
    new = []
    while size > 1 and len(new) < 3:
      d = rng.choice([d for d in range(1, size + 1) if size % d == 0])
      new.append(d)
      size //= d
    if size > 1:
      new.append(size)
    return {'op': k, 'args': [i], 'shape': new}
  if k == 'squeeze':
    ax = [a for a in range(nd) if sh[a] == 1]
    if not ax:
      return None
    return {'op': k, 'args': [i], 'axis': rng.choice(ax)}
  if k == 'expand':
    return {'op': k, 'args': [i], 'axis': rng.randrange(nd + 1)}
  if k == 'bcast':
    return {'op': k, 'args': [i], 'shape': _dims(rng, rng.choice([0, 1, 1])) + [
        d if d > 1 else rng.choice([1, 2, 3]) for d in sh]}
  if nd == 0:
    return None
  if k in ('sum', 'mean'):
    return {'op': k, 'args': [i], 'axis': sorted(rng.sample(range(nd), rng.randrange(1, nd + 1))),
            'keep': rng.random() < 0.3}
  return {'op': k, 'args': [i], 'w': [rng.choice([1, 2]) for _ in sh]}


def generate(seed, xs=None, plain=False):
  """A random program.  plain: well conditioned on [-2.5, 4.5], smooth, small."""
  rng = random.Random(seed)
  if xs is None:
    xs = rng.choice([(), (), (2,), (2,), (2,), (3,), (1,)])
  absok = not plain and rng.random() < 0.4
  odd = not plain and rng.random() < 0.15
  nx = int(np.prod(xs)) if xs else 1
  mid = np.asarray([rng.uniform(-1, 1) for _ in range(nx)]).reshape(xs)
  prog = {'xs': list(xs), 'ins': []}
  r = np.random.default_rng(seed & 0xFFFFFFFF)
  if plain:
    pts = [np.full(xs, v) for v in (-2.5, -1., 0., 1., 4.5)]
  else:
    pts = [mid + r.uniform(-1, 1, xs) for _ in range(6)]
  vals = [[p.astype(LD)] for p in pts]
  want = rng.choice([2, 3, 4] if plain else [2, 3, 4, 5, 6, 8])
  tries = 0
  shapes = [tuple(xs)]
  while len(prog['ins']) < want and tries < 60:
    tries += 1
    ins = propose(rng, shapes, absok, odd)
    if ins is None or (plain and ins['op'] in SING):
      continue
    try:
      new = [step(ins, v, False) for v in vals]
    except Exception:
      continue
    new = [np.asarray(v, LD) for v in new]
    sh = new[0].shape
    if int(np.prod(sh)) > MAXSIZE or len(sh) > 4 or any(d == 0 for d in sh):
      continue
    if not all((odd or np.all(np.isfinite(v))) and not np.any(np.abs(v) > (200 if plain else 30)) for v in new):
      continue
    prog['ins'].append(ins)
    for v, w in zip(vals, new):
      v.append(w)
    shapes.append(sh)
  prog['mid'] = mid.reshape(-1).tolist()
  ops = [i['op'] for i in prog['ins']]
  prog['deg'] = min(rng.choice([0, 1, 1, 2, 2, 2, 3]), 1 if 'abs' in ops else 9,
                    2 if len(xs) == 1 and nx > 2 else 9)
  prog['odd'] = any(o in ODD for o in ops)
  prog['sing'] = any(o in SING for o in ops)
  return prog


@functools.lru_cache(maxsize=None)
def named(name):
  """The program called `name`: rp<number>s (of a scalar) or rp<number>v."""
  return generate(7919 * int(name[2:-1]) + (name[-1] == 'v'), () if name[-1] == 's' else (2,), True)
