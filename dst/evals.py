"""Reference values, in extended precision and written independently of the
library: functions of the workload, Taylor jets, polynomial enclosures."""
import numpy as np

import jobs

LD = np.longdouble


def sig(x):
  x = np.asarray(x, LD)
  e = np.exp(-np.abs(x))
  return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


def sp(x):
  x = np.asarray(x, LD)
  return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


def sw(x):
  return x * sig(x)


_C3 = np.asarray(jobs._C3, LD)
_M = np.asarray(jobs._M32, LD)
_B = np.asarray(jobs._B, LD)
_w = lambda k, *s: np.asarray(jobs._w(k, *s), LD)


def _mlp(k):
  def f(x):
    h = sw(_w(k, 3, 2) @ x + _w(k + 1, 3))
    return np.sum((_w(k + 2, 2, 3) @ h - 1) ** 2)
  return f


def _quad(k):
  return lambda x: x @ (_w(k, 2, 2) @ x) + np.sum(x)


def _conv(x):
  lhs = (x * _w(4, 1, 1, 3))[0, 0]
  k = _w(3, 1, 1, 2)[0, 0]
  return np.sum((lhs[:-1] * k[0] + lhs[1:] * k[1]) ** 2)


def _conv2(x):
  l, r = x * _C3, np.exp(x) * _C3[:2]
  return (l[:-1] * r[0] + l[1:] * r[1]).reshape(1, 1, 2)


def _conv2d(x):
  a, k = x * _M, x * _M[:2]
  p = np.zeros((4, 3), LD)
  p[:3, :2] = a
  out = np.zeros((3, 2), LD)
  for i in range(3):
    for j in range(2):
      out[i, j] = np.sum(p[i:i + 2, j:j + 2] * k)
  return out.reshape(1, 1, 3, 2)


def _jit(x):
  g = 2 * np.exp(-x)
  return g * sig(g) + x


def _split(x):
  return sp(sig(x) * 3) - x


def _consts(x):
  c = np.sort(_C3)
  return x * (-c[-1]) + np.max(c) * np.exp(x)


EVALS = {
    'exp': np.exp, 'abs': np.abs, 'log': np.log, 'sqrt': np.sqrt, 'rsqrt': lambda x: 1 / np.sqrt(x),
    'cbrt': np.cbrt, 'sigmoid': sig, 'softplus': sp, 'swish': sw,
    'sq': lambda x: x * x, 'cube': lambda x: x * x * x, 'pow4': lambda x: (x * x) ** 2 - x,
    'inv': lambda x: 1 / x, 'pow25': lambda x: x * x * np.sqrt(x), 'inv2': lambda x: 1 / (1 + x * x),
    'expsq': lambda x: np.exp(-(x * x)) + x, 'lse': lambda x: np.log(1 + np.exp(x)),
    'sigswish': lambda x: sig(x) * sw(x - 1), 'split': _split, 'affine': lambda x: 3 - 2 * x,
    'neg': lambda x: -x, 'const': lambda x: 2 + 0 * x, 'vec': lambda x: np.exp(x * _C3),
    'reshape': lambda x: x * np.array([1, 2], LD), 'transp': lambda x: (np.exp(x) * _M).T,
    'vecsum': lambda x: np.sum((x * _C3) ** 2), 'conv': _conv, 'jitted': _jit,
    'norm': lambda x: np.sqrt(np.sum((x * _C3) ** 2)),
    'mlp0': _mlp(0), 'mlp1': _mlp(7), 'quad0': _quad(0), 'quad1': _quad(4),
    'dot': lambda x: _M @ np.exp(x), 'sumsig': lambda x: np.sum(sig(x) * x),
    'smat': lambda x: (x * _M) @ (np.exp(x) * _M.T),
    'sbatch': lambda x: np.einsum('bij,bj->bi', x * _B, np.exp(x) * _B[:, 0]),
    'spool': lambda x: np.exp(x * _C3)[:-1] + np.exp(x * _C3)[1:],
    'ssqueeze': lambda x: np.exp(x * _M), 'conv2': _conv2, 'conv2d': _conv2d,
    'vdotself': lambda x: np.sum(np.exp(x) * x * x),
    'vouter': lambda x: np.outer(np.exp(x), _C3), 'vsum': lambda x: _M @ np.exp(x),
    'vbatch': lambda x: np.einsum('bi,bij->bj', np.outer(x, _C3), _B),
    'vmat': lambda x: (x[:, None] * _M[:2]) @ (np.exp(x)[:, None] * _M[1:]),
    'vten': lambda x: np.tensordot(x[:, None] * _M[:2], np.exp(x)[:, None] * _M[1:], axes=[[0], [1]]),
    'div': lambda x: (x + 3) / (x * x + 2), 'powf': lambda x: (x * x + 1) * np.sqrt(x * x + 1),
    'mean': lambda x: np.mean(np.exp(x)), 'divc': lambda x: x / 3 - x * x / 5,
    'neg1': lambda x: 1 / x, 'ipow3': lambda x: 1 / (x * x * x), 'ipow2': lambda x: 1 / (x * x),
    'softmaxish': lambda x: np.exp(x) / np.sum(np.exp(x)),
    'silu': lambda x: sw(x * LD(1.5)) + x, 'logsig': lambda x: -sp(-x), 'sigm2': lambda x: sig(2 * x + 1),
    'bcast': lambda x: (np.stack([np.exp(x)] * 3) * _w(2, 3, 1) if np.ndim(x) else np.exp(x) * _C3),
    'consts': _consts, 'sqrtsq': lambda x: np.sqrt(x * x + 1),
    'logexp': lambda x: np.abs(x) + np.log1p(np.exp(-2 * np.abs(x))),
    'absexp': lambda x: np.abs(x) + np.exp(np.abs(x - 1)),
    'pow0': lambda x: 1 + x + 2 * x * x, 'pow5': lambda x: (x - LD(0.5)) ** 5,
    'poww': lambda x: np.sqrt(x) - 1 / (x * np.sqrt(x)),
}


# -- Taylor jets -------------------------------------------------------------
# A jet is a list of n+1 coefficients (arrays) of powers of t.

def j_var(x, n):
  x = np.asarray(x, LD)
  return [x] + [np.ones_like(x) if i == 0 else np.zeros_like(x) for i in range(n)]


def j_mul(a, b):
  return [sum(a[i] * b[k - i] for i in range(k + 1)) for k in range(len(a))]


def j_exp(a):
  e = [np.exp(a[0])]
  for k in range(1, len(a)):
    e.append(sum(i * a[i] * e[k - i] for i in range(1, k + 1)) / k)
  return e


def j_rec(a):
  r = [1 / a[0]]
  for k in range(1, len(a)):
    r.append(-sum(a[i] * r[k - i] for i in range(1, k + 1)) / a[0])
  return r


def j_int(d, c0):
  return [c0] + [d[k] / (k + 1) for k in range(len(d) - 1)]


def j_sigmoid(x):
  # sigma' = sigma (1 - sigma)
  s = [sig(x[0])]
  n = len(x) - 1
  for k in range(n):
    one = [1 - s[0]] + [-c for c in s[1:]]
    s.append(sum(s[i] * one[k - i] for i in range(k + 1)) / (k + 1))
  return s


def derivs(f, x, n, p=None):
  """[f(x), f'(x), ..., f^(n)(x)] of a tabulated function."""
  x = np.asarray(x, LD)
  t = j_var(x, n)
  if f == 'exp':
    c = j_exp(t)
  elif f == 'sigmoid':
    c = j_sigmoid(t)
  elif f == 'softplus':
    c = j_int(j_sigmoid(t), sp(x))
  elif f == 'swish':
    c = j_mul(t, j_sigmoid(t))
  elif f == 'abs':
    c = [np.abs(x), np.sign(x)] + [np.zeros_like(x)] * n
    c = c[:n + 1]
  elif f == 'log':
    c = j_int(j_rec(t), np.log(x))
  elif f == 'pow':
    c, g = [], LD(1)
    for k in range(n + 1):
      c.append(g * np.power(x, LD(p) - k) if g != 0 else np.zeros_like(x))
      g = g * (LD(p) - k) / (k + 1)
  else:
    raise AssertionError(f)
  out, fact = [], LD(1)
  for k in range(n + 1):
    if k:
      fact *= k
    out.append(c[k] * fact)
  return out


def value(f, x, p=None):
  if f == 'pow':
    x = np.asarray(x, LD)
    if float(p) == int(p):
      return np.power(x, int(p)) if p >= 0 else 1 / np.power(x, int(-p))
    return np.power(x, LD(p))
  return {'exp': np.exp, 'sigmoid': sig, 'softplus': sp, 'swish': sw, 'abs': np.abs, 'log': np.log}[f](
      np.asarray(x, LD))


# -- enclosures ---------------------------------------------------------------

def split(c):
  """(lo, hi) arrays of a coefficient."""
  if isinstance(c, tuple):
    return np.asarray(c[0], LD), np.asarray(c[1], LD)
  a = np.asarray(c, LD)
  return a, a


def monomials(z, i):
  """z^{(x)i} for a stack of points z of shape (n,) + xs."""
  n = z.shape[0]
  m = np.ones((n,), LD)
  xs = z.shape[1:]
  for _ in range(i):
    m = m.reshape(m.shape + (1,) * len(xs)) * z.reshape((n,) + (1,) * (m.ndim - 1) + xs)
  return m


def _times(c, m):
  with np.errstate(invalid='ignore'):
    v = c * m
  # 0 * inf: the term is absent.
  return np.where((m == 0) | (c == 0), LD(0), v)


def enclosure_at(coeffs, z):
  """Bounds (lo, hi, magnitude) of the enclosure at the points z (n,)+xs."""
  n, xs = z.shape[0], z.shape[1:]
  tot = None
  for i, c in enumerate(coeffs):
    lo, hi = split(c)
    m = monomials(z, i)
    k = i * len(xs)
    batch = np.broadcast_shapes(lo.shape, hi.shape)
    lo, hi = np.broadcast_to(lo, batch), np.broadcast_to(hi, batch)
    if k and len(batch) < k:
      lo = np.broadcast_to(lo, xs * i)
      hi = np.broadcast_to(hi, xs * i)
      batch = xs * i
    nb = len(batch) - k
    mm = m.reshape((n,) + (1,) * nb + m.shape[1:]) if k else m.reshape((n,) + (1,) * len(batch))
    a = _times(np.where(mm >= 0, lo[None], hi[None]), mm)
    b = _times(np.where(mm >= 0, hi[None], lo[None]), mm)
    g = np.maximum(np.abs(a), np.abs(b))
    g = np.where(np.isfinite(g), g, 0)
    if k:
      ax = tuple(range(a.ndim - k, a.ndim))
      a, b, g = a.sum(axis=ax), b.sum(axis=ax), g.sum(axis=ax)
    if tot is not None and a.ndim != tot[0].ndim:
      # Batch dimensions are broadcast.
      d = max(a.ndim, tot[0].ndim)
      up = lambda v: v.reshape(v.shape[:1] + (1,) * (d - v.ndim) + v.shape[1:])
      a, b, g = up(a), up(b), up(g)
      tot = [up(v) for v in tot]
    tot = [a, b, g] if tot is None else [tot[0] + a, tot[1] + b, tot[2] + g]
  return tot
