"""Process-wide and thread-wide numeric settings a library call must not leave
changed."""
import contextlib
import gc
import os
import random
import signal
import sys
import warnings
import zlib

from env import jax, np

_JAX_KEYS = None


def _jax_keys():
  global _JAX_KEYS
  if _JAX_KEYS is None:
    keys = []
    for k in sorted(jax.config.values):
      try:
        getattr(jax.config, k)
        keys.append(k)
      except Exception:
        pass
    _JAX_KEYS = keys
  return _JAX_KEYS


def local():
  """Settings visible to the calling thread."""
  d = {'np.' + k: v for k, v in np.geterr().items()}
  d['np.errcall'] = repr(np.geterrcall())
  d['np.bufsize'] = np.getbufsize()
  d['np.print'] = repr(sorted(np.get_printoptions().items()))
  for k in _jax_keys():
    d['jax.' + k] = repr(getattr(jax.config, k))
  return d


def process():
  """Settings of the process."""
  st = np.random.get_state()
  return {
      'warnings.filters': repr(warnings.filters),
      'warnings.showwarning': id(warnings.showwarning),
      'np.random': zlib.crc32(st[1].tobytes()) ^ st[2],
      'random': hash(random.getstate()),
      'recursionlimit': sys.getrecursionlimit(),
      'switchinterval': sys.getswitchinterval(),
      'environ': hash(tuple(sorted(os.environ.items()))),
      'cwd': os.getcwd(),
      'gc': (gc.isenabled(), gc.get_threshold()),
      'sigint': repr(signal.getsignal(signal.SIGINT)),
      'excepthook': id(sys.excepthook),
      'stdout': (id(sys.stdout), id(sys.stderr)),
      'np.set_numeric_ops': id(np.add),
      'jax.values': repr(sorted((k, repr(v)) for k, v in jax.config.values.items())),
  }


def diff(a, b):
  return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def gen_ambient(rng, blk):
  """Settings of the application a library is used in, none of which changes
  what a call returns; only from other than default values is it visible that
  a call resets them. (blk: where a change makes JAX compile again.)"""
  d = {}
  if blk.random() < 0.8:
    d['jax'] = blk.choice([{'jax_numpy_rank_promotion': 'warn'},
                           {'jax_numpy_rank_promotion': 'warn', 'jax_default_matmul_precision': 'highest'},
                           {'jax_default_matmul_precision': 'highest', 'jax_traceback_filtering': 'off'}])
  if rng.random() < 0.4:
    return d
  if rng.random() < 0.6:
    d['np'] = rng.choice([{'all': 'ignore'}, {'over': 'ignore', 'under': 'warn'},
                          {'invalid': 'ignore', 'divide': 'ignore'}])
  if rng.random() < 0.5:
    d['print'] = {'precision': 5}
  if rng.random() < 0.5:
    d['recursion'] = 100 + rng.randrange(100)
  if rng.random() < 0.5:
    d['warn'] = 1
  return d


def thread_ambient(d):
  """Per-thread part, applied inside each caller."""
  if d.get('np'):
    np.seterr(**d['np'])
  if d.get('print'):
    np.set_printoptions(**d['print'])


@contextlib.contextmanager
def ambient(d):
  d = d or {}
  old = {k: getattr(jax.config, k) for k in d.get('jax', {})}
  rec = sys.getrecursionlimit()
  with warnings.catch_warnings():
    try:
      for k, v in d.get('jax', {}).items():
        jax.config.update(k, v)
      if d.get('recursion'):
        sys.setrecursionlimit(rec + d['recursion'])
      if d.get('warn'):
        warnings.filterwarnings('ignore', category=RuntimeWarning)
      yield
    finally:
      for k, v in old.items():
        jax.config.update(k, v)
      sys.setrecursionlimit(rec)
