"""Process environment: loads the library from the repository's working tree.

Every simulated run gets a pristine copy of the library: its modules are
re-executed from code objects compiled once per process, so module-level state
of one run never reaches the next, and the instrumentation set on the code
objects stays in place.
"""
import os
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
import sys
sys.dont_write_bytecode = True
import importlib
import importlib.machinery
import importlib.util
import pathlib
import types
import warnings
import zlib

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'autobound')

warnings.filterwarnings('ignore')

import numpy as np  # noqa: E402
import jax  # noqa: E402
# The XLA thread pool is outside the simulator: keep dispatch synchronous.
jax.config.update('jax_cpu_enable_async_dispatch', False)
import jax.numpy as jnp  # noqa: E402
import jax.extend as jex  # noqa: E402


def _is_pkg(name):
  return name == 'autobound' or name.startswith('autobound.')


class _Loader(importlib.machinery.SourceFileLoader):
  """Source loader with an in-process cache of code objects."""
  cache = {}

  def get_code(self, fullname):
    path = self.get_filename(fullname)
    code = _Loader.cache.get(path)
    if code is None:
      with open(path, 'rb') as f:
        code = compile(f.read(), path, 'exec', dont_inherit=True)
      _Loader.cache[path] = code
      _register_codes(code, path)
    return code


class _Finder:
  @staticmethod
  def find_spec(name, path=None, target=None):
    if not _is_pkg(name):
      return None
    rel = name.split('.')[1:]
    base = os.path.join(PKG, *rel)
    if os.path.isdir(base):
      f = os.path.join(base, '__init__.py')
      if not os.path.exists(f):
        return None
      return importlib.util.spec_from_file_location(
          name, f, loader=_Loader(name, f), submodule_search_locations=[base])
    f = base + '.py'
    if not os.path.exists(f):
      return None
    return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))


sys.meta_path.insert(0, _Finder)

# Library code objects: code -> (location base, raw bytecode)
CODES = {}
LOC_HASH = []      # location index -> stable 32-bit hash of the location
LOC_NAME = []      # location index -> printable name
_on_new_code = []  # callbacks


def _walk(code):
  yield code
  for c in code.co_consts:
    if isinstance(c, types.CodeType):
      yield from _walk(c)


def _register_codes(module_code, path):
  rel = os.path.relpath(path, REPO)
  for code in _walk(module_code):
    if code is module_code:
      continue  # module bodies run at import only
    if code in CODES:
      continue
    raw = code.co_code
    base = len(LOC_HASH)
    lines = {}
    for a, b, ln in code.co_lines():
      for o in range(a, b, 2):
        lines[o] = ln
    for off in range(0, len(raw), 2):
      name = f'{rel}:{lines.get(off)}:{code.co_qualname}+{off}'
      LOC_NAME.append(name)
      LOC_HASH.append(zlib.crc32(
          f'{rel}|{code.co_qualname}|{(lines.get(off) or 0) - code.co_firstlineno}|{off}'.encode()))
    CODES[code] = (base, raw)
    for cb in _on_new_code:
      cb(code)


class Lib:
  """A pristine copy of the library's modules."""

  def __init__(self, mods):
    g = lambda n: mods.get('autobound.' + n)
    self.mods = mods
    self.ab = mods['autobound.jax']
    self.jax_bound = mods['autobound.jax.jax_bound']
    self.jaxpr_editor = mods['autobound.jax.jaxpr_editor']
    self.ea = mods['autobound.enclosure_arithmetic']
    self.ia = mods['autobound.interval_arithmetic']
    self.pe = mods['autobound.primitive_enclosures']
    self.ef = mods['autobound.elementwise_functions']
    self.poly = mods['autobound.polynomials']
    self.ge = mods['autobound.graph_editor']
    self.types = mods['autobound.types']


_NAMES = ('autobound', 'autobound.types', 'autobound.interval_arithmetic',
          'autobound.elementwise_functions', 'autobound.polynomials',
          'autobound.primitive_enclosures', 'autobound.enclosure_arithmetic',
          'autobound.graph_editor', 'autobound.jax',
          'autobound.jax.jaxpr_editor', 'autobound.jax.jax_bound')


def purge():
  for n in [n for n in sys.modules if _is_pkg(n)]:
    del sys.modules[n]


def fresh() -> Lib:
  """Imports a pristine copy of the library and returns its modules.

  The copy stays in sys.modules until the next call, so that any import
  statement executed inside library functions resolves to the same copy.
  """
  purge()
  for n in _NAMES:
    importlib.import_module(n)
  return Lib({n: m for n, m in sys.modules.items() if _is_pkg(n)})


def activate(lib: Lib):
  """Makes `lib` the copy that import statements resolve to."""
  purge()
  sys.modules.update(lib.mods)
