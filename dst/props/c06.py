"""C06: a back-end failure is never turned into wrong bounds."""
import zlib

import arith
import backend
import core
import env
import jobs
import sim
import world
from core import sub_rng
from env import np

PID = 'C06'
BLOCK = 60
KINDS = ('nan', 'nan', 'nan', 'nan', 'SimRuntimeError', 'SimMemoryError', 'SimNotImplemented',
         'SimFloatingPointError', 'SimValueError', 'SimTypeError', 'SimAttributeError',
         'SimIndexError', 'SimKeyError', 'SimOverflow', 'SimZeroDiv', 'SimInterrupt', 'SimTimeout')
OPS = [o for o in arith._TEA * 2 + arith._IA + arith._FN if o not in ('i_shape', 'f_mono')]
DENSE = ['f_enclosure'] * 4 + ['f_pow_enclosure', 'f_range', 'elem', 'elem', 'elem', 'power', 'i_power',
                             'i_outer_power', 'compose', 'divide', 'i_bilinear', 'bilinear']


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [jobs.gen_job(blk, args=('np', 'jax'), programs=0.15) for _ in range(3)]
  rng = sub_rng(PID, seed, k)
  sc = {'prop': PID, 'seed': rng.randrange(1 << 40)}
  c = rng.random()
  if c < 0.45:
    j = dict(rng.choice(base))
    if rng.random() < 0.5:
      jobs.set_point(rng, j)
    sc['op'] = j
    nf = 14
  else:
    # Single operations, some of them with a fault at most of their steps.
    sc['ctx'] = [dict(arith.gen_ctx(rng, backend='np') if c > 0.7 else arith.gen_ctx(rng), x64=True)]
    pool = {}
    sc['op'] = arith.gen_op(rng, sc['ctx'][0], pool, DENSE if c > 0.7 else OPS)
    sc['vals'] = pool
    nf = 160 if c > 0.7 else 40
  sc['faults'] = []
  for _ in range(nf):
    sc['faults'].append({'frac': rng.random(), 'kind': rng.choice(KINDS),
                         'scope': rng.choice(['once', 'once', 'once', 'from', 'name']),
                         'elem': rng.choice([None, None, 0, 1, 2, 3])})
  return sc


def call(sc, plan):
  """Runs the operation on the simulated back end; returns raw result."""
  lib = env.fresh()
  env.activate(lib)
  backend.patch()
  op = sc['op']
  if op['op'] == 'bound':
    backend.install(lib)
    f = jobs.build_fn(op['fn'])
    with jobs.prec(op['x64']):
      x0, region = jobs.make_args(op)
      bf = lib.ab.taylor_bounds(f, op['deg'], op['prop'])
      with backend.active(plan):
        r = world.result_of(lambda: bf(x0, region).coefficients)
      return r, None
  c = sc['ctx'][0]
  with jobs.prec(True):
    xp = arith.xp_of(c)
    np_like = backend.proxy_of(xp)
    ctx = arith.build_ctx(lib, c, np_like)
    vals = {n: arith.build_operand(d, xp) for n, d in sc['vals'].items()}
    if xp is np:
      vals = {n: backend.wrap(v) for n, v in vals.items()}
      ctx.trust_region = backend.wrap(ctx.trust_region)
    with backend.active(plan):
      r = world.result_of(lambda: arith.exec_op(lib, op, ctx, xp, np_like, vals))
    return r, (lib, ctx.trust_region)


def parts(v):
  """Coefficients of a result as (lo, hi) float64 arrays."""
  if isinstance(v, tuple) and len(v) == 2 and not isinstance(v[0], tuple) and not isinstance(v[1], tuple):
    return [(np.asarray(v[0], np.float64), np.asarray(v[1], np.float64))]
  if isinstance(v, (tuple, list)):
    out = []
    for c in v:
      if isinstance(c, tuple):
        out.append((np.asarray(c[0], np.float64), np.asarray(c[1], np.float64)))
      else:
        a = np.asarray(c, np.float64)
        out.append((a, a))
    return out
  a = np.asarray(v, np.float64)
  return [(a, a)]


def is_interval_op(op):
  return op['op'] != 'bound' and (op['name'].startswith('i_') or op['name'] in ('f_range', 'f_eval_elem', 'eval'))


def as_parts(op, v):
  """Results as lists of intervals, according to the kind of operation."""
  if is_interval_op(op):
    return parts(v) if isinstance(v, tuple) else parts((v, v))
  if isinstance(v, tuple) and not isinstance(v, list):
    out = []
    for c in v:
      out += parts(c) if isinstance(c, tuple) else parts((c, c))
    return out
  return parts((v, v))


def judge(op, good, got, tol):
  """None if `got` is acceptable, else a description."""
  a, b = as_parts(op, good), as_parts(op, got)
  allb = [x for p in b for x in p]
  if any(not np.all(np.isfinite(x)) for p in a for x in p):
    return None   # the fault-free call gives no finite enclosure either
  if len(a) != len(b):
    return f'{len(b)} coefficients instead of {len(a)}'
  for i, ((l0, h0), (l1, h1)) in enumerate(zip(a, b)):
    try:
      l0, h0, l1, h1 = np.broadcast_arrays(l0, h0, l1, h1)
    except ValueError:
      return f'coefficient {i}: shape {l1.shape} instead of {l0.shape}'
    s = tol * (1 + np.maximum(np.abs(l0), np.abs(h0)))
    bad = ((l1 > l0 + s) & np.isfinite(l1)) | ((h1 < h0 - s) & np.isfinite(h1))
    if bad.any():
      return (f'coefficient {i}: [{l1.reshape(-1)[:6].tolist()}, {h1.reshape(-1)[:6].tolist()}] does not contain '
              f'[{l0.reshape(-1)[:6].tolist()}, {h0.reshape(-1)[:6].tolist()}]')
  return None


def run(sc):
  plan0 = backend.Plan()
  r0, _ = call(sc, plan0)
  r = core.Result()
  r['crc'] = jobs.crc(world.canon_result(r0))
  n = plan0.n
  fired = {}
  outcome = {}
  r['ops'] = 1 + len(sc['faults'])
  done = 0
  tol = 1e-9 if (sc['op']['op'] != 'bound' or sc['op']['x64']) else 2e-4
  if r0[0] == 'ok' and n:
    for f in sc['faults']:
      plan = backend.Plan([dict(f, n=int(f['frac'] * n))])
      got, _ = call(sc, plan)
      if not plan.fired:
        continue
      done += 1
      fired[f['kind']] = fired.get(f['kind'], 0) + plan.fired
      c = world.canon_result(got)
      r['crc'] = zlib.crc32(repr(c).encode(), r['crc'])
      if got[0] == 'exc':
        o = 'raised'
      else:
        bad = judge(sc['op'], r0[1], got[1], tol)
        o = ('equal' if c == world.canon_result(r0) else 'finite' if bad is None else 'wrong')
        if o == 'finite' and any(not np.all(np.isfinite(x)) for p in as_parts(sc['op'], got[1]) for x in p):
          o = 'not finite'
        if bad:
          r.violation('wrong finite result', op=sc['op'], fault=dict(f, n=int(f['frac'] * n)),
                      calls=plan.names[:3], what=bad)
      outcome[o] = outcome.get(o, 0) + 1
  r['fired'] = fired
  r['probes'] = {'outcome ' + k: v for k, v in outcome.items()}
  r['probes']['faulted calls'] = done
  r['stats'] = {'backend_calls': n * (1 + done), 'steps': n * (1 + done)}
  r['nontrivial'] = done > 0
  return r
