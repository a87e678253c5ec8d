"""C11: bounds hold under any rounding by the numeric back end."""
import math
import zlib

import arith
import backend
import core
import env
import evals
import jobs
import progs
import sim
import world
from core import sub_rng
from env import np

PID = 'C11'
BLOCK = 40
LD = np.longdouble
MODES = ('none', 'up', 'down', 'away', 'alt', 'rand', 'rand', 'one')
OPS = [o for o in arith._TEA * 2 + arith._IA * 2 + ('i_power',) + arith._FN if o not in ('i_shape', 'asenc', 'map')]
HIGH = ['add', 'subtract', 'multiply', 'multiply', 'negative', 'bilinear', 'power', 'power', 'divide', 'enclose', 'elem']
K_BOUND = 100      # slack in units of last-place errors of the scale
K_ARITH = 100
K_PROG = 10000
NAMES = sorted(n for n in evals.EVALS)


# An argument of a singular function is itself only enclosed, so that its
# enclosure may reach the singularity: bounds need not be finite then.
SINGULAR = {'lse', 'inv2', 'div', 'powf', 'softmaxish', 'sqrtsq', 'logexp', 'norm'}


def f32(v):
  return float(np.float32(v))


def set_point(rng, j, dom):
  """Region and centre, in all proportions.  All values are float32."""
  n = 2 if j['vec'] else 1
  x0, lo, hi = [], [], []
  j.pop('edge', None)
  far = j['fn'] in _FAR and rng.random() < 0.3
  for _ in range(n):
    w = rng.choice([0.02, 0.25, 1., 1., 2., 4., 4., 8.]) * rng.uniform(0.5, 1.)
    if far:
      w = w * rng.choice([1., 30., 200.])
      a = rng.choice([-1, 1, 1]) * rng.uniform(20., 900.)
      a, b = rng.choice([(a, a + w), (-abs(a), w)])
    elif dom in ('pos', 'nz'):
      a = rng.uniform(0.2, 2.)
      b = a + min(w, 4.)
      if rng.random() < 0.08:
        j['edge'], a = True, 0.   # up to the singularity
      if dom == 'nz' and j['neg']:
        a, b = -b, -a
    else:
      w = min(w, j['wmax'])
      c = rng.choice([0., 0., rng.uniform(-j['cmax'], j['cmax'])])
      a = c - w * rng.choice([0.5, 0.5, rng.random(), 1., 0.])
      b = a + w
    m = rng.choices(['in', 'lo', 'hi', 'nlo', 'nhi', 'mid', 'zero', 'nzero'],
                    [25, 8, 8, 10, 10, 10, 15, 10])[0]
    c = {'in': a + (b - a) * rng.random(), 'lo': a, 'hi': b, 'mid': (a + b) / 2,
         'nlo': a + (b - a) * 10 ** -rng.uniform(1, 7), 'nhi': b - (b - a) * 10 ** -rng.uniform(1, 7),
         'zero': 0., 'nzero': rng.choice([-1, 1]) * 10 ** -rng.uniform(1, 8)}[m]
    if j.get('edge'):
      c = a + (b - a) * (rng.uniform(0., 0.8) if a < 0 else rng.uniform(0.2, 1.))
    a, b, c = f32(a), f32(b), f32(c)
    if b <= a:
      b = f32(a + 0.5)
    c = min(max(c, a), b)
    x0.append(c)
    lo.append(a)
    hi.append(b)
  if j['vec']:
    j['x0'], j['lo'], j['hi'] = x0, lo, hi
  else:
    j['x0'], j['lo'], j['hi'] = x0[0], lo[0], hi[0]


# Finite, with finite derivatives, arbitrarily far out.
_FAR = {'sigmoid', 'softplus', 'swish', 'abs', 'sq', 'affine', 'neg', 'silu', 'logsig', 'sigm2', 'divc'}
_WIDE = {'exp', 'sigmoid', 'softplus', 'swish', 'abs', 'sq', 'cube', 'affine', 'neg', 'silu', 'logsig',
         'sigm2', 'const', 'absexp', 'divc', 'pow0'}


def gen_bound(rng, name=None):
  name = name or rng.choice(NAMES)
  kind, dom, _ = jobs.FUNCS[name]
  j = {'op': 'bound', 'fn': name, 'prop': rng.random() < 0.5,
       'vec': kind == 'v' or (kind == 'b' and rng.random() < 0.25),
       'neg': rng.random() < 0.5, 'arg': rng.choice(['np', 'jax']), 'x64': rng.random() < 0.6}
  heavy = name in jobs._HEAVY
  j['deg'] = min(rng.choice([0, 1, 1, 2, 2, 2, 3] if heavy else [0, 1, 1, 2, 2, 2, 3, 3, 4, 5]),
                 jobs._MAXDEG.get(name, 9), (2 if heavy else 3) if j['vec'] else 9)
  j['wmax'], j['cmax'] = (8., 6.) if name in _WIDE else (3., 1.5)
  set_point(rng, j, dom)
  return j


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [gen_bound(blk) for _ in range(6)]
  rng = sub_rng(PID, seed, k)
  sc = {'prop': PID, 'seed': rng.randrange(1 << 40)}
  kind = rng.random()
  if k % 4 == 1:
    sc['ops'] = [gen_prog(rng) for _ in range(2)]
  elif kind < 0.3:
    sc['ops'] = [gen_prim(rng) for _ in range(10)]
  elif kind < 0.65:
    jobs_ = []
    for _ in range(3):
      j = dict(rng.choice(base))
      set_point(rng, j, jobs.FUNCS[j['fn']][1])
      jobs_.append(j)
    sc['ops'] = jobs_
    sc['api'] = rng.random() < 0.3
  else:
    sc['ctx'] = [arith.gen_ctx(rng, backend=rng.choice(['np', 'np', 'np', 'jnp']))]
    sc['f32'] = rng.random() < 0.35
    pool = {}
    # Operands of a higher degree than the context's.
    high = dict(sc['ctx'][0], deg=sc['ctx'][0]['deg'] + rng.choice([1, 2]))
    high = high if rng.random() < 0.25 else None
    sc['ops'] = [arith.gen_op(rng, high or sc['ctx'][0], pool, HIGH if high else OPS) for _ in range(9)]
    sc['vals'] = pool
  sc['rounds'] = [{'mode': rng.choice(MODES), 'seed': rng.randrange(1 << 30), 'ulps': rng.choice([1, 1, 2]),
                   'at': rng.randrange(0, 300)} for _ in range(2)]
  return sc


# -- random array programs -------------------------------------------------------

def gen_prog(rng):
  p = progs.generate(rng.randrange(1 << 40))
  n = len(p['mid'])
  j = {'op': 'prog', 'prog': p, 'prop': rng.random() < 0.5, 'x64': rng.random() < 0.8, 'seed': rng.randrange(1 << 30)}
  lo, hi, x0 = [], [], []
  for i in range(n):
    w = rng.choice([0.05, 0.5, 1., 1.5])
    a = f32(p['mid'][i] - w * rng.random())
    b = f32(a + w)
    lo.append(a)
    hi.append(b)
    x0.append(f32(min(max(rng.choice([a, b, a + w * rng.random(), a + w / 2]), a), b)))
  j.update(lo=lo, hi=hi, x0=x0)
  return j


def run_prog(sc, r, j):
  p = j['prog']
  xs = tuple(p['xs'])
  dt = np.float64 if j['x64'] else np.float32
  lo, hi, x0 = (np.asarray(j[k], np.float64).reshape(xs) for k in ('lo', 'hi', 'x0'))
  g = np.random.default_rng(j['seed'])
  pts = [lo, hi, x0, (lo + hi) / 2]
  pts += [g.uniform(lo, hi) for _ in range(24)]
  pts += [np.where(g.random(xs) < 0.5, lo, hi) for _ in range(8)]
  pts += [np.where(g.random(xs) < 0.5, x0, g.uniform(lo, hi)) for _ in range(8)]
  pts = np.stack([np.clip(np.asarray(v, np.float32), lo, hi) for v in pts]).astype(LD)
  with np.errstate(all='ignore'):
    vals = [progs.evaluate(p, x, False) for x in pts]
    want = np.stack([np.asarray(v[-1], LD) for v in vals])
    if p.get('odd'):
      ok = [all(np.all(np.isfinite(q)) for q in v) for v in vals]
      if not any(ok):
        return
      pts, want = pts[ok], want[ok]
      vals = [v for v, q in zip(vals, ok) if q]
    scale = max(1., *(float(np.max(np.abs(q))) for v in vals for q in v))
  eps = float(np.finfo(dt).eps) * scale
  base = None
  for n, rd in enumerate([{'mode': 'none'}] + sc['rounds'][:1]):
    for prop in ([j['prop']] if n else [False, True]):
      lib = env.fresh()
      env.activate(lib)
      backend.patch()
      backend.install(lib)
      plan = plan_of(rd)
      with jobs.prec(j['x64']):
        bf = lib.ab.taylor_bounds(progs.build(p), p['deg'], prop)
        args = [np.asarray(v, dt) for v in (x0, lo, hi)]
        with under(plan):
          got = world.result_of(lambda: bf(args[0], (args[1], args[2])).coefficients)
      r['crc'] = zlib.crc32(repr(world.canon_result(got)).encode(), r['crc'])
      if plan is not None:
        r['fired'][rd['mode']] = r['fired'].get(rd['mode'], 0) + plan.fired
      what = dict(program=[i['op'] for i in p['ins']], degree=p['deg'], prop=prop, round=rd)
      if got[0] == 'exc' and p.get('odd'):
        r['probes']['programs refused'] = r['probes'].get('programs refused', 0) + 1
        return
      if got[0] == 'exc':
        r.violation('raised', op=j, **what, error=repr(got[1])[:300])
        return
      cs = got[1]
      fin = all(np.all(np.isfinite(q)) for c in cs for q in evals.split(c))
      with np.errstate(all='ignore'):
        l, h, m = evals.enclosure_at(cs, pts - x0.astype(LD))
      try:
        l, h, m = (np.broadcast_to(v, want.shape) for v in (l, h, m))
      except ValueError:
        r.violation('shape', op=j, **what, got=list(l.shape[1:]), want=list(want.shape[1:]))
        return
      i, err = check_cover(l, h, m, want, eps, K_PROG, 1., p['sing'] or p.get('odd') or not fin)
      r['worst prog'] = max(r.get('worst prog', 0.), err if fin else 0.)
      if err > K_PROG:
        r.violation('excluded', op=j, **what, x=np.ravel(pts[i // max(1, int(np.prod(want.shape[1:])))]).astype(float).tolist(),
                    value=float(want.reshape(-1)[i]), bounds=[float(l.reshape(-1)[i]), float(h.reshape(-1)[i])],
                    slack_units=err, coefficients=jobs.show(jobs.canon(cs), 600))
        return
      if n == 0 and not prop:
        base = fin
      elif base and not fin:
        r.violation('not finite with propagation or other rounding', op=j, **what,
                    coefficients=jobs.show(jobs.canon(cs), 400))
        return
      r['probes']['points'] = r['probes'].get('points', 0) + len(pts)
  r['probes']['programs'] = r['probes'].get('programs', 0) + 1


def plan_of(rd):
  if rd['mode'] == 'none':
    return None
  return backend.RoundPlan(rd['mode'], sub_rng('round', rd['seed']), rd['ulps'], rd['at'])


class no_plan:
  def __enter__(self):
    pass

  def __exit__(self, *a):
    pass


def under(plan):
  return backend.active(plan) if plan is not None else no_plan()


def points(rng, j):
  """Points of the region (float32 values) at which bounds are checked."""
  n = 2 if j['vec'] else 1
  cols = []
  for i in range(n):
    x0, a, b = [np.float64(j[k][i] if j['vec'] else j[k]) for k in ('x0', 'lo', 'hi')]
    g = [a, b, x0] + [a + (b - a) * t / 16. for t in range(17)]
    for e in (1, 2, 3, 5):
      for s in (-1, 1):
        g.append(x0 + s * (b - a) * 10. ** -e)
    g += [rng.uniform(a, b) for _ in range(6)]
    cols.append([min(max(f32(v), a), b) for v in g])
  if n == 1:
    return np.array(cols[0])
  m = [(cols[0][i], cols[1][i]) for i in range(len(cols[0]))]
  m += [(rng.choice(cols[0]), rng.choice(cols[1])) for _ in range(40)]
  m += [(j[p][0], j[q][1]) for p in ('lo', 'hi', 'x0') for q in ('lo', 'hi', 'x0')]
  return np.array(m)


def bound(sc, j, plan, prop):
  lib = env.fresh()
  env.activate(lib)
  backend.patch()
  backend.install(lib)
  f = jobs.build_fn(j['fn'])
  with jobs.prec(j['x64']):
    x0, region = jobs.make_args(j)
    bf = lib.ab.taylor_bounds(f, j['deg'], prop)
    with under(plan):
      r = world.result_of(lambda: bf(x0, region))
    if r[0] != 'ok':
      return r, None
    return world.result_of(lambda: r[1].coefficients), r[1]


def check_cover(lo, hi, mag, want, eps, k, extra=0., nan_ok=False):
  """First point at which want is not within [lo, hi] (index, error in slack
  units), and the largest error."""
  lo, hi, mag, want = np.broadcast_arrays(lo, hi, mag, want)
  slack = eps * (mag + np.abs(want) + extra)
  with np.errstate(invalid='ignore'):
    err = np.maximum(lo - want, want - hi) / slack
  err = np.where(np.isfinite(want), err, 0)
  nan = np.isnan(lo) | np.isnan(hi)
  err = np.where(nan & np.isfinite(want), 0 if nan_ok else np.inf, err)
  i = int(np.argmax(err))
  return i, float(err.reshape(-1)[i])


def run_bound(sc, r, j, rng):
  xs = points(rng, j)
  ev = evals.EVALS[j['fn']]
  with np.errstate(all='ignore'):
    want = np.stack([np.asarray(ev(x), LD) for x in xs.astype(LD)])
  z = xs.astype(LD) - np.asarray(j['x0'], LD)
  # Single precision arithmetic wherever an operand is.
  eps = float(np.finfo(np.float64 if j['x64'] else np.float32).eps)
  worst = 0.
  base = None
  sing = j['fn'] in SINGULAR or j.get('edge', False)
  # Rounding moves the region's end point away from (or past) a singularity,
  # where the function changes without limit.
  most = 1e-3 / eps if j.get('edge') else K_BOUND
  for n, rd in enumerate([{'mode': 'none'}] + sc['rounds']):
    for prop in ([j['prop']] if n else [False, True]):
      plan = plan_of(rd)
      got, b = bound(sc, j, plan, prop)
      r['crc'] = zlib.crc32(repr(world.canon_result(got)).encode(), r['crc'])
      if plan is not None:
        r['fired'][rd['mode']] = r['fired'].get(rd['mode'], 0) + plan.fired
      if got[0] == 'exc':
        if j['deg'] > 4 and isinstance(got[1], NotImplementedError):
          r['probes']['refused degree 5'] = r['probes'].get('refused degree 5', 0) + 1
          return
        r.violation('raised', op=j, prop=prop, round=rd, error=repr(got[1])[:300])
        return
      cs = got[1]
      fin = all(np.all(np.isfinite(p)) for c in cs for p in evals.split(c))
      with np.errstate(all='ignore'):
        lo, hi, mag = evals.enclosure_at(cs, z)
      w = want
      if lo.ndim != w.ndim or lo.shape != w.shape:
        try:
          w = w.reshape(lo.shape)
        except ValueError:
          try:
            lo, hi, mag = (np.broadcast_to(v, w.shape) for v in (lo, hi, mag))
          except ValueError:
            r.violation('shape', op=j, prop=prop, got=list(lo.shape), want=list(w.shape))
            return
      xm = float(np.max(np.abs(xs)))
      i, err = check_cover(lo, hi, mag, w, eps, most, 1. + xm, sing)
      worst = max(worst, err if fin and not j.get('edge') else 0.)
      if err > most:
        k = i // max(1, int(np.prod(w.shape[1:])))
        r.violation('excluded', op=j, prop=prop, round=rd, x=np.ravel(xs[k]).tolist(),
                    value=float(w.reshape(-1)[i]), bounds=[float(np.reshape(lo, -1)[i]), float(np.reshape(hi, -1)[i])],
                    slack_units=err, coefficients=jobs.show(jobs.canon(cs), 600))
        return
      if not fin and j['fn'] in _FAR:
        r.violation('not finite', op=j, prop=prop, round=rd, coefficients=jobs.show(jobs.canon(cs), 400))
        return
      fin = fin and not j.get('edge')
      if n == 0:
        if not prop:
          base = fin
        elif base and not fin:
          r.violation('not finite with propagation', op=j, coefficients=jobs.show(jobs.canon(cs), 400))
          return
      elif base and not fin:
        r.violation('not finite when rounded differently', op=j, prop=prop, round=rd,
                    coefficients=jobs.show(jobs.canon(cs), 400))
        return
      r['probes']['points'] = r['probes'].get('points', 0) + len(xs)
      if n == 0 and prop == j['prop'] and sc.get('api'):
        pts = [xs[rng.randrange(len(xs))] for _ in range(3)]
        g = world.result_of(b.final_interval)
        cl, ch = evals.split(b.coefficients[-1])
        if g[0] == 'exc' or not (isinstance(g[1], tuple) and len(g[1]) == 2 and fin <= bool(
            np.all(np.asarray(g[1][0], LD) <= cl) and np.all(np.asarray(g[1][1], LD) >= ch))):
          r.violation('final interval', op=j, prop=prop, got=jobs.show(world.canon_result(g), 300),
                      coefficients=jobs.show(jobs.canon(cs), 300))
          return
        with jobs.prec(j['x64']):
          dt = np.float64 if j['x64'] else np.float32
          for x in pts:
            g = world.result_of(lambda: (np.asarray(b.lower(np.asarray(x, dt)), LD),
                                         np.asarray(b.upper(np.asarray(x, dt)), LD)))
            if g[0] == 'exc':
              r.violation('raised', op=j, prop=prop, at=np.ravel(x).tolist(), error=repr(g[1])[:300])
              return
            k = int(np.argmin(np.abs(xs - x).reshape(len(xs), -1).sum(axis=1)))
            i, err = check_cover(g[1][0], g[1][1], np.broadcast_to(mag, lo.shape)[k], w[k], eps, most, 1. + xm, sing)
            worst = max(worst, err if fin and not j.get('edge') else 0.)
            if err > most:
              r.violation('excluded', op=j, prop=prop, x=np.ravel(x).tolist(), via='lower/upper',
                          value=np.ravel(w[k]).astype(float).tolist()[:8],
                          bounds=[np.ravel(v).astype(float).tolist()[:8] for v in g[1]])
              return
  key = 'worst error, units of 10 ulp of the scale'
  r['probes'][key + ' > 1'] = r['probes'].get(key + ' > 1', 0) + int(worst > 10)
  r['worst'] = max(r.get('worst', 0.), worst)


# -- arithmetic ----------------------------------------------------------------

def pick(rng, c):
  """A member of a coefficient: an array between its end points."""
  lo, hi = evals.split(c)
  m = rng.integers(0, 4)
  u = {0: np.zeros(lo.shape), 1: np.ones(lo.shape)}.get(int(m))
  if u is None:
    u = rng.integers(0, 2, lo.shape) if m == 2 else rng.random(lo.shape)
  return np.clip(lo + (hi - lo) * u, lo, hi)


def poly_at(cs, z):
  lo, _, mag = evals.enclosure_at(cs, z)
  return lo, mag


def exact(o, sc, c, vals, rng, npts):
  """(z, value, magnitude) samples of what operation `o` may denote, or None."""
  n = o['name']
  xs = tuple(c['xs'])
  lo, hi = np.asarray(c['lo'], LD), np.asarray(c['hi'], LD)
  u = rng.integers(0, 5, (npts,) + xs) / LD(4)
  u = np.where(rng.random((npts,) + xs) < 0.5, rng.random((npts,) + xs), u)
  z = lo + (hi - lo) * u

  def poly(name, zz):
    return poly_at([pick(rng, v) for v in vals[name]], zz)
  if n in ('add', 'subtract', 'multiply', 'divide', 'bilinear', 'negative', 'power', 'enclose', 'elem'):
    out, mags = [], []
    for i in range(npts):
      zi = z[i:i + 1]
      a, am = poly(o['a'], zi)
      if n in ('add', 'subtract', 'multiply', 'divide', 'bilinear'):
        b, bm = poly(o['b'], zi)
      if n == 'add':
        v, m = a + b, am + bm
      elif n == 'subtract':
        v, m = a - b, am + bm
      elif n == 'multiply':
        v, m = a * b, am * bm
      elif n == 'divide':
        v, m = a / b, am / np.abs(b)
      elif n == 'bilinear':
        v, m = a * b[:, ::-1], am * bm[:, ::-1]
      elif n == 'negative':
        v, m = -a, am
      elif n == 'enclose':
        v, m = a, am
      elif n == 'power':
        v, m = evals.value('pow', a, o['p']), np.maximum(am, 1) ** max(o['p'], 0)
      else:
        v = evals.value(o['f'], a, o.get('p'))
        m = np.abs(v) + am
      out.append(v)
      mags.append(m)
    return z, np.concatenate(out), np.concatenate(mags)
  if n == 'compose':
    out, mags = [], []
    for i in range(npts):
      zi = z[i:i + 1]
      cs = [pick(rng, v) for v in vals[o['b']]]
      d, dm = poly_at([np.zeros_like(cs[0])] + cs[1:], zi)
      v, m = 0, 0
      for p, cf in enumerate(vals[o['a']]):
        cf = pick(rng, cf)
        v = v + cf * d ** p
        m = m + np.abs(cf) * dm ** p
      out.append(np.broadcast_to(v, np.shape(d)))
      mags.append(np.broadcast_to(m, np.shape(d)))
    return z, np.concatenate(out), np.concatenate(mags)
  return None


def singular(o, c, vals):
  """Operations whose exact result is unbounded or undefined in places."""
  n = o['name']
  arg = None
  if n == 'divide':
    arg = o['b']
  elif n == 'power' and not (o['p'] >= 0 and o['p'] == int(o['p'])):
    arg = o['a']
  elif n == 'elem' and o['f'] in ('log', 'pow'):
    arg = o['a']
  if arg is None:
    return False
  if c['xs']:
    # Enclosures of functions of arrays are not tight: ask for their range.
    lib = env.fresh()
    tr = (np.asarray(c['lo'], np.float64), np.asarray(c['hi'], np.float64))
    lo, _ = evals.split(lib.ea.enclose_enclosure(vals[arg], tr, 0, np)[0])
    if np.any(lo <= 0.02):
      return True
  a = vals[arg]
  lo, hi, mag = evals.enclosure_at(a[:1], np.zeros((1,) + tuple(c['xs']), LD))
  rest = 0
  zz = np.maximum(np.abs(np.asarray(c['lo'], LD)), np.abs(np.asarray(c['hi'], LD)))[None]
  for i, cf in enumerate(a[1:], 1):
    _, _, m = evals.enclosure_at([0.] * i + [cf], zz)
    rest = rest + m
  return bool(np.any(lo - rest <= 0.02))


def run_arith(sc, r, rng):
  c = sc['ctx'][0]
  xp = arith.xp_of(c)
  dt = np.float32 if sc['f32'] else np.float64
  eps = float(np.finfo(dt).eps)
  with jobs.prec(not sc['f32']):
    raw = {n: arith.build_operand(d, np, dt) for n, d in sc['vals'].items()}
    for o in sc['ops']:
      for rd in [{'mode': 'none'}] + sc['rounds']:
        lib = env.fresh()
        env.activate(lib)
        backend.patch()
        np_like = backend.proxy_of(xp)
        cx = dict(c)
        ctx = arith.build_ctx(lib, cx, np_like, dt)
        vals = {n: arith.build_operand(d, xp, dt) for n, d in sc['vals'].items()}
        if xp is np:
          vals = {n: backend.wrap(v) for n, v in vals.items()}
          ctx.trust_region = backend.wrap(ctx.trust_region)
        plan = plan_of(rd)
        with under(plan):
          got = world.result_of(lambda: arith.exec_op(lib, o, ctx, xp, np_like, vals))
        r['crc'] = zlib.crc32(repr(world.canon_result(got)).encode(), r['crc'])
        if plan is not None:
          r['fired'][rd['mode']] = r['fired'].get(rd['mode'], 0) + plan.fired
        if got[0] == 'exc':
          r['probes']['op raised ' + o['name']] = r['probes'].get('op raised ' + o['name'], 0) + 1
          # Not defined for enclosures whose first coefficient is an interval.
          arg = o.get('b') if o['name'] == 'divide' else o.get('a')
          if o['name'] == 'i_power' and o['p'] < 0 and sc['vals'][arg]['kind'] == 'iv':
            break                # refused
          if not (o['name'] in ('elem', 'power', 'divide') and sc['vals'][arg].get('iv', [0])[0]):
            r.violation('raised', op=o, round=rd, error=repr(got[1])[:300])
            return
          break
        nrng = np.random.default_rng(sub_rng('pick', sc['seed'], o['name']).randrange(1 << 30))
        bad = judge(sc, o, c, lib, raw, got[1], nrng, eps, r)
        if bad:
          r.violation('excluded', op=o, round=rd, what=bad,
                      result=jobs.show(world.canon_result(got), 500))
          return


def enc_check(res, z, v, m, eps, r):
  with np.errstate(all='ignore'):
    lo, hi, mag = evals.enclosure_at(res, z)
  try:
    lo, hi, mag, v, m = np.broadcast_arrays(lo, hi, mag, v, m)
  except ValueError:
    return f'shape {lo.shape} instead of {v.shape}'
  i, err = check_cover(lo, hi, mag + m, v, eps, K_ARITH, 1.)
  r['worst'] = max(r.get('worst', 0.), err)
  r['probes']['points'] = r['probes'].get('points', 0) + len(z)
  if err > K_ARITH:
    return (f'value {float(v.reshape(-1)[i])!r} outside [{float(lo.reshape(-1)[i])!r}, '
            f'{float(hi.reshape(-1)[i])!r}] ({err:.3g} slack units)')
  return None


def iv_check(res, v, m, eps, r, strict=True):
  """v: stack of member results; res: interval or array."""
  lo, hi = evals.split(res)
  try:
    lo, hi, v, m = np.broadcast_arrays(lo, hi, v, m)
  except ValueError:
    return f'shape {lo.shape} instead of {v.shape[1:]}'
  i, err = check_cover(lo, hi, m, v, eps, K_ARITH, 1.)
  r['worst'] = max(r.get('worst', 0.), err)
  r['probes']['points'] = r['probes'].get('points', 0) + len(v)
  if err > K_ARITH:
    return (f'value {float(v.reshape(-1)[i])!r} outside [{float(lo.reshape(-1)[i])!r}, '
            f'{float(hi.reshape(-1)[i])!r}] ({err:.3g} slack units)')
  return None


def mono_check(res, g, s=1e-6):
  """res: (decreasing, increasing); g: samples of the derivative."""
  if np.any(np.asarray(res[0]) & np.any(g > s, axis=0)):
    return 'said to be decreasing, but is not'
  if np.any(np.asarray(res[1]) & np.any(g < -s, axis=0)):
    return 'said to be increasing, but is not'
  return None


# -- elementary functions, many regions at a time -------------------------------

_ELEM = ('exp', 'sigmoid', 'softplus', 'swish', 'abs', 'log', 'pow')


# Functions with finite derivatives of every order (that is supported).
_TAME = {'sigmoid', 'softplus', 'swish', 'abs', 'exp'}


def gen_prim(rng):
  f = rng.choice(_ELEM + ('swish', 'softplus', 'sigmoid', 'pow', 'pow', 'pow'))
  o = {'op': 'prim', 'f': f, 'what': rng.choice(['enc', 'enc', 'enc', 'range', 'coeffs', 'mono']),
       'k': rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 4]), 'n': rng.choice([1, 16, 64, 64]), 'seed': rng.randrange(1 << 30),
       'backend': rng.choice(['np', 'np', 'np', 'jnp']), 'f32': rng.random() < 0.35,
       'spread': rng.choice([1., 4., 12., 30., 30., 300., 2000.])}
  if f == 'pow':
    o['what'] = 'enc'
    o['p'] = rng.choice([-3, -2, -1, -1.5, -0.5, 0.5, 1. / 3, 1.5, 2.5, 0, 1, 2, 3, 4, 5, 0., 2., 3., -2.])
    o['edge'] = rng.random() < 0.5
    o['neg'] = rng.random() < 0.3 and float(o['p']) == int(o['p'])
    # Regions with a zero inside (the singularity of negative powers).
    o['both'] = rng.random() < (0.5 if o['p'] >= 0 else 0.3) and float(o['p']) == int(o['p'])
  # Integers of which no power overflows single precision.
  o['ints'] = rng.random() < 0.1
  if f == 'abs':
    o['k'] = min(o['k'], 1)
    if o['what'] == 'mono':
      o['what'] = 'range'
  if f == 'exp':
    o['spread'] = min(o['spread'], 12.)
  if f in ('log', 'pow') and not o.get('both') and not o.get('edge') and rng.random() < 0.3:
    o['scale'] = 10. ** rng.uniform(-3, 4)
  return o


def prim_regions(o):
  dt = np.float32 if o['f32'] else np.float64
  r = np.random.default_rng(o['seed'])
  n = o['n']
  w = np.exp(r.uniform(np.log(0.02), np.log(o['spread']), n))
  if o['f'] == 'log' or (o['f'] == 'pow' and not o.get('both')):
    a = np.exp(r.uniform(np.log(0.1), np.log(4.), n))
    b = a + np.minimum(w, 6 * a + 1)
    a, b = a * o.get('scale', 1.), b * o.get('scale', 1.)
    if o['f'] == 'pow' and o.get('edge'):
      a[r.random(n) < 0.5] = r.choice([0., -0.]) if o['p'] < 0 else 0.
    if o.get('neg'):
      a, b = -b, -a
  else:
    s = min(o['spread'], 3.) if o['f'] == 'pow' else o['spread']
    w = np.minimum(w, 2 * s)
    c = r.uniform(-s, s, n) * (r.random(n) < 0.8)
    a = c - w * np.where(r.random(n) < 0.3, 0.5, r.random(n))
    b = a + w
  a, b = a.astype(dt), b.astype(dt)
  if o.get('ints'):
    a, b = np.floor(a), np.ceil(b)
    if o['f'] == 'log' or (o['f'] == 'pow' and not o.get('both')):
      s = -1 if o.get('neg') else 1
      a, b = np.where(a == 0, 1, a), np.where(b == 0, -1, b)
      b = np.where((a > b) & (s > 0), a + 1, b)
      a = np.where((a > b) & (s < 0), b - 1, a)
  m = r.integers(0, 8, n)
  e = 10. ** -r.uniform(1, 7, n)
  x0 = np.select([m == 0, m == 1, m == 2, m == 3, m == 4],
                 [a, b, a + (b - a) * e, b - (b - a) * e, np.clip(0., a, b)], a + (b - a) * r.random(n)).astype(dt)
  x0 = np.clip(x0, a, b)
  if o.get('ints'):
    x0 = np.round(x0)
  u = np.concatenate([np.linspace(0, 1, 33), e[:1], 1 - e[:1], r.random(8)])[:, None]
  x = a.astype(LD) + (b.astype(LD) - a.astype(LD)) * u
  d = (b - a).astype(LD)
  near = np.stack([np.clip(x0 + s * d * LD(10.) ** -q, a, b) for q in (1, 2, 4) for s in (-1, 1)] + [x0.astype(LD)])
  return dt, a, b, x0, np.concatenate([x, near])


def extremes(f, k, x):
  """Points close to where f^(k) is smallest and largest, between points x."""
  x = np.sort(x, axis=0)
  out = []
  for arg in (np.argmin, np.argmax):
    y = x
    for _ in range(7):
      i = arg(np.nan_to_num(evals.derivs(f, y, k)[k]), axis=0)
      c = np.arange(y.shape[1])
      lo, hi = y[np.maximum(i - 1, 0), c], y[np.minimum(i + 1, len(y) - 1), c]
      y = lo + (hi - lo) * (np.arange(17)[:, None] / LD(16))
    out.append(np.clip(y, x[0], x[-1]))
  return np.concatenate(out)


def run_prim(sc, r, o):
  dt, a, b, x0, x = prim_regions(o)
  if o['what'] == 'range':
    with np.errstate(all='ignore'):
      x = np.concatenate([x, extremes(o['f'], o['k'], x)])
  eps = float(np.finfo(dt).eps)
  xp = np if o['backend'] == 'np' else env.jnp
  f, k = o['f'], o['k']
  with jobs.prec(not o['f32']), np.errstate(all='ignore'):
    for rd in [{'mode': 'none'}] + sc['rounds']:
      lib = env.fresh()
      env.activate(lib)
      backend.patch()
      np_like = backend.proxy_of(xp)
      A, B, X0 = (v.astype(np.int64) if o.get('ints') else v.copy() for v in (a, b, x0))
      A, B, X0 = (backend.wrap(v) if xp is np else xp.asarray(v) for v in (A, B, X0))
      plan = plan_of(rd)

      def call():
        if o['what'] == 'enc':
          return arith.enclosure_fun(lib, o)(X0, (A, B), k, np_like)
        fid = getattr(lib.ef, arith._EF[f])
        if o['what'] == 'range':
          return lib.ef.get_range(fid.derivative_id(k), (A, B), np_like)
        if o['what'] == 'mono':
          return lib.ef.get_function_data(fid.derivative_id(k)).monotone_over((A, B), np_like)
        return tuple(lib.ef.get_taylor_polynomial_coefficients(fid, k, X0, np_like))
      with under(plan):
        got = world.result_of(call)
      r['crc'] = zlib.crc32(repr(world.canon_result(got)).encode(), r['crc'])
      if plan is not None:
        r['fired'][rd['mode']] = r['fired'].get(rd['mode'], 0) + plan.fired
      bad = None
      if got[0] == 'exc':
        if o['what'] in ('range', 'mono') and isinstance(got[1], NotImplementedError) and k >= 4:
          r['probes']['not tabulated'] = r['probes'].get('not tabulated', 0) + 1
          return
        bad, kind = repr(got[1])[:300], 'raised'
      else:
        kind = 'excluded'
        res = got[1]
        if o['what'] == 'enc':
          v = evals.value(f, x, o.get('p'))
          d = x - x0.astype(LD)
          lo, hi, m = np.zeros(x.shape, LD), np.zeros(x.shape, LD), np.zeros(x.shape, LD)
          for i, cf in enumerate(res):
            cl, ch = evals.split(cf)
            q = d ** i
            lo = lo + evals._times(np.where(q >= 0, cl, ch), q)
            hi = hi + evals._times(np.where(q >= 0, ch, cl), q)
            g = np.maximum(np.abs(cl), np.abs(ch)) * np.abs(q)
            m = m + np.where(np.isfinite(g), g, 0)
          # Rounding of derivatives: values of the function's scale.
          v = np.where(np.isfinite(v), v, np.nan)
          top = np.abs(v) if o.get('both') and o['p'] < 0 else np.max(np.abs(np.asarray(v)), axis=0)
          # The derivatives at zero need not exist.
          if f == 'pow' and (int(o['p']) != o['p'] or o['p'] < 0):
            v = np.where(x0 == 0, np.nan, v)
          i, err = check_cover(lo, hi, m + top, v, eps, K_ARITH, 1. + np.abs(x))
          if err > K_ARITH:
            c = i % len(a)
            bad = (f'{f}({float(x.reshape(-1)[i])!r}) = {float(np.ravel(v)[i])!r} outside [{float(lo.reshape(-1)[i])!r}, '
                   f'{float(hi.reshape(-1)[i])!r}]; region [{float(a[c])!r}, {float(b[c])!r}] centre {float(x0[c])!r} '
                   f'degree {k} ({err:.3g} slack units)')
          r['worst'] = max(r.get('worst', 0.), err)
          if not bad and f in _TAME and not all(np.all(np.isfinite(q)) for cf in res for q in evals.split(cf)):
            kind, bad = 'not finite', f'{f}, degree {k}: {jobs.show(jobs.canon(res), 400)}'
        elif o['what'] == 'coeffs':
          v = evals.derivs(f, x0, k)
          for i, cf in enumerate(res):
            if f == 'abs' and i:
              continue
            w = v[i] / math.factorial(i)
            bad = bad or iv_check((cf, cf), w[None], np.abs(w[None]) + 1, eps, r)
        else:
          v = evals.derivs(f, x, k + 1)
          if o['what'] == 'range':
            bad = iv_check(res, v[k], np.max(np.abs(v[k]), axis=0)[None] + 1, eps, r)
          else:
            bad = mono_check(res, v[k + 1])
        r['probes']['points'] = r['probes'].get('points', 0) + x.size
      if bad:
        r.violation(kind, op=o, round=rd, what=bad)
        return


def judge(sc, o, c, lib, vals, res, rng, eps, r):
  n = o['name']
  N = 24
  if n == 'elem' and o['tr']:
    return None
  if singular(o, c, vals):
    return None
  with np.errstate(all='ignore'):
    e = exact(o, sc, c, vals, rng, N)
    if e is not None:
      return enc_check(res, e[0], e[1], e[2], eps, r)
    if n == 'eval':
      z = np.asarray(o['z'] if c['xs'] else o['z'][0], LD)
      out, mags = [], []
      for _ in range(N):
        zz = z + (LD(0.25) * rng.random(z.shape) if o['ivz'] else 0)
        v, m = poly_at([pick(rng, q) for q in vals[o['a']]], zz[None])
        out.append(v[0])
        mags.append(m[0])
      return iv_check(res, np.stack(out), np.stack(mags), eps, r)
    if n == 'f_eval_elem':
      out, mags = [], []
      for _ in range(N):
        x = pick(rng, vals[o['b']])
        cs = [pick(rng, q) for q in vals[o['a']]]
        out.append(sum(q * x ** i for i, q in enumerate(cs)) + 0 * x)
        mags.append(sum(np.abs(q) * np.abs(x) ** i for i, q in enumerate(cs)) + 0 * x)
      return iv_check(res, np.stack(out), np.stack(mags), eps, r)
    if n.startswith('i_'):
      out, mags = [], []
      for _ in range(N):
        a = pick(rng, vals[o['a']])
        b = pick(rng, vals[o['b']]) if 'b' in o else None
        if n == 'i_add':
          v, m = a + b, np.abs(a) + np.abs(b)
        elif n == 'i_subtract':
          v, m = a - b, np.abs(a) + np.abs(b)
        elif n == 'i_multiply':
          v = a * b
          m = np.abs(v)
        elif n == 'i_negative':
          v, m = -a, np.abs(a)
        elif n == 'i_power':
          v = a ** o['p']
          v = np.where(np.isfinite(v), v, np.nan)
          m = np.abs(v)
        elif n == 'i_outer_product':
          v = a * b if o['bd'] else np.multiply.outer(a, b)
          m = np.abs(v)
        elif n == 'i_outer_power':
          v = np.ones((), LD)
          for _ in range(o['p']):
            v = v * a if o['bd'] else np.multiply.outer(v, a)
          m = np.abs(v)
        elif n == 'i_tensordot':
          v = np.tensordot(a, b, o['axes'])
          m = np.tensordot(np.abs(a), np.abs(b), o['axes'])
        elif n == 'i_bilinear':
          v = a * b[::-1]
          m = np.abs(v)
        out.append(v)
        mags.append(m)
      return iv_check(res, np.stack(out), np.stack(mags), eps, r)
    if n in ('f_enclosure', 'f_pow_enclosure'):
      lo, hi = evals.split(vals[o['a']])
      f = o.get('f', 'pow')
      p = o.get('p')
      dt = np.float32 if sc['f32'] else np.float64
      x0 = np.asarray((lo.astype(dt) + hi.astype(dt)) / dt(2), LD)
      out, mags = [], []
      for i in range(N):
        x = pick(rng, vals[o['a']])
        d = x - x0
        v = evals.value(f, x, p)
        l, h, m = 0, 0, 0
        for k, cf in enumerate(res):
          cl, ch = evals.split(cf)
          q = d ** k
          l = l + np.where(q >= 0, cl, ch) * q
          h = h + np.where(q >= 0, ch, cl) * q
          m = m + np.maximum(np.abs(cl), np.abs(ch)) * np.abs(q)
        _, err = check_cover(l, h, m, v, eps, K_ARITH, 1. + np.abs(x))
        r['worst'] = max(r.get('worst', 0.), err)
        if err > K_ARITH:
          return f'f({x.astype(float)!r}) = {np.asarray(v, float)!r} outside [{l!r}, {h!r}]'
      return None
    if n in ('f_range', 'f_mono'):
      x = np.stack([pick(rng, vals[o['a']]) for _ in range(N)]
                   + [evals.split(vals[o['a']])[0] + (evals.split(vals[o['a']])[1] - evals.split(vals[o['a']])[0]) * t / 16
                      for t in range(17)])
      v = evals.derivs(o['f'], x, o['k'] + 1)
      if n == 'f_range':
        return iv_check(res, v[o['k']], np.abs(v[o['k']]) + 1, eps, r)
      return mono_check(res, v[o['k'] + 1])
    if n == 'f_coeffs':
      x = evals.split(vals[o['a']])[0]
      v = evals.derivs(o['f'], x, o['k'])
      for k, cf in enumerate(res):
        w = v[k] / math.factorial(k)
        if o['f'] == 'abs' and k:
          continue
        bad = iv_check((cf, cf), w[None], np.abs(w[None]) + 1, eps, r)
        if bad:
          return f'coefficient {k}: {bad}'
      return None
    if n == 'f_pbilinear' and not c['xs']:
      out, mags, zs = [], [], []
      for _ in range(N):
        z = np.asarray(rng.uniform(-1.5, 1.5), LD)[None]
        a, am = poly_at([pick(rng, q) for q in vals[o['a']]], z)
        b, bm = poly_at([pick(rng, q) for q in vals[o['b']]], z)
        zs.append(z)
        out.append(a * b)
        mags.append(am * bm)
      return enc_check(tuple(res), np.concatenate(zs), np.concatenate(out), np.concatenate(mags), eps, r)
    if n == 'f_ipow' and not c['xs']:
      out, mags, zs = [], [], []
      for _ in range(N):
        z = np.asarray(rng.uniform(-1.5, 1.5), LD)[None]
        a, am = poly_at([pick(rng, q) for q in vals[o['a']]], z)
        zs.append(z)
        out.append(a ** o['p'])
        mags.append(am ** o['p'])
      return enc_check(tuple(res), np.concatenate(zs), np.concatenate(out), np.concatenate(mags), eps, r)
  return None


def run(sc):
  r = core.Result()
  r['probes'] = {}
  rng = sub_rng('points', sc['seed'])
  for j in sc['ops']:
    if j['op'] == 'prim':
      run_prim(sc, r, j)
      if r['viol']:
        break
      continue
    if j['op'] == 'prog':
      run_prog(sc, r, j)
      if r['viol']:
        break
      continue
    if j['op'] != 'bound':
      run_arith(sc, r, rng)
      break
    run_bound(sc, r, j, rng)
    if r['viol']:
      break
  w = r.get('worst', 0.)
  for t in (3, 10, 30, 100):
    if w > t:
      r['probes'][f'runs whose worst error exceeds {t} slack units'] = 1
  w = r.get('worst prog', 0.)
  for t in (10, 100, 1000):
    if w > t:
      r['probes'][f'programs whose worst error exceeds {t} slack units'] = 1
  r['ops'] = len(sc['ops'])
  r['stats'] = {'roundings_changed': sum(r['fired'].values())}
  r['nontrivial'] = sum(r['fired'].values()) > 0
  return r
