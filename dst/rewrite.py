"""Program-rewriting workload: patterns, replacements and subjects.

A case is generated from an integer as three small straight-line programs.  The
oracle is the Python function with the replacement written in place of every
occurrence, evaluated in NumPy.
"""
import itertools
import math
import operator
import random
import re

import sim
from env import jax, jnp, np
from jax._src import core as _core
import jax.lax as lax

UN = {'sin': (lax.sin, np.sin), 'cos': (lax.cos, np.cos), 'tanh': (lax.tanh, np.tanh),
      'atan': (lax.atan, np.arctan), 'neg': (lax.neg, np.negative), 'abs': (lax.abs, np.abs),
      'logistic': (lax.logistic, lambda x: 1 / (1 + np.exp(-x))),
      'asinh': (lax.asinh, np.arcsinh)}
BIN = {'add': (lax.add, np.add), 'sub': (lax.sub, np.subtract), 'mul': (lax.mul, np.multiply),
       'max': (lax.max, np.maximum), 'min': (lax.min, np.minimum)}
OPER = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul}
INNER = {0: lambda s, x: s('mul', s('sin', x), x), 1: lambda s, x: s('mul', s('cos', x), x),
         2: lambda s, x: s('add', s('sin', x), x), 3: lambda s, x: s('abs', s('sub', x, s('tanh', x))),
         # As number 0, but another result, another order or another operand.
         4: lambda s, x: [t := s('sin', x), s('mul', t, x)][0], 5: lambda s, x: s('mul', x, s('sin', x)),
         6: lambda s, x: s('mul', t := s('sin', x), t)}
NINNER = len(INNER)
# Operations with inner programs: compiled, with array constants, with a
# derivative rule, rematerialised, repeated, conditional (the first or the
# second branch varies), in a loop (the body or the condition varies).
KINDS = ('jit', 'con', 'jvp', 'rem', 'scn', 'vjp', 'cnd', 'cne', 'whl', 'whc')
ARRS = ((1.0, 0.5), (0.25, -1.0), (1.0, 0.75), (0.5, 0.5, 0.25), (0.5, 1.0), (1.5,), (1.0, 0.25))


def inner_np(kind, k, x):
  if kind == 'con':
    return x * np.sum(np.array(ARRS[k])) + np.sin(x)
  if kind == 'scn':
    return INNER[k](np_eval, INNER[k](np_eval, x))
  if kind in ('cnd', 'cne'):
    a, b = INNER[k](np_eval, x), INNER[0](np_eval, x)
    return np.where(x > 0, *((a, b) if kind == 'cnd' else (b, a)))
  if kind in ('whl', 'whc'):
    for _ in range(2 if kind == 'whl' else 1 + k):
      x = INNER[k if kind == 'whl' else 3](np_eval, x)
    return x
  return INNER[k](np_eval, x)


def inner_jax(kind, k, x):
  body = lambda x: INNER[k](jax_eval, x)
  if kind == 'jit':
    return jax.jit(body)(x)
  if kind == 'con':
    c = np.array(ARRS[k], np.float32)
    return jax.jit(lambda x: jnp.sum(c) * x + lax.sin(x))(x)
  if kind == 'jvp':
    f = jax.custom_jvp(body)
    f.defjvp(lambda p, t: (f(*p), t[0]))
    return f(x)
  if kind == 'vjp':
    f = jax.custom_vjp(body)
    f.defvjp(lambda x: (body(x), x), lambda r, t: (t,))
    return f(x)
  if kind in ('cnd', 'cne'):
    first = lambda x: INNER[0](jax_eval, x)
    return lax.cond(x > 0, *((body, first) if kind == 'cnd' else (first, body)), x)
  if kind in ('whl', 'whc'):
    n, step = (2, body) if kind == 'whl' else (1 + k, lambda x: INNER[3](jax_eval, x))
    return lax.while_loop(lambda c: c[0] < n, lambda c: (c[0] + 1, step(c[1])), (0, x))[1]
  if kind == 'rem':
    return jax.checkpoint(body)(x)
  return lax.scan(lambda c, _: (body(c), None), x, None, length=2)[0]


# The first operation of a pattern occurs nowhere else; 'atan' only breaks runs.
# Replacements that cannot stand in for the pattern.
BAD = ('more inputs', 'fewer inputs', 'more outputs', 'fewer outputs', 'constants', 'pattern constants')
CONST = -1                       # index of a constant result
FIRST = ('sin', 'cos')
FILL_U = ('tanh', 'neg', 'abs', 'logistic')


def np_eval(name, *a):
  return (UN.get(name) or BIN[name])[1](*a)


def jax_eval(name, *a):
  return (UN.get(name) or BIN[name])[0](*a)


def run_ops(ops, ins, backend):
  """Executes operations [(name, args, const)] over values `ins`."""
  vals = list(ins)
  for name, args, c in ops:
    a = [vals[i] for i in args]
    if name[:3] in KINDS and name[3:]:
      vals.append((inner_np if backend == 'np' else inner_jax)(name[:3], int(name[3:]), a[0]))
      continue
    if isinstance(c, int) and backend == 'jax':
      # Python integers become array literals.
      vals.append(OPER[name](a[0], c))
      continue
    if c is not None:
      a.append(float(c))
    vals.append((np_eval if backend == 'np' else jax_eval)(name, *a))
  return vals


def gen_ops(rng, n_in, n_ops, first, fill_u, consts=True, jit=None, need_all=True):
  """A straight-line program whose operations are all used."""
  while True:
    ops = []
    n = n_in
    for i in range(n_ops):
      if i == 0 and first:
        ops.append((first, [rng.randrange(n_in)], None))
      else:
        # Prefer the latest value so that everything stays connected.
        pick = lambda: n - 1 if rng.random() < 0.55 else rng.randrange(n)
        r = rng.random()
        if jit is not None and r < 0.12:
          ops.append((jit, [pick()], None))
        elif r < 0.35:
          ops.append((rng.choice(fill_u), [pick()], None))
        elif consts and r < 0.6:
          ops.append((rng.choice(['mul', 'add', 'sub']), [pick()], rng.choice([0.5, 2.0, 0.25, 1.5, 2, 3])))
        else:
          ops.append((rng.choice(list(BIN)), [pick(), pick()], None))
      n += 1
    used = set(i for _, a, _ in ops for i in a)
    outs = [i for i in range(n_in, n) if i not in used]
    if need_all and not all(i in used for i in range(n_in)):
      continue
    if any(nm in ('max', 'min', 'sub') and c is None and a[0] == a[1] for nm, a, c in ops):
      continue
    return ops, outs


def gen_case(k):
  """Case number k: rules, a subject, and variable numberings."""
  rng = random.Random(f'rewrite|{k}')
  n_rules = rng.choice([1, 1, 1, 2])
  rules = []
  for r in range(n_rules):
    for _ in range(1000):
      n_in = rng.choice([1, 1, 2])
      jit = f'{rng.choice(KINDS)}{rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6])}' if rng.random() < 0.35 else None
      pat, pout = gen_ops(rng, n_in, rng.choice([1, 2, 2, 3, 4] if n_in == 1 else [2, 3, 4]), FIRST[r], FILL_U, jit=jit)
      if len(pout) > 2:
        continue
      # Sometimes an interior result is an output too.
      inner = [i for i in range(n_in, n_in + len(pat)) if i not in pout]
      if len(pout) == 1 and inner and rng.random() < 0.2:
        pout = sorted(pout + [rng.choice(inner)])
      for _ in range(300):
        rep, rout = gen_ops(rng, n_in, rng.choice([1, 2, 3, 4, 5]), None, FILL_U + ('asinh',),
                            jit=jit, need_all=False)
        rops = list(range(n_in, n_in + len(rep)))
        if len(rout) > len(pout):
          continue
        extra = [i for i in rops if i not in rout]
        if len(extra) < len(pout) - len(rout):
          continue
        rout = rout + rng.sample(extra, len(pout) - len(rout))
        rng.shuffle(rout)
        # Sometimes an input, a constant, or the same value twice.
        for i in range(len(rout)):
          if rng.random() < 0.12:
            rout[i] = rng.choice(
                list(range(n_in)) + [CONST if r == n_rules - 1 else 0, rng.choice(rout)])
        break
      else:
        continue
      break
    rules.append({'n_in': n_in, 'pat': pat, 'pout': pout, 'rep': rep, 'rout': rout,
                  'jit': jit})
  # The subject: fillers, occurrences and near misses of the patterns.
  n_in = rng.choice([1, 1, 2, 3])
  n = n_in
  stmts = []
  for _ in range(rng.choice([1, 2, 3, 4, 6])):
    c = rng.random()
    if c < 0.1:
      q = rng.randrange(n_rules)
      st = rng.choice([leak, own_input])(rng, rules[q], q, n)
      if st:
        stmts.append(st)
        n += len(st[3])
    elif c < 0.5:
      q = rng.randrange(n_rules)
      stmts.append(['occ', q, [rng.randrange(n) for _ in range(rules[q]['n_in'])]])
      n += len(rules[q]['pout'])
    elif c < 0.75:
      q = rng.randrange(n_rules)
      m = near_miss(rng, rules[q])
      if m is None:
        continue
      stmts.append(['ops', m, [rng.randrange(n) for _ in range(rules[q]['n_in'])]])
      n += 1
    else:
      ops, _ = gen_ops(rng, 1, rng.choice([1, 2]), None, FILL_U, need_all=False)
      stmts.append(['ops', ops, [rng.randrange(n)]])
      n += 1
  # Variable numbering: counter values at which each trace starts.
  big = rng.random() < 0.15
  starts = [rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 20, 33, 900 if big else 4, 100000 if big else 6])
            for _ in range(1 + 2 * n_rules)]
  return {'rules': rules, 'n_in': n_in, 'stmts': stmts, 'starts': starts,
          'vec': rng.random() < 0.25 and all(r['jit'] is None for r in rules), 'const': rng.random() < 0.2,
          'bad': rng.choice(BAD + (None,) * 50),
          'xs': [[rng.randrange(-64, 65) / 32 for _ in range(n_in)] for _ in range(2)]}


def leak(rng, rule, q, n):
  """The pattern's operations, with an intermediate result used elsewhere."""
  n_in = rule['n_in']
  inner = [i for i in range(n_in, n_in + len(rule['pat'])) if i not in rule['pout']]
  if not inner:
    return None
  return ['raw', rule['pat'], [rng.randrange(n) for _ in range(n_in)],
          rng.sample(rule['pout'] + [rng.choice(inner)], len(rule['pout']) + 1)]


def own_input(rng, rule, q, n):
  """The pattern's operations, with one of their results as an input."""
  n_in = rule['n_in']
  if n_in < 2:
    return None
  b = rng.randrange(n_in)
  first = min(i for i, (_, a, _) in enumerate(rule['pat']) if b in a)
  if first == 0:
    return None
  r = n_in + rng.randrange(first)
  pat = [[nm, [r if x == b else x for x in a], c] for nm, a, c in rule['pat']]
  if any(nm in ('max', 'min', 'sub') and c is None and a[0] == a[1] for nm, a, c in pat):
    return None
  return ['raw', pat, [rng.randrange(n) for _ in range(n_in)], rule['pout']]


def near_miss(rng, rule):
  """Operations that resemble the pattern but are no occurrence of it."""
  pat = [list(o) for o in rule['pat']]
  c = [i for i, o in enumerate(pat) if o[2] is not None]
  j = [i for i, o in enumerate(pat) if o[0][:3] in KINDS and o[0][3:]]
  r = rng.random()
  if c and r < 0.4:
    pat[rng.choice(c)][2] = rng.choice([0.75, -0.5, 5, 7.0])
    return pat
  if j and r < 0.7:
    i = rng.choice(j)
    kind, q = pat[i][0][:3], int(pat[i][0][3:])
    if rng.random() < 0.15:
      # The two kinds of conditional are the same if both branches are.
      same = {kind, 'cnd', 'cne'} if kind in ('cnd', 'cne') else {kind}
      kind = rng.choice([x for x in KINDS if x not in same])
    else:
      q = (q + rng.randrange(1, NINNER)) % NINNER
    pat[i][0] = f'{kind}{q}'
    return pat
  if len(pat) >= 2:
    # Break the run of operations after the first one(s).
    cut = rng.randrange(1, len(pat))
    n_in = rule['n_in']
    out = pat[:cut] + [['atan', [n_in + cut - 1], None]]
    for nm, a, cc in pat[cut:]:
      out.append([nm, [x if x < n_in + cut else x + 1 for x in a], cc])
    return out
  return None


def subject(case, replaced, backend, const):
  """Python function of the subject, with or without the rules applied."""
  rules = case['rules']

  def f(*xs):
    vals = list(xs)
    if const is not None:
      vals[0] = (lax.add if backend == 'jax' else np.add)(vals[0], const)
    for kind, q, args, *idx in case['stmts']:
      ins = [vals[i] for i in args]
      if kind == 'occ':
        r = rules[q]
        v = run_ops(r['rep'] if replaced else r['pat'], ins, backend)
        vals += select(v, r['rout'] if replaced else r['pout'])
      elif kind == 'raw':
        vals += select(run_ops(q, ins, backend), idx[0])
      else:
        vals.append(run_ops(q, ins, backend)[-1])
    return tuple(vals[len(xs):]) or (vals[0],)
  return f


def select(vals, idx):
  return tuple(1.25 if i == CONST else vals[i] for i in idx)


class numbering:
  """Makes the tracer number variables from `start`."""

  def __init__(self, start):
    self.start = start

  def __enter__(self):
    self.old = getattr(_core, '_var_counter', None)
    if self.old is not None:
      _core._var_counter = itertools.count(self.start)

  def __exit__(self, *a):
    if self.old is not None:
      _core._var_counter = self.old


def trace(f, start, args):
  with numbering(start):
    return jax.make_jaxpr(lambda *a: f(*a))(*args)


def describe(j):
  """Everything a rewrite could change in a Jaxpr."""
  seen = {}

  def v(x):
    if isinstance(x, _core.Literal):
      return ('L', repr(x.val), str(x.aval))
    return ('V', seen.setdefault(id(x), len(seen)), getattr(x, 'count', None), str(x.aval))

  def p(x):
    if isinstance(x, _core.ClosedJaxpr):
      return describe(x.jaxpr)
    if isinstance(x, _core.Jaxpr):
      return describe(x)
    return repr(x)
  return (tuple(v(x) for x in j.invars), tuple(v(x) for x in j.constvars),
          tuple((e.primitive.name, tuple(v(x) for x in e.invars), tuple(v(x) for x in e.outvars),
                 tuple((k, p(x)) for k, x in sorted(e.params.items()))) for e in j.eqns),
          tuple(v(x) for x in j.outvars))


class Programs:
  """Traced programs of a case (possibly shared between callers)."""

  def __init__(self, k):
    with sim.quiet():
      self.case = c = gen_case(k)
      self.dt = np.float32
      one = np.float32(0.5)
      xs = [np.full((3,) if c['vec'] else (), 0.5, np.float32)] * c['n_in']
      self.const = np.full((3,) if c['vec'] else (), 0.25, np.float32) if c['const'] and c['vec'] else None
      self.rules = []
      for i, r in enumerate(c['rules']):
        ins = [one] * r['n_in']
        self.rules.append((
            trace(lambda *a, r=r: select(run_ops(r['pat'], a, 'jax'), r['pout']),
                  c['starts'][1 + 2 * i], ins).jaxpr,
            trace(lambda *a, r=r: select(run_ops(r['rep'], a, 'jax'), r['rout']),
                  c['starts'][2 + 2 * i], ins).jaxpr))
      self.subject = trace(subject(c, False, 'jax', self.const), c['starts'][0], xs)
      self.bad = self.misfit(c, one) if c['bad'] else None
      self.before = self.snapshot()

  def misfit(self, c, one):
    r, bad = c['rules'][0], c['bad']
    pat, rep = self.rules[0]
    n, start = r['n_in'], c['starts'][2]
    f = lambda *a: select(run_ops(r['rep'], a, 'jax'), r['rout'])
    g = lambda *a: select(run_ops(r['pat'], a, 'jax'), r['pout'])
    k = np.array([0.25, 0.5], np.float32)
    if bad == 'more inputs':
      return pat, trace(lambda *a: f(*a[:-1]), start, [one] * (n + 1)).jaxpr
    if bad == 'fewer inputs':
      return pat, trace(lambda *a: f(*a, *[0.5] * (n - len(a))), start, [one] * (n - 1)).jaxpr
    if bad == 'more outputs':
      return pat, trace(lambda *a: f(*a) + (lax.sin(a[0]),), start, [one] * n).jaxpr
    if bad == 'fewer outputs':
      return pat, trace(lambda *a: f(*a)[1:], start, [one] * n).jaxpr
    h = trace(lambda *a: tuple(v + k for v in (f if bad == 'constants' else g)(*a)),
              start, [one] * n).jaxpr
    if not h.constvars:
      return None
    return (pat, h) if bad == 'constants' else (h, rep)

  def snapshot(self):
    return tuple(describe(j) for j in self.bad or ()) + tuple(describe(j) for r in self.rules for j in r) + (describe(self.subject.jaxpr),)


def run(lib, progs):
  """Applies the rules; returns ('equal',) or a description of what is wrong."""
  c = progs.case
  j = progs.subject.jaxpr
  if progs.bad:
    try:
      lib.jaxpr_editor.replace(*progs.bad, j)
    except Exception as e:
      if isinstance(e, tuple(sim.EXC.values())):
        raise
    else:
      return ('misfit accepted', c['bad'])
  for pat, rep in progs.rules:
    j = lib.jaxpr_editor.replace(pat, rep, j)
    sim.point('between rules')
  with sim.quiet():
    want_f = subject(c, True, 'np', None if progs.const is None else progs.const.astype(np.float64))
    n_occ = sum(s[0] == 'occ' for s in c['stmts'])
    for row in c['xs']:
      xs = [np.full((3,), x) + np.arange(3) / 8 if c['vec'] else np.asarray(x) for x in row]
      want = want_f(*[np.asarray(x, np.float64) for x in xs])
      rough = want_f(*[np.asarray(x, np.float32) for x in xs])
      if not all(np.all(np.abs(a - b) <= 1e-4 * (1 + np.abs(b))) for a, b in zip(rough, want)):
        continue   # ill-conditioned: float32 decides nothing
      try:
        got = _core.eval_jaxpr(j, progs.subject.consts, *[jnp.asarray(x, jnp.float32) for x in xs])
      except Exception as e:
        return ('rewritten program fails', type(e).__name__, re.sub(r'id=\d+', 'id', str(e))[:200])
      for i, (a, b) in enumerate(zip(got, want)):
        a = np.asarray(a, np.float64)
        if a.shape != np.shape(b) or not np.all(np.abs(a - b) <= 1e-3 * (1 + np.abs(b))):
          return ('wrong value', i, repr(a.tolist()), repr(np.asarray(b).tolist()))
    if progs.snapshot() != progs.before:
      return ('input program modified',)
  return ('equal',)
