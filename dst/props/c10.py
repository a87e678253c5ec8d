"""C10: program rewriting is capture-free under any variable numbering."""
import core
import jobs
import rewrite
import world
from core import sub_rng

PID = 'C10'
BLOCK = 60
BFN = ('sigmoid', 'softplus', 'swish', 'sigswish', 'split', 'mlp0', 'jitted', 'lse')


def gen(k, seed, tier):
  blk = sub_rng(PID, seed, 'block', k // BLOCK)
  base = [jobs.gen_job(blk, names=BFN, degs=(1, 2)) for _ in range(2)]
  rng = sub_rng(PID, seed, k)
  n = rng.choice([1, 1, 2, 2, 3])
  ks = [rng.randrange(1 << 30) for _ in range(rng.choice([1, 2, 4]) if n > 1 else 8)]
  progs = []
  for t in range(n):
    prog = []
    for i in range(rng.choice([2, 3, 4]) if n > 1 else 10):
      if n == 1 and rng.random() < 0.12:
        prog.append(dict(rng.choice(base), start=rng.choice([0, 1, 2, 5, 9, 40])))
        continue
      o = {'op': 'rewrite', 'k': rng.choice(ks)}
      if rng.random() < 0.6:
        o['share'] = 0
      prog.append(o)
    progs.append(prog)
  return {'prop': PID, 'seed': rng.randrange(1 << 40), 'progs': progs,
          'policy': core.gen_policy(rng) if n > 1 else {'kind': 'none'}}


class RWorld(world.World):
  def op_bound(self, j):
    if 'start' not in j:
      return super().op_bound(j)
    # The tracer's counter restarts, as in a process that traced less before
    # (process-wide: only in runs with a single caller).
    with rewrite.numbering(j['start']):
      return super().op_bound({a: b for a, b in j.items() if a != 'start'})


def run(sc):
  for p in sc['progs']:
    for op in p:
      if op['op'] == 'bound':
        world.reference({a: b for a, b in op.items() if a != 'start'})
  w = RWorld(user_points=False)
  s, hist = core.run_programs(sc, w, max_steps=20_000_000)
  r = core.Result(s)
  cases = {op['k'] for p in sc['progs'] for op in p if op['op'] == 'rewrite'}
  occ = sum(any(st[0] == 'occ' for st in rewrite.gen_case(c)['stmts']) for c in cases)
  r['probes'] = {'cases': len(cases), 'cases with occurrences': occ}
  r['nontrivial'] = occ > 0
  core.check_progress(s, r)
  for h in hist:
    if h['res'] is None:
      continue
    op = h['op']
    if op['op'] == 'bound':
      ref = world.reference({a: b for a, b in op.items() if a != 'start'})
      if world.norm(h['res']) != world.norm(ref):
        r.violation('bound differs', op=op, got=jobs.show(h['res'][1:]), alone=jobs.show(ref[1:]))
      continue
    if h['res'] != ('ok', ('T', 'equal')):
      c = rewrite.Programs(op['k'])
      r.violation('rewriting is wrong', op=op, got=jobs.show(h['res'][1:]),
                  error=repr(h['raw'][1])[:300], rules=[[str(a), str(b)] for a, b in c.rules],
                  subject=str(c.subject), starts=c.case['starts'])
  r['ops'] = len(hist)
  return r
