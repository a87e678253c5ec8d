"""Self test of the simulator: `selftest.py [--quick]`.

Same seed, same event log: in this process, in fresh processes, under another
PYTHONHASHSEED and with other processes busy.  Exit 0: as expected.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = [f'C{i:02d}' for i in range(1, 14)]


def child(pid, seed, ks):
  sys.path.insert(0, HERE)
  sys.path.insert(0, os.path.join(HERE, 'props'))
  import importlib
  m = importlib.import_module(pid.lower())
  if hasattr(m, 'init'):
    m.init(seed, 'quick')
  out = []
  for k in ks:
    sc = m.gen(k, seed, 'quick')
    r = m.run(sc)
    json.loads(json.dumps(sc))
    out.append([k, r['crc'], bool(r['viol'])])
  print('RESULT ' + json.dumps(out))
  sys.stdout.flush()
  os._exit(0)


def main():
  if '--child' in sys.argv:
    i = sys.argv.index('--child')
    child(sys.argv[i + 1], int(sys.argv[i + 2]), json.loads(sys.argv[i + 3]))
  quick = '--quick' in sys.argv
  seed = int(os.environ.get('VERIF_SEED', '1'))
  props = ['C01', 'C05', 'C12'] if quick else PROPS
  seeds = [seed] if quick else [seed, seed + 1, seed + 2, seed + 3]
  ks = list(range(4)) if quick else list(range(10))
  t0 = time.time()
  todo = [(p, s, h) for p in props for s in seeds for h in ('0', '123')]
  running, res = [], {}
  bad = 0
  width = 6 if quick else 8
  while todo or running:
    while todo and len(running) < width:
      p, s, h = todo.pop(0)
      e = dict(os.environ, PYTHONHASHSEED=h, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1')
      running.append((p, s, h, subprocess.Popen(
          [sys.executable, os.path.abspath(__file__), '--child', p, str(s), json.dumps(ks)],
          env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    for r in list(running):
      if r[3].poll() is not None:
        running.remove(r)
        out, err = r[3].communicate()
        lines = [l for l in out.splitlines() if l.startswith('RESULT ')]
        if not lines:
          print(f'{r[0]} seed {r[1]} hash {r[2]}: no result\n{err[-1500:]}')
          bad += 1
          continue
        res[r[:3]] = json.loads(lines[0][7:])
    time.sleep(0.05)
  for p in props:
    for s in seeds:
      a, b = res.get((p, s, '0')), res.get((p, s, '123'))
      if a is None or b is None:
        continue
      d = [x[0] for x, y in zip(a, b) if x[1] != y[1]]
      print(f'{p} seed {s}: {len(a)} runs twice, {len(d)} differ {d}')
      bad += len(d)
  print(f'selftest: {"ok" if not bad else "FAILED"} in {time.time() - t0:.0f} s')
  # What the code under test does is for the checks to judge, not for set-up.
  sys.exit(0 if quick or not bad else 1)


if __name__ == '__main__':
  main()
