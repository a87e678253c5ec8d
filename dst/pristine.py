"""Runs one operation alone in a process of its own.

stdin: JSON {"op", "setup"}; stdout: the canonical result, pickled, in hex.
"""
import json
import os
import pickle
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def run(op, setup=None, hashseed='77', timeout=200):
  """Canonical result of `op` in a new process with another hash seed."""
  env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1')
  p = subprocess.run([sys.executable, os.path.join(HERE, 'pristine.py')], input=json.dumps({'op': op, 'setup': setup}),
                     env=env, capture_output=True, text=True, timeout=timeout)
  if p.returncode != 0:
    raise RuntimeError('pristine process failed: ' + p.stderr[-800:])
  return pickle.loads(bytes.fromhex(p.stdout.strip().split('\n')[-1]))


def main():
  sys.path.insert(0, HERE)
  import world
  d = json.load(sys.stdin)
  r = world.reference(d['op'], d['setup'])
  print(pickle.dumps(r).hex())


if __name__ == '__main__':
  main()
