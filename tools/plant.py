"""Planted bugs: python tools/plant.py gen|test|check ID... (specs in tools/seeds.py).

gen   writes seeded/<ID>/ (patch.diff, demo.sh, demo.py, meta.json)
test  in a scratch copy: stable tests pass with the patch, demo 0 without it
      and nonzero with it
check runs the check of the bug's property (or --prop C01,C02) on the copy
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 if the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0 MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 280 /opt/venv/bin/python "$d/demo.py"
'''


def copy():
  d = tempfile.mkdtemp(prefix='plant-')
  subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
  return d


def sh(cmd, cwd, **env):
  e = dict(os.environ)
  e.update(env)
  return subprocess.run(cmd, cwd=cwd, env=e, shell=True, text=True,
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def gen(spec):
  d = copy()
  try:
    for path, old, new in spec['edits']:
      f = os.path.join(d, 'repo', path)
      s = open(f).read()
      assert s.count(old) == 1, (spec['id'], path, s.count(old), old)
      open(f, 'w').write(s.replace(old, new))
    diff = sh('git diff', d + '/repo').stdout
  finally:
    shutil.rmtree(d)
  out = os.path.join(HERE, 'seeded', spec['id'])
  os.makedirs(out, exist_ok=True)
  open(os.path.join(out, 'patch.diff'), 'w').write(diff)
  open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
  os.chmod(os.path.join(out, 'demo.sh'), 0o755)
  open(os.path.join(out, 'demo.py'), 'w').write(spec['demo'].lstrip('\n'))
  json.dump(dict(property=spec['prop'], needs=spec['needs'],
                 what_it_breaks=spec['breaks']),
            open(os.path.join(out, 'meta.json'), 'w'), indent=1)


def test(sid):
  d = copy()
  r = d + '/repo'
  try:
    s = os.path.join(HERE, 'seeded', sid)
    a = sh('bash %s/demo.sh' % s, r)
    ap = sh('git apply %s/patch.diff' % s, r)
    b = sh('bash %s/demo.sh' % s, r)
    t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider '
           'discs/test/model_test/categorical_test.py -k "(forward or init_samples) and not one_hot_init"', r,
           JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1')
    imp = sh('for f in $(git diff --name-only); do /opt/venv/bin/python -m py_compile $f || exit 1; done', r)
    ok = a.returncode == 0 and ap.returncode == 0 and b.returncode not in (0, 124) and t.returncode == 0 and imp.returncode == 0
    print(sid, 'OK' if ok else 'BAD', 'clean=%d apply=%d bug=%d tests=%d' % (
        a.returncode, ap.returncode, b.returncode, t.returncode))
    if not ok:
      print(a.stdout[-1500:], ap.stdout[-500:], b.stdout[-1500:], t.stdout[-500:])
    else:
      print('   ', b.stdout.strip().split('\n')[-1][:200])
    return ok
  finally:
    shutil.rmtree(d)


def check(sid, props, tier, extra=''):
  d = copy()
  r = d + '/repo'
  try:
    s = os.path.join(HERE, 'seeded', sid)
    assert sh('git apply %s/patch.diff' % s, r).returncode == 0
    own = json.load(open(s + '/meta.json'))['property']
    for p in (props or [own]):
      c = sh('/opt/venv/bin/python -m vmon.run %s --tier %s %s' % (p, tier, extra),
             HERE, VERIF_REPO=r, VERIF_SEED='1')
      lines = [l for l in c.stdout.split('\n') if l.startswith('  ')]
      print(sid, p, {0: 'MISSED', 1: 'CAUGHT'}.get(c.returncode, 'ERROR'),
            c.stdout.strip().split('\n')[-1])
      for l in lines[:2]:
        print('      ', l[:220])
      if c.returncode not in (0, 1):
        print(c.stdout[-1500:])
      sys.stdout.flush()
  finally:
    shutil.rmtree(d)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('what')
  ap.add_argument('ids', nargs='*')
  ap.add_argument('--prop', default='')
  ap.add_argument('--tier', default='quick')
  ap.add_argument('--extra', default='')
  a = ap.parse_args()
  specs = {s['id']: s for s in importlib.import_module('seeds').SEEDS}
  ids = a.ids or sorted(specs)
  for i in ids:
    if a.what in ('gen', 'all'):
      gen(specs[i])
    if a.what in ('test', 'all'):
      test(i)
    if a.what in ('check', 'all'):
      check(i, [p for p in a.prop.split(',') if p], a.tier, a.extra)


if __name__ == '__main__':
  main()
