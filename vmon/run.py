"""Runs one check: python -m vmon.run C01 [--tier quick] [--replay FILE].

Exit 0: held on everything explored.  Exit 1: violated (VIOLATION line).
Exit 2: inconclusive (harness error, watchdog, or nothing observed).
"""
import argparse
import hashlib
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get('VMON_PYTHON', '/opt/venv/bin/python')
CASE_LIMIT = {'quick': 420, 'thorough': 1500}


def worker_env(devices, scratch):
  env = dict(os.environ)
  # a flag after 'intra_op_parallelism_threads' would be ignored
  flags = ('--xla_force_host_platform_device_count=%d '
           '--xla_cpu_multi_thread_eigen=false '
           'intra_op_parallelism_threads=1' % devices)
  env.update(
      PYTHONPATH=HERE + os.pathsep + os.environ.get('VERIF_REPO', '/repo'),
      PYTHONHASHSEED=os.environ.get('VMON_HASHSEED', '0'),
      PYTHONDONTWRITEBYTECODE='1',
      JAX_PLATFORMS='cpu', XLA_FLAGS=flags, TF_CPP_MIN_LOG_LEVEL='3',
      TF_ENABLE_ONEDNN_OPTS='0', CUDA_VISIBLE_DEVICES='', MPLBACKEND='Agg',
      OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
      TF_NUM_INTRAOP_THREADS='1', TF_NUM_INTEROP_THREADS='1',
      TQDM_DISABLE='1', HF_HUB_OFFLINE='1', TRANSFORMERS_OFFLINE='1',
      TOKENIZERS_PARALLELISM='false', VMON_SCRATCH=scratch,
      MPLCONFIGDIR=os.path.join(scratch, 'mpl'))
  return env


class Worker:

  def __init__(self, devices, scratch):
    self.devices = devices
    self.dir = tempfile.mkdtemp(dir=scratch)
    self.proc = subprocess.Popen(
        [PYTHON, '-m', 'vmon.worker'], cwd=HERE, text=True,
        stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        env=worker_env(devices, self.dir))

  def run(self, msg, limit):
    """Returns (result, why-not)."""
    timer = threading.Timer(limit, self.proc.kill)
    timer.start()
    t0 = time.time()
    try:
      self.proc.stdin.write(json.dumps(msg) + '\n')
      self.proc.stdin.flush()
      line = self.proc.stdout.readline()
    except (OSError, ValueError):
      line = ''
    finally:
      timer.cancel()
    if not line:
      self.proc.wait()
      return None, ('watchdog' if time.time() - t0 >= limit - 1 else
                    'worker died rc=%s' % self.proc.returncode)
    return json.loads(line), None

  def close(self):
    try:
      self.proc.stdin.close()
      self.proc.wait(timeout=5)
    except Exception:  # pylint: disable=broad-except
      self.proc.kill()
      self.proc.wait()
    shutil.rmtree(self.dir, ignore_errors=True)


def run_cases(module, cases, tier, jobs, scratch):
  todo = queue.Queue()
  order = sorted(range(len(cases)),
                 key=lambda i: (cases[i].get('devices', 1),
                                -cases[i].get('cost', 1)))
  for i in order:
    todo.put(i)
  results = [None] * len(cases)

  def loop():
    worker = None
    while True:
      try:
        i = todo.get_nowait()
      except queue.Empty:
        break
      case = cases[i]
      dev = case.get('devices', 1)
      if worker is not None and worker.devices != dev:
        worker.close()
        worker = None
      for attempt in range(2):
        if worker is None:
          worker = Worker(dev, scratch)
        res, why = worker.run(dict(module=module, case=case),
                              case.get('limit', CASE_LIMIT[tier]))
        if res is not None:
          break
        worker.close()
        worker = None
        if why == 'watchdog':
          break
      results[i] = res if res is not None else dict(
          events=0, keys=[], samples=[], failures=[], counters={},
          inconclusive=[], error=why, wall=0.0)
    if worker is not None:
      worker.close()

  threads = [threading.Thread(target=loop) for _ in range(min(jobs, len(cases)))]
  for t in threads:
    t.start()
  for t in threads:
    t.join()
  return results


def load_known(pid):
  """Listed findings ('known:' lines) of this property: kind -> text."""
  path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
  known = {}
  if os.path.exists(path):
    for line in open(path):
      if line.startswith('known: property=%s ' % pid):
        fields = dict(f.split('=', 1) for f in line.split()[1:3])
        known[fields['key']] = line.strip()
  return known


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED', '1') or 1))
  ap.add_argument('--replay')
  ap.add_argument('--only', help='run only cases whose name contains this')
  ap.add_argument('--jobs', type=int, default=8)
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  t0 = time.time()
  sys.path.insert(0, HERE)
  module = a.pid.lower()
  mod = importlib.import_module('checks.' + module)   # no jax at import time
  if a.replay:
    spec = json.load(open(a.replay))
    cases = [spec['case']]
    a.tier, a.seed = spec['tier'], spec['seed']
  else:
    cases = mod.cases(a.tier, a.seed)
    if a.only:
      cases = [c for c in cases if a.only in c['name']]
  scratch = tempfile.mkdtemp(prefix='vmon-')
  try:
    results = run_cases(module, cases, a.tier, a.jobs, scratch)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)

  known = load_known(a.pid)
  events = sum(r['events'] for r in results)
  keys = set(k for r in results for k in r['keys'])
  counters = {}
  for r in results:
    for k, v in r['counters'].items():
      counters[k] = counters.get(k, 0) + v
  samples = []
  for c, r in zip(cases, results):
    if r['samples'] and len(samples) < 8:
      samples.append(dict(case=c['name'], observed=r['samples'][0]))
  violations, findings, doubts = [], [], []
  for c, r in zip(cases, results):
    for f in r['failures']:
      key = '%s/%s' % (c['name'], f['kind'])
      if key in known:
        findings.append((key, known[key]))
      else:
        violations.append((c, f))
    if r['error']:
      doubts.append('%s: %s' % (c['name'], r['error']))
    doubts += ['%s: %s' % (c['name'], d) for d in r['inconclusive']]
  os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
  evidence = dict(
      property=a.pid, tier=a.tier, seed=a.seed, level='exploration',
      coverage=dict(
          evaluations=events, distinct_nontrivial=len(keys), rule=mod.RULE,
          samples=samples, cases=len(cases), counters=counters,
          cases_without_verdict=len(doubts)),
      assumptions=getattr(mod, 'ASSUMPTIONS', []),
      wall_s=round(time.time() - t0, 2), violations=len(violations))
  if not a.replay and not a.only:
    with open(os.path.join(HERE, 'evidence', a.pid + '.json'), 'w') as f:
      json.dump(evidence, f, indent=1)
  if a.v:
    for c, r in sorted(zip(cases, results), key=lambda t: t[1]['wall']):
      print('%7.1fs %9d ev %6d keys  %s' % (
          r['wall'], r['events'], len(r['keys']), c['name']))
  for key, text in sorted(set(findings)):
    print('KNOWN-FINDING: property=%s %s' % (a.pid, text))
  for d in doubts[:8]:
    lines = d.strip().split('\n')
    print('INCONCLUSIVE %s' % (d if a.replay else lines[0] + ' ... ' + lines[-1]),
          file=sys.stderr)
  shown = {}
  for c, f in violations:
    if shown.get((c['name'], f['kind'])) or len(shown) >= 6:
      continue
    shown[(c['name'], f['kind'])] = 1
    spec = dict(property=a.pid, tier=a.tier, seed=a.seed, case=c, failure=f)
    blob = json.dumps(spec, indent=1, default=str)
    path = os.path.join(HERE, 'evidence', 'replays', '%s-%s.json' % (
        a.pid, hashlib.sha1(blob.encode()).hexdigest()[:10]))
    with open(path, 'w') as out:
      out.write(blob)
    print('VIOLATION property=%s replay=%s' % (a.pid, path))
    print('  %s [%s] %s' % (c['name'], f['kind'], f['message'][:400]))
  print('%s %s seed=%d: %d cases, %d events, %d distinct, %d violations, '
        '%d undecided, %.1fs' % (a.pid, a.tier, a.seed, len(cases), events,
                                 len(keys), len(violations), len(doubts),
                                 time.time() - t0))
  if violations:
    return 1
  if doubts or events == 0 or not keys:
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main())
