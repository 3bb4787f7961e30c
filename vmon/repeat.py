"""Results of one experiment in a form that repetitions can be compared in."""
import contextlib
import csv
import io
import os
import pickle
import random
import sys
import traceback


@contextlib.contextmanager
def disturbed(seed):
  """Other global random states, and directories listed the other way."""
  import glob
  import numpy as np
  np.random.seed(seed)
  random.seed(seed)
  real = os.listdir, glob.glob, os.scandir
  os.listdir = lambda *a, **k: sorted(real[0](*a, **k), reverse=True)
  glob.glob = lambda *a, **k: sorted(real[1](*a, **k), reverse=True)
  try:
    yield
  finally:
    os.listdir, glob.glob, os.scandir = real


def flat(value, prefix=''):
  """{path: leaf} of what a results file holds."""
  if hasattr(value, 'items'):
    out = {}
    for k, v in value.items():
      out.update(flat(v, '%s/%s' % (prefix, k)))
    return out
  if isinstance(value, (list, tuple)) and any(
      isinstance(v, (str, dict, list, tuple)) for v in value):
    out = {}
    for i, v in enumerate(value):
      out.update(flat(v, '%s/%d' % (prefix, i)))
    return out
  return {prefix: value}


def timed(name):
  last = name.rsplit('/', 1)[-1].lower()
  return 'time' in last or last == 'ess_t'


def number(text):
  try:
    return float(text)
  except (TypeError, ValueError):
    return text


def results(cfg, where=None):
  """({steps, files}, folder) of running cfg with its results in a folder."""
  import numpy as np
  from vmon import exp
  trace, files = exp.run(cfg, where=where)
  got = {}
  for name, v in files.items():
    if name.endswith('.csv'):
      for i, row in enumerate(csv.DictReader(io.StringIO(v))):
        got.update({'%s/%d/%s' % (name, i, k): number(x)
                    for k, x in row.items()})
    elif v is not None:
      got.update(flat(v, name))
  got = {k: np.asarray(v) if hasattr(v, 'shape') else v
         for k, v in got.items() if not timed(k)}
  # in order of the randomness used, whatever the order of arrival; the first
  # of equal ones (tasks of text infilling share their keys) stays first
  steps = sorted(trace.steps, key=lambda s: (
      s['tag'], s['t'], s['rng'].tobytes(), int(s.get('id', 0)) if np.size(
          s.get('id', 0)) == 1 else 0))
  return dict(steps=[dict(t=s['t'], x=s['x'], new_x=s['new_x'])
                     for s in steps], files=got), trace.where


def main():
  sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
  try:
    with open(sys.argv[1], 'rb') as f:
      spec = pickle.load(f)
    if 'text' in spec['cfg'].model.name:
      from vmon import text
      text.shim()
    with disturbed(spec['seed']):
      out, _ = results(spec['cfg'])
  except BaseException as e:  # pylint: disable=broad-except
    from vmon import recorder
    out = dict(error=(recorder.exception_in_repo(e),
                      ''.join(traceback.format_exception(e))[-3000:]))
  with open(sys.argv[2], 'wb') as f:
    pickle.dump(out, f)


if __name__ == '__main__':
  main()
