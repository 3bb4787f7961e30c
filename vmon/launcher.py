"""Runs the cluster launcher as a program with a stand-in for the cluster.

xmanager is not installed here: the stand-in keeps the jobs that are added to
the experiment, in order, instead of sending them anywhere.
"""
import asyncio
import os
import runpy
import sys
import types

from vmon.recorder import REPO, Violation

PRE = 'discs.xm_launcher'


class Anything:
  """Swallows any construction the launcher makes around its jobs."""

  def __init__(self, *a, **k):
    self.a, self.k = a, k

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return Anything()

  def __call__(self, *a, **k):
    return Anything(*a, **k)

  def __mul__(self, other):
    return self

  __rmul__ = __mul__


def launch(config, number=7, **flags_):
  """The jobs of a run config: [(work unit id, arguments)]."""
  from absl import flags
  jobs = []
  titles = []

  class Job:

    def __init__(self, executable, args=None, executor=None, **k):
      del executable, executor, k
      self.args = dict(args)

  class Unit:

    def __init__(self, n):
      self.work_unit_id = n

    def add(self, job, *a, **k):
      jobs.append((self.work_unit_id, dict(job.args)))

  class Experiment:
    experiment_id = number

    def __init__(self):
      self.count = 0

    def __enter__(self):
      return self

    def __exit__(self, *a):
      return False

    def package(self, what):
      return [Anything() for _ in what]

    def add(self, gen, args=None, **k):
      self.count += 1
      unit = Unit(self.count)
      if isinstance(gen, Job):
        unit.add(Job(None, dict(gen.args, **(args or {}).get('args', {}))))
      else:
        asyncio.run(gen(unit, **dict(args or {})))

  def create_experiment(experiment_title='', **k):
    titles.append(experiment_title)
    return Experiment()

  def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m
  free = Anything()
  xm = mod('xmanager.xm', Job=Job, JobRequirements=Anything, GiB=1,
           ServiceTier=types.SimpleNamespace(BATCH='batch', PROD='prod'),
           python_container=Anything, ModuleName=Anything, Packageable=Anything)
  xm_abc = mod('xmanager.xm_abc', create_experiment=create_experiment,
               Gcp=Anything)
  xm_local = mod('xmanager.xm_local', create_experiment=create_experiment,
                 Local=Anything)
  fd = mod('xmanager.contrib.framework_defaults',
           base_image=lambda *a, **k: free)
  names = {'xmanager': mod('xmanager', xm=xm, xm_abc=xm_abc, xm_local=xm_local),
           'xmanager.xm': xm, 'xmanager.xm_abc': xm_abc,
           'xmanager.xm_local': xm_local,
           'xmanager.contrib': mod('xmanager.contrib', framework_defaults=fd),
           'xmanager.contrib.framework_defaults': fd}
  before = {k: sys.modules.get(k) for k in names}
  sys.modules.update(names)
  for f in list(flags.FLAGS):
    if f.split('.')[0] in ('config', 'save_folder_pattern', 'launch_locally',
                           'num_gpus', 'use_batch'):
      try:
        delattr(flags.FLAGS, f)
      except AttributeError:
        pass
  sys.modules.pop(PRE, None)
  old, out, err = sys.argv, sys.stdout, sys.stderr
  sys.argv = [PRE, '--config=' + os.path.join(REPO, 'discs/run_configs', config)
              ] + [f'--{k}={v}' for k, v in flags_.items()]
  sys.stdout = sys.stderr = open(os.devnull, 'w')
  try:
    flags.FLAGS.unparse_flags()
    runpy.run_module(PRE, run_name='__main__')
  except SystemExit as e:
    if e.code not in (None, 0):
      raise Violation('exit', f'the launcher exited with {e.code} for {config}')
  finally:
    sys.stdout.close()
    sys.stdout, sys.stderr, sys.argv = out, err, old
    for k, v in before.items():
      if v is None:
        sys.modules.pop(k, None)
      else:
        sys.modules[k] = v
  return titles, jobs
