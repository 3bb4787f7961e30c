"""Running the reporting scripts as programs and recording what they draw.

A workload writes experiment folders the way the launcher and the saver do,
runs `python -m discs.plot_results.<script>` (in this process, with fresh
flags), and reads back the files written and the figures saved: every bar,
line and tick, in data coordinates.
"""
import csv
import importlib.util
import itertools
import os
import runpy
import sys

import numpy as np

from vmon.recorder import REPO

FLAG_NAMES = ('gcs_results_path', 'evaluation_type', 'key', 'graphtype',
              'graph_file')


class Figure:
  """What was on a figure when it was saved."""

  def __init__(self, fig, path):
    self.path = str(path)
    self.name = os.path.basename(self.path)
    self.bars = []      # (label, [(x, height, error)])
    self.lines = []     # (label, xs, ys)
    self.bands = []     # polygons of fill_between
    self.ticks = []
    self.title = self.xlabel = self.ylabel = ''
    self.legend = []
    for ax in fig.get_axes():
      from matplotlib.container import BarContainer
      for c in ax.containers:
        if not isinstance(c, BarContainer):
          continue
        err = [None] * len(c.patches)
        eb = getattr(c, 'errorbar', None)
        if eb is not None and eb.lines[2]:
          segs = eb.lines[2][0].get_segments()
          if len(segs) == len(c.patches):
            err = [abs(float(s[1][1] - s[0][1])) / 2 if len(s) == 2 else None
                   for s in segs]
        rows = [(float(p.get_x() + p.get_width() / 2), float(p.get_height()), e)
                for p, e in zip(c.patches, err)]
        self.bars.append((c.get_label(), rows))
      for l in ax.get_lines():
        self.lines.append((l.get_label(), np.array(l.get_xdata(), float),
                           np.array(l.get_ydata(), float)))
      for c in ax.collections:
        if type(c).__name__ in ('PolyCollection', 'FillBetweenPolyCollection'):
          self.bands.append([np.array(p.vertices) for p in c.get_paths()])
      self.ticks = list(zip([float(t) for t in ax.get_xticks()],
                            [t.get_text() for t in ax.get_xticklabels()]))
      self.title = ax.get_title()
      self.xlabel = ax.get_xlabel()
      self.ylabel = ax.get_ylabel()
      leg = ax.get_legend()
      if leg is not None:
        self.legend = [t.get_text() for t in leg.get_texts()]


def program(module, **flags_):
  """Runs a reporting script with the flags given; returns the figures saved."""
  import matplotlib
  matplotlib.use('Agg')
  import matplotlib.figure
  import matplotlib.pyplot as plt
  from absl import flags
  for f in FLAG_NAMES:
    if f in flags.FLAGS:
      delattr(flags.FLAGS, f)
  sys.modules.pop(module, None)
  figs = []
  real = matplotlib.figure.Figure.savefig

  def savefig(self, fname, *a, **kw):
    figs.append(Figure(self, fname))
    if not os.path.isdir(os.path.dirname(str(fname)) or '.'):
      raise FileNotFoundError(fname)

  argv = sys.argv
  sys.argv = [module] + [f'--{k}={v}' for k, v in flags_.items()]
  matplotlib.figure.Figure.savefig = savefig
  out = sys.stdout
  sys.stdout = open(os.devnull, 'w')
  try:
    flags.FLAGS.unparse_flags()
    runpy.run_module(module, run_name='__main__')
  except SystemExit as e:
    if e.code not in (None, 0):
      raise RuntimeError(f'{module} exited with {e.code}')
  finally:
    sys.stdout.close()
    sys.stdout = out
    sys.argv = argv
    matplotlib.figure.Figure.savefig = real
    plt.close('all')
  return figs


# ------------------------------------------------------------ launcher's view

def shipped(rel):
  """A run config of the repository: (dict, list of sweep argument dicts)."""
  path = os.path.join(REPO, 'discs/run_configs', rel)
  spec = importlib.util.spec_from_file_location('rc_' + rel.replace('/', '_')[:-3], path)
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  cfg = m.get_config()
  out = []
  for d in cfg.sweep:
    d = dict(d)
    keys = list(d)
    out.append([dict(zip(keys, vals)) for vals in itertools.product(*[d[k] for k in keys])])
  return cfg, out


def all_shipped():
  root = os.path.join(REPO, 'discs/run_configs')
  return sorted(os.path.relpath(os.path.join(d, f), root)
                for d, _, fs in os.walk(root) for f in fs
                if f.endswith('.py') and f != '__init__.py')


def folder(unit, kwargs):
  """The folder the launcher saves work unit `unit` of a sweep in."""
  parts = []
  for k, v in kwargs.items():
    for pre in ('config.experiment.', 'model_config.', 'sampler_config.'):
      if k.startswith(pre):
        k = k[len(pre):]
        break
    if isinstance(v, str) and v.startswith('/gcs'):
      v = '/'.join(v.split('/')[-3:])
    parts.append(f'{k}={v!r}')
  return f'{unit}_' + ','.join(parts).replace('/', '-')


NAMES = dict(hammingball='hb-10-1', blockgibbs='bg-2', randomwalk='rwm',
             path_auxiliary='pas')
NAMES_OLD = dict(NAMES, randomwalk='rmw', path_auxiliary='pafs')
LBF = dict(SQRT='(s)', RATIO='(r)', MIN='(min)', MAX='(max)')


def label(kw, names=NAMES):
  """The name a report has to give the sampler of a work unit."""
  g = {k.split('.')[-1]: v for k, v in kw.items()}
  s = names.get(g['name'], g['name'])
  if g.get('solver') == 'euler_forward':
    s += 'f'
  if 'adaptive' in g:
    if not g['adaptive']:
      s += '-nA'
    if 'step_size' in g:
      s += str(g['step_size'])
    if 'n' in g:
      s += '-' + str(g['n'])
    if 'num_flips' in g:
      s += '-' + str(g['num_flips'])
  return s + LBF.get(g.get('balancing_fn_type'), '')


SAMPLER_KEYS = ('sampler_config.name', 'sampler_config.solver',
                'sampler_config.balancing_fn_type', 'sampler_config.adaptive',
                'sampler_config.approx_with_grad', 'sampler_config.step_size',
                'sampler_config.n', 'sampler_config.num_flips')


def setting(kw, drop=()):
  """The part of a work unit that two experiments of one figure share."""
  return tuple(sorted((k, str(v)) for k, v in kw.items()
                      if k not in SAMPLER_KEYS and k.split('.')[-1] not in drop
                      and not k.endswith('save_samples')))


def shown(lbl):
  if lbl.endswith('(r)'):
    return lbl[:-3] + '$\\frac{t}{t+1}$'
  if lbl.endswith('(s)'):
    return lbl[:-3] + '$\\sqrt{t}$'
  return lbl


def read_csvs(root):
  out = {}
  for d, _, fs in os.walk(root):
    for f in fs:
      if f.endswith('.csv'):
        with open(os.path.join(d, f)) as fh:
          out[os.path.relpath(os.path.join(d, f), root)] = list(csv.DictReader(fh))
  return out
