"""Runs the real experiments with observers at their public boundaries.

The model, sampler and saver handed to the experiment are thin proxies around
the real ones.  Every sampler step reports, from inside the compiled code, what
it was given and what it returned; the files written are read back.
"""
import contextlib
import glob
import importlib
import io
import os
import pickle
import tempfile
import threading
import time

import jax
import jax.numpy as jnp
import numpy as np


class Trace:
  """What was observed at the boundaries of one experiment."""

  def __init__(self):
    self.lock = threading.Lock()
    self.steps = []          # dicts, one per sampler step and model/device
    self.inits = []          # (num_samples, samples)
    self.batches = []        # what make_init_params returned
    self.states = 0
    self.figures = []        # (path, ylabel, [(x, y), ...])
    self.wall = 0.0

  def add(self, **kw):
    with self.lock:
      self.steps.append(kw)


class ModelProxy:
  """Delegates to the real model; tags the instances of a batch."""

  def __init__(self, inner, trace):
    self._inner = inner
    self._trace = trace
    self._next = 0

  def __getattr__(self, name):
    return getattr(self._inner, name)

  def make_init_params(self, *a, **k):
    out = self._inner.make_init_params(*a, **k)
    if isinstance(out, (list, tuple)):
      tagged, meta = [], []
      for idx, params, ref in out:
        params = dict(params)
        params['vmon_id'] = jnp.int32(self._next)
        meta.append((self._next, int(idx), params, ref))
        self._next += 1
        tagged.append((idx, params, ref))
      self._trace.batches.append(meta)
      return tagged
    if out is not None:
      self._trace.batches.append(out)
    return out

  def get_init_samples(self, rng, num_samples):
    out = self._inner.get_init_samples(rng, num_samples)
    self._trace.inits.append((int(num_samples), np.array(out)))
    return out


class SamplerProxy:
  """Delegates to the real sampler; reports every step."""

  def __init__(self, inner, trace):
    self._inner = inner
    self._trace = trace

  def __getattr__(self, name):
    return getattr(self._inner, name)

  def make_init_state(self, *a, **k):
    st = dict(self._inner.make_init_state(*a, **k))
    st['vmon_t'] = jnp.zeros_like(jnp.asarray(st['steps']))
    st['vmon_tag'] = jnp.zeros_like(st['vmon_t'], dtype=jnp.uint32)
    return st

  def step(self, model, rng, x, model_param, state, x_mask=None):
    state = dict(state)
    t = state.pop('vmon_t') + 1
    # names the group of chains by the randomness of its first step
    tag = jnp.where(t == 1, jnp.sum(rng.reshape(-1) * jnp.uint32(2654435761)),
                    state.pop('vmon_tag'))
    before = state['num_ll_calls']
    kw = {} if x_mask is None else dict(x_mask=x_mask)
    new_x, new_state, acc = self._inner.step(
        model, rng, x, model_param, state, **kw)
    trace = self._trace
    temp = model_param.get('temperature', None) if hasattr(
        model_param, 'get') else None
    ident = model_param.get('vmon_id', None) if hasattr(
        model_param, 'get') else None
    present = [k for k, v in (('temperature', temp), ('id', ident),
                              ('x_mask', x_mask)) if v is not None]
    vals = [v for v in (temp, ident, x_mask) if v is not None]

    def report(t, tag, rng, x, new_x, acc, before, after, *rest):
      trace.add(t=int(t), tag=int(tag), rng=np.array(rng), x=np.array(x),
                new_x=np.array(new_x), acc=np.array(acc),
                ll_before=int(before), ll_after=int(after),
                **{k: np.array(v) for k, v in zip(present, rest)})

    jax.debug.callback(report, t, tag, rng, x, new_x, acc, before,
                       new_state['num_ll_calls'], *vals)
    new_state = dict(new_state)
    new_state['vmon_t'] = t
    new_state['vmon_tag'] = tag
    return new_x, new_state, acc


@contextlib.contextmanager
def watch_figures(trace):
  """Records what is on the current figure whenever it is saved."""
  import matplotlib
  matplotlib.use('Agg')
  from matplotlib.figure import Figure
  real = Figure.savefig

  def savefig(self, path, *a, **k):
    if self.axes:
      ax = self.axes[-1]
      trace.figures.append((str(path), ax.get_ylabel(), [
          (np.array(l.get_xdata(), np.float64), np.array(l.get_ydata(),
                                                         np.float64))
          for l in ax.get_lines()]))
    return real(self, path, *a, **k)

  Figure.savefig = savefig
  try:
    yield
  finally:
    Figure.savefig = real


def module(kind, name):
  return importlib.import_module('discs.%s.%s' % (kind, name))


def sampler_conf(cfg, name, **opts):
  conf = importlib.import_module(
      'discs.samplers.configs.%s_config' % name).get_config()
  cfg.sampler.update(conf)
  with cfg.unlocked(), cfg.ignore_type():
    for k, v in opts.items():
      cfg.sampler[k] = v


def set_exp(cfg, **over):
  with cfg.unlocked(), cfg.ignore_type():
    for k, v in over.items():
      cfg.experiment[k] = v


def run(cfg, model=None, where=None):
  """Runs the experiment of cfg; returns (trace, {file name: contents})."""
  out = where or tempfile.mkdtemp(dir=os.environ.get('VMON_SCRATCH'))
  set_exp(cfg, save_root=os.path.join(out, 'results'))
  trace = Trace()
  trace.where = out
  inner = model or module('models', cfg.model.name).build_model(cfg)
  mdl = ModelProxy(inner, trace)
  smp = SamplerProxy(module('samplers', cfg.sampler.name).build_sampler(cfg),
                     trace)
  experiment = getattr(module('experiment', 'sampling'),
                       cfg.experiment.name)(cfg)
  evaluator = module('evaluators', cfg.experiment.evaluator).build_evaluator(
      cfg)
  saver = module('common', 'experiment_saver').build_saver(cfg)
  start = time.time()
  with watch_figures(trace), contextlib.redirect_stdout(io.StringIO()), \
      contextlib.redirect_stderr(io.StringIO()):
    experiment.get_results(mdl, smp, evaluator, saver)
  jax.effects_barrier()
  trace.wall = time.time() - start
  files = {}
  for path in sorted(glob.glob(os.path.join(out, 'results', '*'))):
    name = os.path.basename(path)
    if name.endswith('.pkl'):
      with open(path, 'rb') as f:
        files[name] = pickle.load(f)
    elif name.endswith('.csv'):
      with open(path) as f:
        files[name] = f.read()
    else:
      files[name] = None
  return trace, files


def by_step(steps):
  """{t: [entries]} in order of t."""
  out = {}
  for s in steps:
    out.setdefault(s['t'], []).append(s)
  return dict(sorted(out.items()))


def rows(a, dim):
  return np.asarray(a).reshape(-1, dim)


def multiset(a):
  """Sorted list of rows, to compare chains regardless of their order."""
  return sorted(map(tuple, np.asarray(a).tolist()))


def tracks(steps, dim):
  """{tag: [T + 1, chains, dim]}: states of each group of chains, from x0."""
  per = {}
  for s in steps:
    per.setdefault(s['tag'], []).append(s)
  out = {}
  for tag, ss in per.items():
    ss.sort(key=lambda s: s['t'])
    out[tag] = np.stack([rows(ss[0]['x'], dim)] + [rows(s['new_x'], dim)
                                                   for s in ss])
  return out


def ess(chains, cut=0.0):
  """Effective sample size of every column of [time, chain], in float64.

  The usual definition: autocorrelations up to the first negative one (below
  `cut`), n / (1 + 2 sum (n - k) / n rho_k); nan for a constant chain.
  """
  x = np.asarray(chains, np.float64)
  n = x.shape[0]
  c = x - x.mean(0)
  acov = np.array([(c[: n - k] * c[k:]).sum(0) / (n - k) for k in range(n)])
  with np.errstate(all='ignore'):
    rho = acov / acov[0]
  alive = np.cumsum(rho < cut, axis=0) == 0
  rho = np.where(alive, rho, 0)
  w = ((n - np.arange(n)) / n)[:, None]
  return n / (-1 + 2 * (w * rho).sum(0))
