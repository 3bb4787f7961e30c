"""Builds the samplers under test and observes their transition kernels."""
import functools
import importlib

import jax
import jax.numpy as jnp
import numpy as np
from ml_collections import config_dict
from vmon import recorder
from vmon import table

BATCH_STATS = ('dlmc', 'dmala')   # first step calibrates on the whole batch


def sampler_config(name, shape, c, co_opt=False, **opts):
  conf = importlib.import_module(
      'discs.samplers.configs.%s_config' % name).get_config()
  cfg = config_dict.ConfigDict(dict(
      model=dict(shape=tuple(shape), num_categories=c),
      sampler=conf.to_dict(),
      experiment=dict(co_opt_prob=co_opt)))
  for k, v in opts.items():
    cfg.sampler[k] = v
  return cfg


def build(name, shape, c, co_opt=False, **opts):
  cfg = sampler_config(name, shape, c, co_opt, **opts)
  return importlib.import_module('discs.samplers.' + name).build_sampler(cfg)


def random_table(seed, n, c, scale=1.0):
  rs = np.random.RandomState(seed)
  return rs.randn(c ** n) * scale


def warm_state(sampler, model, tab, steps, batch=16, seed=0, x=None):
  """Adaptation state after a legitimate run of `steps` steps on `tab`."""
  params = {'table': jnp.array(tab, jnp.float32)}
  st = sampler.make_init_state(jax.random.PRNGKey(seed))
  if x is None:
    x = model.get_init_samples(jax.random.PRNGKey(seed + 5), batch)
  step = jax.jit(lambda k, x, st: sampler.step(model, k, x, params, st)[:2])
  for t in range(steps):
    x, st = step(jax.random.fold_in(jax.random.PRNGKey(seed + 100), t), x, st)
  return st, x


def transitions(sampler, model, tab, st, per, batch, seed, x_mask=None,
                chunk=1 << 18, starts=None):
  """Counts M[i, j] of single-step transitions i -> j, and who changed."""
  n, c = model.n, model.num_categories
  states = table.all_states(n, c)
  S = len(states)
  starts_all = np.arange(S) if starts is None else np.asarray(starts)
  params = {'table': jnp.array(tab, jnp.float32)}
  rs = np.random.RandomState(seed + 17)
  start = np.repeat(starts_all, per)
  rs.shuffle(start)
  start = start[: len(start) // batch * batch]
  kwargs = {} if x_mask is None else dict(x_mask=x_mask)

  @jax.jit
  @jax.vmap
  def f(k, x):
    return sampler.step(model, k, x, params, dict(st), **kwargs)[0]

  M = np.zeros((S, S))
  K = len(start) // batch
  keys = jax.random.split(jax.random.PRNGKey(seed), K)
  rows = max(1, chunk // batch)
  for a in range(0, K, rows):
    s = start[a * batch: (a + rows) * batch]
    X = jnp.array(states[s].reshape((-1, batch) + model.shape))
    Y = np.asarray(f(keys[a: a + rows], X))
    if Y.shape != X.shape:
      raise recorder.Violation('shape', 'step returned shape %s for %s' % (Y.shape, X.shape))
    Y = Y.reshape(-1, n)
    if ((Y < 0) | (Y >= c)).any() or not np.all(Y == np.round(Y)):
      raise recorder.Violation('domain', 'step left the domain')
    np.add.at(M, (s, table.state_index(Y, c)), 1)
  return M


def softmax(e):
  e = np.asarray(e, np.float64)
  p = np.exp(e - e.max())
  return p / p.sum()
