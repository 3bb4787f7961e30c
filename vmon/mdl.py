"""Builds the models under test at a small size."""
import importlib
import os
import tempfile

import jax
import jax.numpy as jnp
import numpy as np
from ml_collections import config_dict
from vmon import data
from vmon import recorder


def base_config(name, **over):
  conf = importlib.import_module(
      'discs.models.configs.%s_config' % name).get_config()
  cfg = importlib.import_module('discs.common.configs').get_config()
  cfg.model.update(conf)
  with cfg.unlocked(), cfg.ignore_type():
    for k, v in over.items():
      cfg.model[k] = v
  return cfg


def classical(name, **over):
  cfg = base_config(name, **over)
  mod = importlib.import_module('discs.models.' + name)
  return mod.build_model(cfg), cfg


def rbm(nv, nh, c=2, **over):
  cfg = config_dict.ConfigDict(dict(model=dict(
      name='rbm', shape=(nv,), num_visible=nv, num_hidden=nh,
      num_categories=c, **over)))
  return importlib.import_module('discs.models.rbm').build_model(cfg), cfg


def resnet(side=4, channels=4, data_mean=None):
  cfg = config_dict.ConfigDict(dict(model=dict(
      name='resnet', shape=(side * side,), num_categories=2,
      n_channels=channels, image_shape=(side, side))))
  if data_mean is not None:
    cfg.model.data_mean = tuple(float(v) for v in data_mean)
  return importlib.import_module('discs.models.resnet').build_model(cfg), cfg


def graph_config(kind, graphs, refs, num_models, declared=None, files=2,
                 root=None, **over):
  """Config of a CO model on the given graphs, data written under scratch."""
  root = root or tempfile.mkdtemp(dir=os.environ.get('VMON_SCRATCH'))
  rt = data.write_dataset(root, kind, graphs, refs, files)
  cfg = importlib.import_module('discs.common.configs').get_config()
  name = data.MODEL_OF[kind]
  conf = importlib.import_module(
      'discs.models.configs.%s_config' % name).get_config()
  cfg.model.update(conf)
  graph_conf = importlib.import_module(
      'discs.models.configs.%s.%s' % (name, kind)).get_model_config('r-' + rt)
  cfg.model.update(graph_conf)
  nn = max(len(g) for g in graphs)
  ne = max(len(g.edges()) for g in graphs)
  if kind == 'gap_rand' and declared is None:
    declared = (nn, ne)
  with cfg.unlocked(), cfg.ignore_type():
    cfg.model.graph_type = kind
    cfg.model.rand_type = rt
    cfg.model.data_root = root
    cfg.model.num_models = num_models
    if declared is None:
      cfg.model.max_num_nodes = cfg.model.max_num_edges = 0
      cfg.model.num_instances = 0
    else:
      cfg.model.max_num_nodes, cfg.model.max_num_edges = declared
      cfg.model.num_instances = len(graphs)
    for k, v in over.items():
      cfg.model[k] = v
    cfg.experiment.num_models = num_models
    cfg.experiment.evaluator = 'co_eval'
    cfg.experiment.name = 'CO_Experiment'
  return cfg


def graph_model(kind, graphs, refs=None, num_models=None, **kw):
  """(model, config, list of (idx, params, ref)) for the first batch."""
  refs = refs if refs is not None else [1.0] * len(graphs)
  cfg = graph_config(kind, graphs, refs, num_models or len(graphs), **kw)
  name = data.MODEL_OF[kind]
  model = importlib.import_module('discs.models.' + name).build_model(cfg)
  batch = model.make_init_params(jax.random.PRNGKey(0))
  if batch is None:
    raise recorder.Violation('no-graphs', '%s: no parameters for %d graphs' % (
        kind, len(graphs)))
  return model, cfg, batch


def randomize(params, seed, scale=1.0):
  rs = np.random.RandomState(seed)
  return jax.tree_util.tree_map(
      lambda a: jnp.array(rs.randn(*np.shape(a)) * scale, jnp.float32), params)


def trained(name, params, **model):
  """Config of a deep model whose parameters are read from a checkpoint.

  Writes params.pkl and config.yaml the way training leaves them.
  """
  import pickle
  path = tempfile.mkdtemp(dir=os.environ.get('VMON_SCRATCH'))
  with open(os.path.join(path, 'params.pkl'), 'wb') as f:
    pickle.dump({'params': params}, f)
  conf = config_dict.ConfigDict(dict(model=dict(name=name, **model)))
  with open(os.path.join(path, 'config.yaml'), 'w') as f:
    f.write(conf.to_yaml())
  cfg = importlib.import_module('discs.common.configs').get_config()
  mc = importlib.import_module('discs.models.configs.%s_config' % name)
  cfg.model.update(mc.get_config())
  cfg.model.data_path = path
  cfg.model.num_categories = model['num_categories']
  return cfg


def trained_rbm(nv, nh, c, seed, mean=None):
  """(config, parameters) of a checkpointed RBM."""
  model, _ = rbm(nv, nh, c)
  p = randomize(dict(model.make_init_params(jax.random.PRNGKey(seed))), seed,
                0.7)
  p = jax.tree_util.tree_map(np.asarray, dict(p))
  rs = np.random.RandomState(seed + 1)
  if mean is None:
    mean = rs.uniform(0.1, 0.9, (nv,) if c == 2 else (nv, c))
    if c > 2:
      mean = mean / mean.sum(-1, keepdims=True)
  p['data_mean'] = np.asarray(mean, np.float32)
  return trained('rbm', p, shape=(nv,), num_visible=nv, num_hidden=nh,
                 num_categories=c), p


def trained_resnet(side, channels, seed, scale=0.3, spread=1.5):
  model, _ = resnet(side, channels)
  p = randomize(dict(model.make_init_params(jax.random.PRNGKey(seed))), seed,
                scale)
  p = jax.tree_util.tree_map(np.asarray, dict(p))
  rs = np.random.RandomState(seed + 1)
  # make the energy vary by about `spread` nats over the states
  from vmon import ref
  e = ref.resnet(p, rs.randint(0, 2, (64, side * side)), side)
  head = [k for k in p if k.startswith('Dense')][0]
  p[head] = dict(p[head])
  p[head]['kernel'] = np.asarray(p[head]['kernel'] * spread / (
      np.std(e) + 1e-9), np.float32)
  e = ref.resnet(p, rs.randint(0, 2, (64, side * side)), side)
  p[head]['bias'] = np.asarray(p[head]['bias'] - np.mean(e) + rs.randn(),
                               np.float32)
  p['data_mean'] = np.asarray(rs.uniform(0.2, 0.8, (side * side,)), np.float32)
  return trained('resnet', p, shape=(side * side,), num_categories=2,
                 n_channels=channels, image_shape=(side, side)), p
