"""Small instances of every model with their exact distribution.

small(name, seed) -> dict(model, params, shape, c, states, logp) where logp is
computed by vmon.ref (float64, from the definition), not by the model.
"""
import jax
import jax.numpy as jnp
import numpy as np
from vmon import data
from vmon import mdl
from vmon import ref
from vmon import table

CLASSICAL = ['bernoulli', 'bernoulli2d', 'categorical', 'ising', 'potts',
             'fhmm', 'fhmm_categ', 'rbm', 'rbm_categ']
CO = ['maxcut', 'mis', 'maxclique', 'normcut_quad', 'normcut_span']
BINARY = ['bernoulli', 'bernoulli2d', 'ising', 'fhmm', 'rbm', 'maxcut', 'mis',
          'maxclique']
ALL = CLASSICAL + CO


def categories(name):
  return 2 if name in BINARY else (4 if name == 'categorical' else 3)


def small(name, seed=0, temperature=1.0):
  rng = jax.random.PRNGKey(seed)
  rs = np.random.RandomState(seed)
  c = categories(name)
  x_mask = None
  if name in ('bernoulli', 'bernoulli2d'):
    shape = (4,) if name == 'bernoulli' else (2, 3)
    model, _ = mdl.classical('bernoulli', shape=shape, init_sigma=1.2)
    params = model.make_init_params(rng)
    fn = lambda x: ref.bernoulli(params, x)
  elif name == 'categorical':
    shape = (2,)
    model, _ = mdl.classical('categorical', shape=shape, init_sigma=1.0)
    params = model.make_init_params(rng)
    fn = lambda x: ref.categorical(params, x)
  elif name == 'ising':
    shape = (2, 3)
    model, _ = mdl.classical('ising', shape=shape, lambdaa=0.4, mu=0.3,
                             init_sigma=0.8)
    params = model.make_init_params(rng)
    fn = lambda x: ref.ising(params, x)
  elif name == 'potts':
    shape = (2, 2)
    model, _ = mdl.classical('potts', shape=shape, num_categories=3,
                             lambdaa=0.6, mu=0.3, init_sigma=0.8)
    params = model.make_init_params(rng)
    fn = lambda x: ref.potts(params, x)
  elif name in ('fhmm', 'fhmm_categ'):
    shape = (3, 2) if name == 'fhmm' else (2, 2)
    model, _ = mdl.classical('fhmm', shape=shape, num_categories=c, sigma=1.5,
                             alpha=0.3, beta=0.7)
    params = model.make_init_params(rng)
    if name == 'fhmm':
      fn = lambda x: ref.fhmm_binary(params, x, 1.5, 0.3, 0.7)
    else:
      fn = lambda x: ref.fhmm_categ(params, x, 1.5, 0.3, 0.7, 3)
  elif name == 'rbm':
    shape = (5,)
    model, _ = mdl.rbm(5, 3)
    params = mdl.randomize(model.make_init_params(rng), seed)
    fn = lambda x: ref.rbm_binary(params, x)
  elif name == 'rbm_categ':
    shape = (3,)
    model, _ = mdl.rbm(3, 3, 3)
    params = mdl.randomize(model.make_init_params(rng), seed, 0.8)
    fn = lambda x: ref.rbm_categ(params, x)
  elif name in ('maxcut', 'mis', 'maxclique'):
    n = 5
    shape = (n,)
    kind = dict(maxcut='er', mis='ertest', maxclique='rb')[name]
    g = data.random_graph(rs, n, 0.6, weighted=name == 'maxcut')
    if not g.edges():
      g.add_edge(0, 1, weight=1.0)
    model, cfg, batch = mdl.graph_model(kind, [g])
    params = dict(batch[0][1])
    if name == 'maxcut':
      fn = lambda x: ref.maxcut(g, x) / temperature
    elif name == 'mis':
      fn = lambda x: ref.mis(g, x, cfg.model.penalty) / temperature
    else:
      fn = lambda x: ref.maxclique(g, x, cfg.model.penalty) / temperature
    params['temperature'] = jnp.float32(temperature)
  elif name in ('normcut_quad', 'normcut_span'):
    n = 4
    shape = (n,)
    g = data.random_graph(rs, n, 0.7, isolated=False)
    stype = name.split('_')[1]
    pen = 0.4 if stype == 'quad' else 1.0
    model, cfg, batch = mdl.graph_model('nets', [g], penalty=pen, stype=stype,
                                        tolerance=0.03)
    params = dict(batch[0][1])
    params['temperature'] = jnp.float32(temperature)
    fn = lambda x: ref.normcut(g, x, 3, pen, stype, 0.03) / temperature
  else:
    raise ValueError(name)
  n = int(np.prod(shape))
  states = table.all_states(n, c).reshape((-1,) + tuple(shape))
  return dict(model=model, params=params, shape=tuple(shape), n=n, c=c,
              states=states, logp=np.asarray(fn(states), np.float64))
