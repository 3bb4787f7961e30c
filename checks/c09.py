"""C09: energies of the statistical models equal their definition."""

RULE = ('one evaluation = the energy the model reports for one state, '
        'compared with the definition in float64; distinct = (model, size, '
        'parameters, encoding, state) compared')
ASSUMPTIONS = ['float32 rounding: differences below 2e-4 of the size of the '
               'terms are not reported']


def cases(tier, seed):
  out = []
  reps = 2 if tier == 'quick' else 10
  def add(fn, **args):
    for k in range(reps):
      name = '%s-%s-%d' % (fn, '_'.join(
          '%s' % (v,) for v in args.values()), k)
      out.append(dict(name=name, fn=fn, args=dict(seed=seed * 53 + k, **args)))
  for shape in [(1,), (7,), (2, 3), (2, 2, 2)]:
    add('bernoulli', shape=shape)
  for shape, c in [((5,), 3), ((3,), 3), ((2, 3), 4), ((4,), 2), ((1,), 7)]:
    add('categorical', shape=shape, c=c)
  for shape in [(2, 2), (3, 4), (5, 2), (1, 4), (4, 1), (6, 6)]:
    add('ising', shape=shape)
  for shape, c in [((2, 3), 3), ((3, 3), 3), ((4, 2), 4), ((1, 3), 5),
                   ((3, 2), 2)]:
    add('potts', shape=shape, c=c)
  for shape, c in [((3, 2), 2), ((5, 1), 2), ((4, 4), 2), ((2, 5), 2),
                   ((3, 2), 3), ((2, 3), 3), ((4, 4), 4), ((5, 1), 3),
                   ((2, 2), 5)]:
    add('fhmm', shape=shape, c=c)
  for nv, nh, c in [(4, 3, 2), (6, 2, 2), (1, 5, 2), (3, 2, 3), (3, 4, 4),
                    (5, 3, 3)]:
    add('rbm', nv=nv, nh=nh, c=c)
  for side, mean in [(4, False), (4, True), (6, True)]:
    add('resnet', side=side, mean=mean)
  return out


def _states(rs, shape, c, count=24):
  import numpy as np
  n = int(np.prod(shape))
  x = rs.randint(0, c, size=(count, n))
  x[0] = 0
  x[1] = c - 1
  x[2] = np.arange(n) % c
  return x.reshape((count,) + tuple(shape)).astype(np.int32)


def _compare(rec, key, model, params, x, want, c, onehot=None, scale=None):
  """All encodings of the same states must give the definition's energies."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  scale = (np.abs(want).max() + 1.0) if scale is None else scale
  enc = [('int', jnp.array(x))]
  if c == 2 and not onehot:
    enc.append(('float', jnp.array(x, jnp.float32)))
    enc.append(('bool-batch1', None))
  if onehot:
    enc.append(('onehot', jax.nn.one_hot(x, c, dtype=jnp.float32)))
  for name, z in enc:
    if name == 'bool-batch1':
      got = np.array([float(np.asarray(model.forward(
          params, jnp.array(x[i:i + 1]))).reshape(-1)[0])
                      for i in range(min(4, len(x)))])
      ref = want[:len(got)]
    else:
      got = np.asarray(model.forward(params, z), np.float64)
      ref = want
    rec.event(len(ref))
    if got.shape != ref.shape:
      rec.fail('shape', '%s: energies of shape %s for %d states' % (
          key, got.shape, len(ref)))
      return
    err = np.abs(got - ref)
    for i in range(len(ref)):
      rec.seen(key, name, x[i].tolist())
    k = int(np.argmax(err))
    rec.check(bool(np.all(err <= 2e-4 * scale)) and np.isfinite(got).all(),
              'energy', '%s (%s): energy of %s is %.6g, the definition gives '
              '%.6g' % (key, name, x[k].tolist(), got[k], ref[k]))
  jit = np.asarray(jax.jit(model.forward)(params, jnp.array(x)), np.float64)
  rec.check(bool(np.all(np.abs(jit - want) <= 2e-4 * scale)), 'energy-compiled',
            '%s: compiled energies differ from the definition' % (key,))
  rec.sample(model=str(key), state=x[2], energy=want[2])


def _both(rec, key, model, x, ref_fn, c, seed, onehot, also_own=True,
          rand_keys=None):
  import jax
  import numpy as np
  from vmon import mdl
  own = model.make_init_params(jax.random.PRNGKey(seed))
  if also_own:
    _compare(rec, key + ('own',), model, own, x, np.asarray(ref_fn(own, x)),
             c, onehot)
  if rand_keys is None:
    p = mdl.randomize(own, seed + 1, 1.5)
  else:
    p = dict(own)
    p.update(mdl.randomize({k: own[k] for k in rand_keys}, seed + 1, 1.5))
  _compare(rec, key + ('random',), model, p, x, np.asarray(ref_fn(p, x)), c,
           onehot)
  # large parameters: still exact as long as the energy fits in float32
  big = jax.tree_util.tree_map(lambda a: a * 60, p) \
      if rand_keys is None else {
          k: v * 60 if k in rand_keys else v for k, v in p.items()}
  _compare(rec, key + ('large',), model, big, x, np.asarray(ref_fn(big, x)),
           c, onehot)


def bernoulli(rec, shape, seed):
  import numpy as np
  from vmon import mdl, ref
  model, _ = mdl.classical('bernoulli', shape=tuple(shape), init_sigma=1.3)
  x = _states(np.random.RandomState(seed), shape, 2)
  _both(rec, ('bernoulli', tuple(shape)), model, x, ref.bernoulli, 2, seed,
        False)


def categorical(rec, shape, c, seed):
  import numpy as np
  from vmon import mdl, ref
  model, _ = mdl.classical('categorical', shape=tuple(shape),
                           num_categories=c)
  x = _states(np.random.RandomState(seed), shape, c)
  _both(rec, ('categorical', tuple(shape), c), model, x, ref.categorical, c,
        seed, True)


def ising(rec, shape, seed):
  import numpy as np
  from vmon import mdl, ref
  model, _ = mdl.classical('ising', shape=tuple(shape), lambdaa=0.7,
                           mu=0.3)
  x = _states(np.random.RandomState(seed), shape, 2)
  _both(rec, ('ising', tuple(shape)), model, x, ref.ising, 2, seed, False)


def potts(rec, shape, c, seed):
  import numpy as np
  from vmon import mdl, ref
  model, _ = mdl.classical('potts', shape=tuple(shape), num_categories=c,
                           lambdaa=0.7, mu=0.3)
  x = _states(np.random.RandomState(seed), shape, c)
  _both(rec, ('potts', tuple(shape), c), model, x, ref.potts, c, seed, True)


def fhmm(rec, shape, c, seed):
  import numpy as np
  from vmon import mdl, ref
  rs = np.random.RandomState(seed)
  sigma, alpha, beta = (float(rs.uniform(0.5, 2)), float(rs.uniform(.05, .6)),
                        float(rs.uniform(.3, .95)))
  model, _ = mdl.classical('fhmm', shape=tuple(shape), num_categories=c,
                           sigma=sigma, alpha=alpha, beta=beta)
  x = _states(rs, shape, c)
  if c == 2:
    fn = lambda p, x: ref.fhmm_binary(p, x, sigma, alpha, beta)
  else:
    fn = lambda p, x: ref.fhmm_categ(p, x, sigma, alpha, beta, c)
  _both(rec, ('fhmm', tuple(shape), c), model, x, fn, c, seed, c > 2)
  if c > 2:
    import jax
    own = model.make_init_params(jax.random.PRNGKey(seed))
    a = np.exp(np.asarray(own['alpha'], np.float64))
    rec.check(abs(a.sum() - 1) < 1e-4 and abs(a[0] - (1 - alpha)) < 1e-4,
              'initial-distribution',
              'first-step state probabilities %s do not form the declared '
              'distribution' % a)


def rbm(rec, nv, nh, c, seed):
  import numpy as np
  from vmon import mdl, ref
  model, _ = mdl.rbm(nv, nh, c)
  x = _states(np.random.RandomState(seed), (nv,), c)
  fn = ref.rbm_binary if c == 2 else ref.rbm_categ
  _both(rec, ('rbm', nv, nh, c), model, x, fn, c, seed, c > 2)


def resnet(rec, side, mean, seed):
  """Network, base term and tempering against the definition."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import mdl, ref
  rs = np.random.RandomState(seed)
  n = side * side
  m = rs.uniform(0.1, 0.9, n) if mean else None
  model, _ = mdl.resnet(side, 4, m)
  plain, _ = mdl.resnet(side, 4, None)
  params = model.make_init_params(jax.random.PRNGKey(seed))
  x = _states(rs, (n,), 2, 10)
  if seed % 2:
    params = mdl.randomize(params, seed, 0.4)
  net = ref.resnet(params, x, side)
  if net is None:     # stored under other names: only internal consistency
    net = np.asarray(plain.forward(params, jnp.array(x)), np.float64)
  else:
    rec.event(1, 'resnet-reference')
  want = net
  if mean:
    base = (x * np.log(m) + (1 - x) * np.log(1 - m)).sum(1)
    want = net + base
  _compare(rec, ('resnet', side, mean), model, params, x, want, 2)
  if mean:
    for beta in (0.0, 0.25, 0.5, 1.0):
      p = dict(params)
      p['temperature'] = beta
      got = np.asarray(model.forward(p, jnp.array(x)), np.float64)
      exp = base + beta * net
      rec.event(len(exp))
      rec.seen('resnet-tempered', side, beta)
      rec.check(np.abs(got - exp).max() < 1e-3 * (1 + np.abs(exp).max()),
                'tempering', 'energy at inverse temperature %s is not base + '
                'beta * network' % beta, got=got, want=exp)
