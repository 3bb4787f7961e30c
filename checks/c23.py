"""C23: initial states and generated or loaded parameters follow their law."""

RULE = ('one evaluation = one initial state, one generated parameter, or one '
        'statistic of them compared with its law; distinct = (model, '
        'configuration, law) observed')
ASSUMPTIONS = [
    'laws are judged on 10^4 to 10^5 draws at p < 1e-10: smaller deviations '
    'are not seen',
    'trained models are random parameter sets written the way training '
    'leaves them']

P_MIN = 1e-10


def cases(tier, seed):
  out = []
  reps = 1 if tier == 'quick' else 5
  def add(fn, **args):
    for k in range(reps):
      name = '%s-%s-%d' % (fn, '_'.join(
          str(v) for v in args.values()), k)
      out.append(dict(name=name, fn=fn, args=dict(seed=seed * 97 + k, **args)))
  for kind, shape, c in [
      ('bernoulli', (1,), 2), ('bernoulli', (6,), 2), ('bernoulli', (2, 3), 2),
      ('categorical', (4,), 3), ('categorical', (2, 2), 5),
      ('categorical', (3,), 4),
      ('ising', (2, 3), 2), ('ising', (3, 3), 2),
      ('potts', (2, 3), 3), ('potts', (3, 2), 4),
      ('fhmm', (4, 2), 2), ('fhmm', (3, 1), 2), ('fhmm', (3, 2), 3),
      ('fhmm', (2, 3), 4),
      ('rbm', (5,), 2), ('rbm', (4,), 3), ('rbm', (3,), 5),
      ('resnet', (4, 4), 2),
      ('mis', (6,), 2), ('maxclique', (5,), 2), ('maxcut', (7,), 2)]:
    add('starts', kind=kind, shape=shape, c=c)
  for n, c in [(7, 2), (6, 3), (9, 4), (4, 4)]:
    add('normcut_starts', n=n, c=c)
  for kind, shape, c in [('rbm', (6,), 2), ('rbm', (4,), 3), ('rbm', (3,), 5),
                         ('resnet', (4, 4), 2), ('resnet_mean', (4, 4), 2)]:
    add('trained_starts', kind=kind, shape=shape, c=c)
  for kind, shape, c in [('rbm', (6,), 2), ('rbm', (4,), 3),
                         ('resnet', (4, 4), 2)]:
    add('checkpoint', kind=kind, shape=shape, c=c)
  for shape in [(40, 30), (900,)]:
    for sigma in [1.0, 0.3, 2.5]:
      add('factorised', kind='bernoulli', shape=shape, c=2, sigma=sigma)
  for shape, c in [((20, 15), 4), ((300,), 3)]:
    for sigma in [1.0, 0.4]:
      add('factorised', kind='categorical', shape=shape, c=c, sigma=sigma)
  for kind, c in [('ising', 2), ('potts', 3), ('potts', 5)]:
    for shape in [(12, 12), (9, 20), (17, 6), (1, 8), (3, 3)]:
      for mu, sigma, lam in [(2.0, 3.0, 1.0), (-0.5, 1.5, 0.4407),
                             (0.7, 0.0, -0.3), (0.0, 1.0, 2.0)]:
        add('lattice', kind=kind, c=c, shape=shape, mu=mu, sigma=sigma,
            lam=lam)
  for c in [2, 3, 4]:
    for alpha, beta in [(0.1, 0.95), (0.4, 0.6)]:
      add('hidden_chain', c=c, alpha=alpha, beta=beta)
    add('observations', c=c, k=3)
    add('observations', c=c, k=1)
  return out


def _model(kind, shape, c):
  import numpy as np
  from vmon import data, mdl
  if kind == 'bernoulli':
    return mdl.classical('bernoulli', shape=shape, init_sigma=1.0)[0]
  if kind == 'categorical':
    return mdl.classical('categorical', shape=shape, num_categories=c,
                         init_sigma=1.0)[0]
  if kind == 'ising':
    return mdl.classical('ising', shape=shape)[0]
  if kind == 'potts':
    return mdl.classical('potts', shape=shape, num_categories=c)[0]
  if kind == 'fhmm':
    return mdl.classical('fhmm', shape=shape, num_categories=c)[0]
  if kind == 'rbm':
    return mdl.rbm(shape[0], 3, c)[0]
  if kind == 'resnet':
    return mdl.resnet(shape[0])[0]
  rs = np.random.RandomState(shape[0])
  g = data.random_graph(rs, shape[0], 0.5, weighted=kind == 'maxcut',
                        isolated=False)
  kinds = [k for k, v in data.MODEL_OF.items() if v == kind]
  return mdl.graph_model(kinds[0], [g], [1.0])[0]


def _flat(x):
  import numpy as np
  x = np.asarray(x)
  return x.reshape(len(x), -1)


def _shape_checks(rec, key, model, shape, c, seed):
  """Shape, type, range, determinism; returns a big batch of samples."""
  import jax
  import numpy as np
  for n in [1, 2, 5, 20000]:
    k = jax.random.PRNGKey(seed * 31 + n)
    x = np.asarray(model.get_init_samples(k, n))
    rec.event(n)
    rec.check(x.shape == (n,) + tuple(shape), 'shape',
              '%s: %d initial states have shape %s instead of %s' % (
                  key, n, x.shape, (n,) + tuple(shape)))
    if x.shape != (n,) + tuple(shape):
      return None
    rec.check(np.issubdtype(x.dtype, np.integer), 'type',
              '%s: initial states are of type %s, not integers' % (
                  key, x.dtype))
    rec.check(x.min() >= 0 and x.max() < c, 'range',
              '%s: initial states have values from %d to %d with %d '
              'categories' % (key, x.min(), x.max(), c))
    y = np.asarray(model.get_init_samples(k, n))
    rec.check(np.array_equal(x, y), 'deterministic',
              '%s: the same random key gives different initial states' % (
                  key,))
  return x


def _pair_gof(a, b, pa, pb):
  import numpy as np
  from vmon import stats
  ca, cb = len(pa), len(pb)
  counts = np.zeros((ca, cb))
  np.add.at(counts, (a, b), 1)
  return stats.gof(counts.ravel(), np.outer(pa, pb).ravel())


def _law(rec, key, x, probs):
  """x [n, v] i.i.d. rows of independent variables with law probs[v]."""
  import numpy as np
  from vmon import stats
  n, v = x.shape
  c = probs.shape[1]
  for i in range(v):
    p = stats.gof(np.bincount(x[:, i], minlength=c), probs[i])
    rec.seen(key, 'marginal', i)
    rec.check(p > P_MIN, 'marginal',
              '%s: variable %d of the initial states takes its values with '
              'frequencies %s instead of %s (p=%.1e)' % (
                  key, i, (np.bincount(x[:, i], minlength=c) / n).round(4),
                  probs[i].round(4), p))
  # other variables of the same chain
  for i in range(v):
    for j in sorted({(i + 1) % v, (i + v // 2) % v, v - 1 - i} - {i}):
      p = _pair_gof(x[:, i], x[:, j], probs[i], probs[j])
      rec.seen(key, 'pair', i, j)
      rec.check(p > P_MIN, 'dependent-variables',
                '%s: variables %d and %d of an initial state are not '
                'independent (p=%.1e)' % (key, i, j, p))
  # the same and another variable of other chains
  for lag in [1, 2, n // 2]:
    for i in range(v):
      for j in sorted({i, (i + 1) % v}):
        p = _pair_gof(x[:-lag, i], x[lag:, j], probs[i], probs[j]) \
            if lag != n // 2 else _pair_gof(
                x[:lag, i], x[lag:2 * lag, j], probs[i], probs[j])
        rec.seen(key, 'lag', lag, i, j)
        rec.check(p > P_MIN, 'dependent-chains',
                  '%s: the initial states of chains at distance %d are not '
                  'independent (p=%.1e)' % (key, lag, p))


def _across_keys(rec, key, model, probs, seed):
  """First chain, over many keys: its own law, and fresh for each key."""
  import jax
  import numpy as np
  from vmon import stats
  n = 6000
  c = probs.shape[1]
  keys = jax.random.split(jax.random.PRNGKey(seed * 7 + 5), n)
  x = np.asarray(jax.vmap(lambda k: model.get_init_samples(k, 2))(keys))
  x = x.reshape(n, 2, -1)
  rec.event(2 * n)
  for i in range(x.shape[2]):
    for r in range(2):
      p = stats.gof(np.bincount(x[:, r, i], minlength=c), probs[i])
      rec.check(p > P_MIN, 'marginal-over-keys',
                '%s: over random keys, variable %d of chain %d has the wrong '
                'frequencies (p=%.1e)' % (key, i, r, p))
    p = _pair_gof(x[:, 0, i], x[:, 1, i], probs[i], probs[i])
    rec.check(p > P_MIN, 'dependent-chains-over-keys',
              '%s: the two chains of a batch start alike (p=%.1e)' % (key, p))
    rec.seen(key, 'over-keys', i)
  # a loop key must not be ignored
  a = np.asarray(model.get_init_samples(jax.random.PRNGKey(seed), 400))
  b = np.asarray(model.get_init_samples(jax.random.PRNGKey(seed + 1), 400))
  rec.check(not np.array_equal(a, b), 'key-ignored',
            '%s: two random keys give the same 400 initial states' % (key,))
  comp = np.asarray(jax.jit(lambda k: model.get_init_samples(k, 400))(
      jax.random.PRNGKey(seed)))
  rec.check(np.array_equal(a, comp), 'compiled',
            '%s: compiled and eager initial states differ' % (key,))


def starts(rec, kind, shape, c, seed):
  import numpy as np
  shape = tuple(shape)
  model = _model(kind, shape, c)
  key = (kind, shape, c)
  sshape = shape if kind != 'resnet' else (shape[0] * shape[1],)
  x = _shape_checks(rec, key, model, sshape, c, seed)
  if x is None:
    return
  v = int(np.prod(shape))
  probs = np.full((v, c), 1.0 / c)
  _law(rec, key, _flat(x), probs)
  _across_keys(rec, key, model, probs, seed)
  rec.sample(model=kind, shape=shape, categories=c, first=x[0])


def normcut_starts(rec, n, c, seed):
  import jax
  import numpy as np
  from vmon import data, mdl, stats
  rs = np.random.RandomState(n)
  g = data.random_graph(rs, n, 0.5, isolated=False)
  kind = [k for k, v in data.MODEL_OF.items() if v == 'normcut'][0]
  model, _, _ = mdl.graph_model(kind, [g], [1.0], num_categories=c)
  key = ('normcut', n, c)
  x = _shape_checks(rec, key, model, (n,), c, seed)
  if x is None:
    return
  have = np.stack([(x == k).any(1) for k in range(c)], 1)
  bad = np.nonzero(~have.all(1))[0]
  rec.event(len(x))
  rec.check(len(bad) == 0, 'empty-part',
            '%s: initial partition %s leaves a part empty' % (
                key, x[bad[0]].tolist() if len(bad) else None))
  for i in range(n):
    p = stats.gof(np.bincount(x[:, i], minlength=c), np.full(c, 1.0 / c))
    rec.seen(key, 'marginal', i)
    rec.check(p > P_MIN, 'marginal',
              '%s: node %d is not assigned uniformly (p=%.1e)' % (key, i, p))
    p = _pair_gof(x[:-1, i], x[1:, i], np.full(c, 1.0 / c),
                  np.full(c, 1.0 / c))
    rec.check(p > P_MIN, 'dependent-chains',
              '%s: neighbouring chains start alike (p=%.1e)' % (key, p))
  # all nodes alike: the law of the node pair is the same for every pair
  same = [(x[:, i] == x[:, j]).mean() for i in range(n) for j in range(i)]
  # one of each part, the others uniform, in random order
  pairs = n * (n - 1) / 2.0
  want = (pairs - c * (c - 1) / 2.0) / pairs / c
  sd = (want * (1 - want) / len(x)) ** 0.5 + 1e-12
  z = max(abs(s - want) for s in same) / sd
  rec.seen(key, 'pairs')
  rec.check(z < 8, 'pairs', '%s: some pair of nodes shares a part with '
            'frequency %.4f..%.4f instead of %.4f' % (
                key, min(same), max(same), want))
  a = np.asarray(model.get_init_samples(jax.random.PRNGKey(seed), 400))
  b = np.asarray(model.get_init_samples(jax.random.PRNGKey(seed + 1), 400))
  rec.check(not np.array_equal(a, b), 'key-ignored',
            '%s: two random keys give the same initial states' % (key,))
  rec.sample(model='normcut', nodes=n, parts=c, first=x[0])


def _mean(rs, nv, c):
  import numpy as np
  if c == 2:
    m = rs.uniform(0.05, 0.95, nv)
    m[0], m[-1] = 0.02, 0.9
    return m.astype(np.float32), np.stack([1 - m, m], 1)
  m = rs.dirichlet(np.ones(c), nv) * 0.9 + 0.1 / c
  return m.astype(np.float32), m / m.sum(1, keepdims=True)


def _trained_model(kind, shape, c, rs):
  """Model loaded from a checkpoint, its parameters, and its start law."""
  import importlib
  import jax
  import numpy as np
  from vmon import mdl
  nv = int(np.prod(shape))
  mean, probs = _mean(rs, nv, c)
  if kind == 'rbm':
    nh = int(rs.randint(2, 7))
    base, _ = mdl.rbm(nv, nh, c)
    params = base.make_init_params(jax.random.PRNGKey(int(rs.randint(1000))))
    params = jax.tree_util.tree_map(np.asarray, mdl.randomize(
        dict(params), int(rs.randint(10 ** 6)), 0.7))
    params['data_mean'] = mean
    cfg = mdl.trained('rbm', params, shape=(nv,), num_visible=nv,
                      num_hidden=nh, num_categories=c)
    model = importlib.import_module('discs.models.rbm').build_model(cfg)
    return model, params, probs, (nv,), nh
  base, _ = mdl.resnet(shape[0], 4)
  params = base.make_init_params(jax.random.PRNGKey(int(rs.randint(1000))))
  params = jax.tree_util.tree_map(np.asarray, mdl.randomize(
      dict(params), int(rs.randint(10 ** 6)), 0.3))
  params['data_mean'] = mean
  cfg = mdl.trained('resnet', params, shape=(nv,), num_categories=2,
                    n_channels=4, image_shape=tuple(shape))
  model = importlib.import_module('discs.models.resnet').build_model(cfg)
  return model, params, probs, (nv,), 4


def trained_starts(rec, kind, shape, c, seed):
  import numpy as np
  from vmon import mdl
  shape = tuple(shape)
  rs = np.random.RandomState(seed + 17)
  if kind == 'resnet_mean':           # data mean given by the configuration
    nv = int(np.prod(shape))
    mean, probs = _mean(rs, nv, c)
    model, _ = mdl.resnet(shape[0], 4, data_mean=mean)
    sshape = (nv,)
  else:
    model, _, probs, sshape, _ = _trained_model(kind, shape, c, rs)
  key = ('trained', kind, shape, c, seed)
  x = _shape_checks(rec, key, model, sshape, c, seed)
  if x is None:
    return
  _law(rec, key, _flat(x), probs)
  _across_keys(rec, key, model, probs, seed)
  rec.sample(model=kind, data_mean=probs[:3], first=x[0])


def checkpoint(rec, kind, shape, c, seed):
  """Parameters and architecture are those of the checkpoint."""
  import importlib
  import os
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import mdl, ref
  shape = tuple(shape)
  for k in range(4):
    rs = np.random.RandomState(seed * 5 + k)
    model, want, _, sshape, size = _trained_model(kind, shape, c, rs)
    for rng in [0, 9]:
      got = model.make_init_params(jax.random.PRNGKey(rng))
      fw = jax.tree_util.tree_leaves_with_path(dict(want))
      fg = dict((jax.tree_util.keystr(p), np.asarray(v))
                for p, v in jax.tree_util.tree_leaves_with_path(dict(got)))
      for p, v in fw:
        name = jax.tree_util.keystr(p)
        rec.seen(kind, name, size, k)
        rec.check(name in fg and np.array_equal(fg[name], v), 'checkpoint',
                  '%s: parameter %s of the model is not the one of the '
                  'checkpoint' % (kind, name))
    rec.check(tuple(model.shape) == sshape, 'checkpoint-shape',
              '%s: the model has shape %s, the checkpoint %s' % (
                  kind, model.shape, sshape))
    if kind == 'rbm':
      x = rs.randint(0, c, size=(8, sshape[0]))
      got_e = np.asarray(model.forward(
          model.make_init_params(jax.random.PRNGKey(1)), jnp.array(x)),
                         np.float64)
      want_e = np.asarray((ref.rbm_binary if c == 2 else ref.rbm_categ)(
          want, x))
      rec.check(np.abs(got_e - want_e).max() < 1e-3 * (
          1 + np.abs(want_e).max()), 'checkpoint-energy',
                '%s: energies are not those of the checkpoint' % kind)
  # a missing checkpoint is an error, not a silently random model
  cfg = importlib.import_module('discs.common.configs').get_config()
  mc = importlib.import_module('discs.models.configs.%s_config' % kind)
  cfg.model.update(mc.get_config())
  cfg.model.data_path = os.path.join(os.environ['VMON_SCRATCH'], 'nothing')
  try:
    importlib.import_module('discs.models.' + kind).build_model(cfg)
    ok = False
  except Exception:  # pylint: disable=broad-except
    ok = True
  rec.seen(kind, 'missing')
  rec.check(ok, 'missing-checkpoint', '%s: a model without its checkpoint was '
            'built as if nothing were missing' % kind)


def _ks(z, dist):
  from scipy import stats as st
  return st.kstest(z, dist).pvalue


def _params_repeat(rec, key, model, seed):
  import jax
  import numpy as np
  a = model.make_init_params(jax.random.PRNGKey(seed))
  b = model.make_init_params(jax.random.PRNGKey(seed))
  d = model.make_init_params(jax.random.PRNGKey(seed + 1))
  la, lb, ld = [jax.tree_util.tree_leaves(t) for t in (a, b, d)]
  rec.check(all(np.array_equal(p, q) for p, q in zip(la, lb)),
            'params-deterministic', '%s: the same key gives different '
            'parameters' % (key,))
  return a, not all(np.array_equal(p, q) for p, q in zip(la, ld))


def factorised(rec, kind, shape, c, sigma, seed):
  import jax
  import numpy as np
  from vmon import mdl
  shape = tuple(shape)
  over = dict(shape=shape, init_sigma=sigma)
  if kind == 'categorical':
    over['num_categories'] = c
  model, _ = mdl.classical(kind, **over)
  key = (kind, shape, c, sigma)
  params, fresh = _params_repeat(rec, key, model, seed)
  rec.check(fresh, 'params-key-ignored',
            '%s: two keys give the same parameters' % (key,))
  want = shape if kind == 'bernoulli' else shape + (c,)
  p = np.asarray(params['params'], np.float64)
  rec.check(p.shape == want, 'params-shape', '%s: parameters of shape %s' % (
      key, p.shape))
  z = p.ravel() / sigma
  rec.event(z.size)
  rec.seen(key, 'law')
  v = _ks(z, 'norm')
  rec.check(v > P_MIN, 'params-law', '%s: parameters do not follow a normal '
            'law of deviation %g (observed mean %.3f, deviation %.3f)' % (
                key, sigma, p.mean(), p.std()))
  # independent: neighbouring entries uncorrelated
  for a, b in [(z[:-1], z[1:]), (z[:-c], z[c:]), (z[:len(z) // 2],
                                                 z[len(z) // 2:][:len(z) // 2])]:
    n = min(len(a), len(b))
    r = (a[:n] * b[:n]).sum() / n ** 0.5
    rec.check(abs(r) < 8, 'params-correlated',
              '%s: parameters are correlated (z=%.1f)' % (key, r))
  # over keys too
  qs = np.stack([np.asarray(model.make_init_params(
      jax.random.PRNGKey(seed + 100 + k))['params']).ravel()[:4]
                 for k in range(60)]) / sigma
  rec.check(_ks(qs.ravel(), 'norm') > P_MIN, 'params-law-over-keys',
            '%s: parameters over keys do not follow their law' % (key,))
  rec.sample(model=kind, sigma=sigma, mean=p.mean(), deviation=p.std())


def lattice(rec, kind, c, shape, mu, sigma, lam, seed):
  import jax
  import numpy as np
  from scipy import stats as st
  from vmon import mdl
  shape = tuple(shape)
  over = dict(shape=shape, init_sigma=sigma, mu=mu, lambdaa=lam)
  if kind == 'potts':
    over['num_categories'] = c
  model, _ = mdl.classical(kind, **over)
  key = (kind, shape, c, mu, sigma, lam)
  params, fresh = _params_repeat(rec, key, model, seed)
  rec.check(fresh == (sigma != 0), 'params-key-ignored',
            '%s: the random part of the field does not come from the key' % (
                key,))
  p = np.asarray(params['params'], np.float64)
  full = shape if kind == 'ising' else shape + (c,)
  rec.check(p.shape == (3,) + full, 'params-shape',
            '%s: parameters of shape %s' % (key, p.shape))
  if p.shape != (3,) + full:
    return
  used = np.concatenate([p[0][:, :-1].ravel(), p[1][:-1].ravel()])
  rec.event(used.size)
  if used.size:
    rec.check(np.abs(used + lam).max() < 1e-6, 'coupling',
              '%s: couplings %s instead of %g' % (
                  key, sorted(set(used.round(4).tolist()))[:4], -lam))
  i = np.arange(shape[0])[:, None] / shape[0] - 0.5
  j = np.arange(shape[1])[None] / shape[1] - 0.5
  r2 = i ** 2 + j ** 2
  sure = np.abs(r2 - 0.5 / np.pi) > 1e-6
  sign = np.where(r2 < 0.5 / np.pi, 1.0, -1.0)
  if kind == 'potts':
    sign = np.broadcast_to(sign[..., None], full)
    sure = np.broadcast_to(sure[..., None], full)
  res = []
  for k in range(1 if sigma == 0 else 24):
    b = np.asarray(model.make_init_params(
        jax.random.PRNGKey(seed * 41 + k))['params'], np.float64)[2]
    d = (b - mu * sign)[sure]
    rec.event(d.size)
    tol = 1e-5 * (1 + abs(mu) + sigma)
    w = np.abs(d).max()
    rec.check(w <= sigma + tol, 'field-range',
              '%s: a field differs by %.4f from +-mu inside and outside the '
              'circle, more than init_sigma' % (key, w))
    res.append(d)
  d = np.concatenate(res)
  if sigma:
    rec.check(st.kstest(d / sigma, st.uniform(-1, 2).cdf).pvalue > P_MIN,
              'field-law', '%s: the random part of the field is not uniform '
              'in +-%g (observed %.3f to %.3f, mean %.3f)' % (
                  key, sigma, d.min(), d.max(), d.mean()))
    m = np.stack(res)
    if m.shape[1] > 1:
      r = (m[:, :-1] * m[:, 1:]).sum() / sigma ** 2 * 3 / m[:, 1:].size ** 0.5
      rec.check(abs(r) < 8, 'field-correlated',
                '%s: neighbouring fields are correlated (z=%.1f)' % (key, r))
  rec.seen(key, 'field')
  rec.sample(model=kind, shape=shape, mu=mu, sigma=sigma,
             inside=int((sign > 0).sum()), outside=int((sign < 0).sum()))


def _chains(model, c, length, n, seed):
  """Hidden states of n generated instances, read off the observations."""
  import jax
  import numpy as np
  gen = jax.jit(jax.vmap(model.make_init_params))
  ps = gen(jax.random.split(jax.random.PRNGKey(seed), n))
  w = np.asarray(ps['w'], np.float64)
  b = np.asarray(ps['b'], np.float64).reshape(n, 1)
  y = np.asarray(ps['y'], np.float64).reshape(n, length)
  if c == 2:
    levels = np.concatenate([np.zeros((n, 1)), w.reshape(n, 1)], 1)
  else:
    levels = w.reshape(n, c)
  gap = np.min([np.abs(levels[:, i] - levels[:, j]) for i in range(c)
                for j in range(i)], axis=0)
  d = np.abs((y - b)[:, :, None] - levels[:, None])
  x = d.argmin(-1)
  res = (y - b) - np.take_along_axis(levels, x, 1)
  return x, res, gap, ps


def hidden_chain(rec, c, alpha, beta, seed):
  """Law of the hidden states behind the generated observations."""
  import numpy as np
  from vmon import mdl, stats
  length, sigma = 6, 1e-3
  model, _ = mdl.classical('fhmm', shape=(length, 1), num_categories=c,
                           sigma=sigma, alpha=alpha, beta=beta)
  x, res, gap, _ = _chains(model, c, length, 20000, seed * 3 + 1)
  ok = gap > 30 * sigma
  x, res = x[ok], res[ok]
  rec.event(x.size)
  key = ('fhmm', c, alpha, beta)
  rec.check(np.abs(res).max() < 8 * sigma, 'observation',
            '%s: an observation is not the weighted hidden state plus noise '
            '(off by %.4f with noise %g)' % (key, np.abs(res).max(), sigma))
  p = stats.gof(np.bincount(x[:, 0] > 0, minlength=2), [1 - alpha, alpha])
  rec.seen(key, 'start')
  rec.check(p > P_MIN, 'hidden-start', '%s: the first hidden state is on with '
            'frequency %.4f instead of alpha = %g' % (
                key, (x[:, 0] > 0).mean(), alpha))
  for t in range(1, length):
    stay = x[:, t] == x[:, t - 1]
    for s in range(c):
      sel = x[:, t - 1] == s
      cnt = np.bincount(x[sel, t], minlength=c)
      want = np.full(c, (1 - beta) / (c - 1))
      want[s] = beta
      p = stats.gof(cnt, want)
      rec.seen(key, 'move', t, s)
      rec.check(p > P_MIN, 'hidden-transition',
                '%s: from hidden state %d at time %d the chain moves with '
                'frequencies %s instead of %s' % (
                    key, s, t, (cnt / max(cnt.sum(), 1)).round(4),
                    want.round(4)))
    if t >= 2:      # Markov: staying does not depend on the step before
      prev = x[:, t - 1] == x[:, t - 2]
      p = stats.homogeneity(
          [(stay & prev).sum(), (~stay & prev).sum()],
          [(stay & ~prev).sum(), (~stay & ~prev).sum()])
      rec.check(p > P_MIN, 'hidden-memory', '%s: the hidden chain remembers '
                'earlier moves (p=%.1e)' % (key, p))
  rec.sample(alpha=alpha, beta=beta, start=(x[:, 0] > 0).mean(),
             stay=(x[:, 1:] == x[:, :-1]).mean())


def observations(rec, c, k, seed):
  """Law of the weights, the offset and the noise."""
  import numpy as np
  from vmon import mdl
  n = 4000
  key = ('fhmm', c, k)
  for sigma in [0.002, 0.01]:
    model, _ = mdl.classical('fhmm', shape=(5, k), num_categories=c,
                             sigma=sigma, alpha=0.3, beta=0.7)
    _, fresh = _params_repeat(rec, key, model, seed)
    rec.check(fresh, 'params-key-ignored', '%s: two keys give the same '
              'parameters' % (key,))
    import jax
    ps = jax.jit(jax.vmap(model.make_init_params))(
        jax.random.split(jax.random.PRNGKey(seed * 3 + 2), n))
    w = np.asarray(ps['w'], np.float64)
    b = np.asarray(ps['b'], np.float64)
    rec.event(w.size + b.size)
    rec.seen(key, sigma)
    rec.check(w.size == n * k * (1 if c == 2 else c), 'params-shape',
              '%s: weights of shape %s' % (key, w.shape[1:]))
    rec.check(_ks(w.ravel(), 'norm') > P_MIN, 'weight-law',
              '%s: weights are not standard normal (mean %.3f, deviation '
              '%.3f)' % (key, w.mean(), w.std()))
    rec.check(_ks(b.ravel(), 'norm') > P_MIN, 'offset-law',
              '%s: offsets are not standard normal (mean %.3f, deviation '
              '%.3f)' % (key, b.mean(), b.std()))
    # noise, where the hidden state can be read off unambiguously
    y = np.asarray(ps['y'], np.float64).reshape(n, 5) - b.reshape(n, 1)
    ww = w.reshape(n, k, -1)
    lev = np.zeros((n, 1))
    for i in range(k):
      add = np.concatenate([np.zeros((n, 1)), ww[:, i]], 1) if c == 2 \
          else ww[:, i]
      lev = (lev[:, :, None] + add[:, None]).reshape(n, -1)
    lev = np.sort(lev, 1)
    ok = (np.diff(lev, axis=1).min(1) > 20 * sigma)
    if ok.sum() < 150:
      continue
    d = (y[ok][:, :, None] - lev[ok][:, None])
    res = np.take_along_axis(d, np.abs(d).argmin(-1)[..., None], -1)[..., 0]
    rec.event(res.size)
    rec.check(_ks(res.ravel() / sigma, 'norm') > P_MIN, 'noise-law',
              '%s: the noise of the observations has deviation %.4g instead '
              'of %g' % (key, res.std(), sigma))
    for i in range(5):
      for j in range(i):
        r = np.mean(res[:, i] * res[:, j]) / sigma ** 2
        lim = 7 / np.sqrt(len(res))
        rec.seen(key, sigma, 'noise', i, j)
        rec.check(abs(r) < lim, 'noise-dependence',
                  '%s: the noise at times %d and %d has correlation %.3f '
                  '(at most %.3f by chance)' % (key, j, i, r, lim))
    if c > 2:
      al = np.exp(np.asarray(ps['alpha'], np.float64)).reshape(n, c)
      rec.check(np.abs(al[:, 0] - 0.7).max() < 1e-5 and np.abs(
          al.sum(1) - 1).max() < 1e-5, 'initial-law',
                '%s: initial probabilities %s' % (key, al[0]))
