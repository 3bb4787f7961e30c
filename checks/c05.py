"""C05: chains stay legal and sane on hostile targets."""

RULE = ('one evaluation = one state, acceptance rate or tuning value returned '
        'by a sampler step on a hostile target; distinct = (sampler, target, '
        'visited state) seen')
ASSUMPTIONS = [
    'hostile targets: steep, flat, plateau, spiked, one-sided and badly '
    'scaled energies over <= 512 states, 9- to 64-variable and one-variable '
    'models',
    'the Langevin samplers sum exponentials of energy differences in float32 '
    'and are driven with differences up to 120 only (60 with the balancing '
    'function max)',
    'improbable moves are judged only where exact arithmetic bounds their '
    'probability below e^-60']

from checks.c04 import VARIANTS as _BASE

VARIANTS = _BASE + [
    ('gwg', dict(adaptive=False, balancing_fn_type='RATIO'), (2, 3)),
    ('gwg', dict(adaptive=True, balancing_fn_type='MIN'), (2,)),
    ('gwg', dict(adaptive=False, balancing_fn_type='MAX'), (2, 3)),
    ('path_auxiliary', dict(adaptive=True, balancing_fn_type='RATIO'), (2, 3)),
    ('path_auxiliary', dict(adaptive=False, balancing_fn_type='MAX'), (2,)),
    ('path_auxiliary', dict(adaptive=True, balancing_fn_type='MIN'), (3,)),
    ('dlmc', dict(adaptive=True, balancing_fn_type='RATIO'), (2, 3)),
    ('dlmc', dict(adaptive=True, balancing_fn_type='MIN'), (2,)),
    ('dlmc', dict(adaptive=False, balancing_fn_type='MAX'), (3,)),
    ('dmala', dict(adaptive=True, balancing_fn_type='RATIO'), (2, 3)),
    ('dmala', dict(adaptive=True, balancing_fn_type='MIN'), (3,)),
    ('dmala', dict(adaptive=False, balancing_fn_type='MAX'), (2,)),
]

TARGETS = ['steep', 'verysteep', 'huge', 'flat', 'spike', 'pit', 'ramp',
           'offset']


def cases(tier, seed):
  out = []
  reps = 1 if tier == 'quick' else 3
  steps = 60 if tier == 'quick' else 300
  for k in range(reps):
    for s, opts, cats in VARIANTS:
      for c in cats:
        tag = '%s-%d-%s-%d' % (s, c, '_'.join(
            '%s%s' % kv for kv in opts.items()), k)
        out.append(dict(name='hostile-' + tag, fn='hostile', cost=3, args=dict(
            sampler=s, opts=opts, c=c, seed=seed * 71 + k, steps=steps)))
    for s, opts, cats in VARIANTS:
      if opts.get('solver') or opts.get('approx_with_grad') is False:
        continue
      for c in cats:
        tag = '%s-%d-%s-%d' % (s, c, '_'.join(
            '%s%s' % kv for kv in opts.items()), k)
        out.append(dict(name='model-' + tag, fn='real', cost=2, args=dict(
            sampler=s, opts=opts, c=c, seed=seed * 71 + k, steps=steps)))
  return out


def _target(kind, n, c, rs):
  import numpy as np
  S = c ** n
  if kind == 'steep':
    return rs.randn(S) * 20
  if kind == 'verysteep':
    return rs.randn(S) * 300
  if kind == 'huge':
    return rs.randn(S) * 1e6
  if kind == 'flat':
    return np.zeros(S)
  if kind == 'spike':
    t = np.zeros(S)
    t[rs.randint(S)] = 500
    return t
  if kind == 'pit':
    t = np.zeros(S)
    t[rs.randint(S)] = -1e5
    return t
  if kind == 'ramp':
    return np.linspace(-400, 400, S)
  if kind == 'offset':
    return 1e4 + np.round(rs.randn(S), 1)
  raise ValueError(kind)


def _watch(rec, tag, x, y, st0, st, acc, c, dtype):
  import jax
  import numpy as np
  y = np.asarray(y)
  ok = rec.check(y.shape == x.shape, 'shape', '%s: samples of shape %s became '
                 '%s' % (tag, x.shape, y.shape))
  ok = ok and rec.check(
      bool(np.isfinite(y.astype(np.float64)).all() and (y == np.round(y)).all()
           and y.min() >= 0 and y.max() < c), 'domain',
      '%s: %s is not a state over %d values' % (tag, y.tolist(), c))
  a = np.asarray(acc, np.float64)
  ok = ok and rec.check(bool(np.isfinite(a).all() and (a >= 0).all() and
                             (a <= 1 + 1e-5).all()), 'acceptance',
                        '%s: reported acceptance %s' % (tag, a.tolist()))
  for leaf in jax.tree_util.tree_leaves(st):
    v = np.asarray(leaf, np.float64)
    ok = ok and rec.check(bool(np.isfinite(v).all()), 'tuning',
                          '%s: sampler state became %s' % (
                              tag, {k: np.asarray(v).tolist()
                                    for k, v in st.items()}))
  return ok


def hostile(rec, sampler, opts, c, seed, steps):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import smp, table
  n = 9 if c == 2 else 5
  shape = (3, 3) if c == 2 else (5,)
  s = smp.build(sampler, shape, c, **opts)
  model = table.TableModel(shape, c)
  step = jax.jit(lambda k, x, st, p: s.step(model, k, x, p, dict(st)))
  rs = np.random.RandomState(seed)
  batch = 6
  for kind in TARGETS:
    tab = _target(kind, n, c, rs)
    most = 60 if opts.get('balancing_fn_type') == 'MAX' else 120
    if sampler in smp.BATCH_STATS and np.ptp(tab) > most:
      tab = tab * (most / np.ptp(tab))
    params = {'table': jnp.array(tab, jnp.float32)}
    t32 = np.asarray(params['table'], np.float64)
    x = rs.randint(0, c, size=(batch,) + shape).astype(np.int32)
    st = s.make_init_state(jax.random.PRNGKey(seed))
    moves = 0
    for t in range(steps):
      key = jax.random.fold_in(jax.random.PRNGKey(seed), t)
      y, st1, acc = step(key, jnp.array(x), st, params)
      y = np.asarray(y)
      if not _watch(rec, '%s/%s step %d' % (sampler, kind, t), x, y, st, st1,
                    acc, c, x.dtype):
        return
      xf, yf = x.reshape(batch, -1), y.reshape(batch, -1).astype(np.int32)
      a, b = table.state_index(xf, c), table.state_index(yf, c)
      drop = t32[a] - t32[b]
      # float32 energies of magnitude E cannot resolve differences < E * 1e-6
      fuzz = 60 + 1e-5 * np.abs(t32).max()
      first = t == 0 and sampler in smp.BATCH_STATS
      if sampler != 'path_auxiliary' and not first and \
          sampler != 'hammingball':
        if not rec.check(bool((drop <= fuzz).all()), 'impossible-move',
                         '%s/%s: moved from %s to %s, e^%.0f times less '
                         'likely' % (sampler, kind, xf[drop.argmax()].tolist(),
                                     yf[drop.argmax()].tolist(), drop.max())):
          return
      moves += int((a != b).sum())
      for v in np.unique(b):
        rec.seen(sampler, opts, c, kind, v)
      x, st = yf.reshape(x.shape), st1
    rec.event(moves, 'moves')
    if kind == 'flat':
      rec.check(moves > 0, 'frozen', '%s never moves on a flat target' %
                sampler)


def real(rec, sampler, opts, c, seed, steps):
  """The same on real models with extreme parameters and odd sizes."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import data, mdl, smp
  rs = np.random.RandomState(seed)
  todo = []
  f = 0.1 if sampler in smp.BATCH_STATS else 1.0
  if c == 2:
    m, _ = mdl.classical('ising', shape=(8, 8), lambdaa=50.0 * f,
                         mu=-30.0 * f, init_sigma=40.0 * f)
    todo.append(('ising', m, m.make_init_params(jax.random.PRNGKey(1)), (8, 8)))
    m, _ = mdl.classical('bernoulli', shape=(1,), init_sigma=200.0 * f)
    todo.append(('bernoulli1', m, m.make_init_params(jax.random.PRNGKey(2)),
                 (1,)))
    g = data.random_graph(rs, 12, 0.4)
    m, _, b = mdl.graph_model('ertest', [g])
    p = dict(b[0][1])
    p['temperature'] = jnp.float32(1e-3 if f == 1 else 0.05)
    todo.append(('mis', m, p, (12,)))
  else:
    m, _ = mdl.classical('potts', shape=(4, 4), num_categories=3,
                         lambdaa=60.0 * f, mu=-30.0 * f,
                         init_sigma=40.0 * f)
    todo.append(('potts', m, m.make_init_params(jax.random.PRNGKey(1)), (4, 4)))
    m, _ = mdl.classical('categorical', shape=(1,), num_categories=3,
                         init_sigma=200.0 * f)
    todo.append(('categorical1', m, m.make_init_params(jax.random.PRNGKey(2)),
                 (1,)))
  for name, model, params, shape in todo:
    size = int(np.prod(shape))
    o = dict(opts)
    if size == 1:
      o = {k: (1 if k in ('block_size', 'num_flips') else v)
           for k, v in o.items()}
    s = smp.build(sampler, shape, c, **o)
    step = jax.jit(lambda k, x, st: s.step(model, k, x, params, dict(st)))
    x = np.asarray(model.get_init_samples(jax.random.PRNGKey(seed), 5))
    x = x.reshape((5,) + shape).astype(np.int32)
    st = s.make_init_state(jax.random.PRNGKey(seed))
    for t in range(steps):
      key = jax.random.fold_in(jax.random.PRNGKey(seed + 1), t)
      y, st1, acc = step(key, jnp.array(x), st)
      if not _watch(rec, '%s/%s step %d' % (sampler, name, t), x, y, st, st1,
                    acc, c, x.dtype):
        return
      rec.seen(sampler, opts, name, np.asarray(y).tobytes().hex()[:64])
      x, st = np.asarray(y).astype(np.int32).reshape(x.shape), st1
