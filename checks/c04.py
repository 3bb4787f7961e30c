"""C04: the chains of a batch neither influence nor copy each other."""

RULE = ('one evaluation = one chain of a batch compared with the same chain '
        'among different neighbours, or one joint observation of two chains; '
        'distinct = (sampler, options, start states, next states) seen')
ASSUMPTIONS = [
    'the calibration step of the Langevin samplers (step 0, and every step in '
    'combinatorial mode) uses batch statistics by design and is left out',
    'the Hamming ball sampler may share its auxiliary radius over the batch: '
    'its chains must be independent given the radius',
    'independence is judged by chi-square at p < 1e-11']

VARIANTS = [
    ('gibbs', dict(), (2, 3)), ('blockgibbs', dict(block_size=2), (2, 3)),
    ('blockgibbs', dict(block_size=1), (2, 3)),
    ('hammingball', dict(block_size=2), (2, 3)),
    ('randomwalk', dict(adaptive=True), (2, 3)),
    ('randomwalk', dict(adaptive=False), (2, 3)),
    ('gwg', dict(adaptive=True), (2,)),
    ('gwg', dict(adaptive=False), (2, 3)),
    ('gwg', dict(adaptive=False, num_flips=2), (2,)),
    ('path_auxiliary', dict(adaptive=True), (2, 3)),
    ('path_auxiliary', dict(adaptive=False, num_flips=2), (2, 3)),
    ('path_auxiliary', dict(adaptive=True, approx_with_grad=False), (2, 3)),
    ('path_auxiliary', dict(adaptive=False, approx_with_grad=False,
                            num_flips=3), (2, 3)),
    ('dlmc', dict(adaptive=True), (2, 3)),
    ('dlmc', dict(adaptive=False), (2, 3)),
    ('dlmc', dict(adaptive=True, solver='euler_forward'), (2, 3)),
    ('dmala', dict(adaptive=True), (2, 3)),
    ('dmala', dict(adaptive=False), (2, 3)),
]


def cases(tier, seed):
  out = []
  reps = 1 if tier == 'quick' else 4
  for k in range(reps):
    for s, opts, cats in VARIANTS:
      for c in cats:
        tag = '%s-%d-%s-%d' % (s, c, '_'.join(
            '%s%s' % kv for kv in opts.items()), k)
        a = dict(sampler=s, opts=opts, c=c, seed=seed * 71 + k)
        out.append(dict(name='isolation-' + tag, fn='isolation', args=a))
        if s == 'hammingball':
          out.append(dict(name='joint-' + tag, fn='joint_ball', cost=2,
                          args=dict(a, draws=20000 if tier == 'quick' else
                                    120000)))
        else:
          out.append(dict(name='joint-' + tag, fn='joint', cost=2, args=dict(
              a, draws=20000 if tier == 'quick' else 120000)))
    from_models = ['bernoulli2d', 'categorical', 'ising', 'potts', 'fhmm',
                   'fhmm_categ', 'rbm', 'rbm_categ', 'maxcut', 'mis',
                   'maxclique', 'normcut_quad', 'normcut_span']
    for m in from_models:
      out.append(dict(name='model-%s-%d' % (m, k), fn='energies',
                      args=dict(name=m, seed=seed * 13 + k)))
    out.append(dict(name='rbmgibbs-%d' % k, fn='rbm_gibbs',
                    args=dict(seed=seed * 13 + k)))
    out.append(dict(name='model-resnet-%d' % k, fn='resnet',
                    args=dict(seed=seed * 13 + k)))
  return out


def _setup(sampler, opts, c, seed):
  import jax.numpy as jnp
  from vmon import smp, table
  shape = (2, 2) if c == 2 else (3,)
  s = smp.build(sampler, shape, c, **opts)
  model = table.TableModel(shape, c)
  tab = smp.random_table(seed, model.n, c, 1.0)
  return s, model, tab, {'table': jnp.array(tab, jnp.float32)}


def isolation(rec, sampler, opts, c, seed):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import smp
  s, model, tab, params = _setup(sampler, opts, c, seed)
  rs = np.random.RandomState(seed)
  step = jax.jit(lambda k, x, st: s.step(model, k, x, params, dict(st))[0])
  for warm in (1, 20, 33, 200):
    st, _ = smp.warm_state(s, model, tab, warm, seed=seed)
    for batch in (2, 3, 8):
      for r in range(9):
        key = jax.random.PRNGKey(rs.randint(1 << 30))
        x = rs.randint(0, c, size=(batch,) + model.shape).astype(np.int32)
        i = rs.randint(batch)
        z = rs.randint(0, c, size=x.shape).astype(np.int32)
        z[i] = x[i]
        if r % 3 == 0:     # all neighbours equal to the observed chain
          z[:] = x[i]
        a = np.asarray(step(key, jnp.array(x), st))
        b = np.asarray(step(key, jnp.array(z), st))
        rec.event(batch)
        rec.seen(sampler, opts, c, batch, warm, x.tolist(), a[i].tolist())
        if not rec.check((a[i] == b[i]).all(), 'influence',
                         'chain %d of %d at %s moves to %s among %s but to %s '
                         'among %s (same randomness)' % (
                             i, batch, x[i].tolist(), a[i].tolist(),
                             x.tolist(), b[i].tolist(), z.tolist())):
          return


def joint(rec, sampler, opts, c, seed, draws):
  """Two chains from the same state: next states independent."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from scipy import stats as st_
  from vmon import smp, stats, table
  s, model, tab, params = _setup(sampler, opts, c, seed)
  st, _ = smp.warm_state(s, model, tab * 0.3, 25, seed=seed)
  rs = np.random.RandomState(seed)
  params = {'table': params['table'] * 0.3}
  batch = 4
  f = jax.jit(jax.vmap(lambda k, x: s.step(model, k, x, params, dict(st))[0],
                       in_axes=(0, None)))
  worst = 1.0
  for r in range(2):
    x0 = rs.randint(0, c, size=model.shape).astype(np.int32)
    x = np.stack([x0] * batch)
    keys = jax.random.split(jax.random.PRNGKey(rs.randint(1 << 30)), draws)
    y = np.asarray(f(keys, jnp.array(x))).reshape(draws, batch, -1)
    idx = table.state_index(y, c)
    for a, b in [(0, 1), (1, 2), (0, 3), (2, 3)]:
      T = np.zeros((c ** model.n,) * 2)
      np.add.at(T, (idx[:, a], idx[:, b]), 1)
      rec.event(draws)
      for i, j in zip(*np.nonzero(T)):
        rec.seen(sampler, opts, c, x0.tolist(), i, j)
      T = _merge(_merge(T, draws).T, draws).T
      if min(T.shape) < 2:
        rec.doubt('chain did not move')
        continue
      p = st_.chi2_contingency(T, correction=False)[1]
      worst = min(worst, p)
      rec.check(p >= stats.P_MIN, 'copied',
                'next states of chains %d and %d from %s are dependent '
                '(p=%.1e)' % (a, b, x0.tolist(), p))
  rec.sample(worst_p=worst)


def joint_ball(rec, sampler, opts, c, seed, draws):
  """Hamming ball: chains independent, at most given a shared radius."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import smp, stats, table
  s, model, tab, _ = _setup(sampler, opts, c, seed)
  tab = tab * 0.3
  params = {'table': jnp.array(tab, jnp.float32)}
  st = s.make_init_state(jax.random.PRNGKey(0))
  states = table.all_states(model.n, c)
  bs = opts['block_size']

  def ball(u):
    out = [u]
    for j in range(bs):
      for v in range(c):
        if v != u[j]:
          y = u.copy()
          y[j] = v
          out.append(y)
    return out

  def draw(u):
    idx = table.state_index(np.array(ball(u)), c)
    w = np.exp(tab[idx] - tab[idx].max())
    p = np.zeros(len(states))
    p[idx] = w / w.sum()
    return p

  f = jax.jit(jax.vmap(lambda k, x: s.step(model, k, x, params, dict(st))[0],
                       in_axes=(0, None)))
  rs = np.random.RandomState(seed)
  for r in range(2):
    x0 = rs.randint(0, c, size=model.n).astype(np.int32)
    x = np.stack([x0.reshape(model.shape)] * 4)
    keys = jax.random.split(jax.random.PRNGKey(rs.randint(1 << 30)), draws)
    y = np.asarray(f(keys, jnp.array(x))).reshape(draws, 4, -1)
    idx = table.state_index(y, c)
    shell = ball(x0)[1:]
    k0 = draw(x0)
    k1 = np.mean([draw(u) for u in shell], 0)
    p0 = 1.0 / (1 + len(shell))
    one = p0 * k0 + (1 - p0) * k1
    shared = p0 * np.outer(k0, k0) + (1 - p0) * np.outer(k1, k1)
    for a, b in [(0, 1), (1, 2), (0, 3), (2, 3)]:
      T = np.zeros((len(states),) * 2)
      np.add.at(T, (idx[:, a], idx[:, b]), 1)
      rec.event(draws)
      for i, j in zip(*np.nonzero(T)):
        rec.seen(sampler, opts, c, x0.tolist(), i, j)
      p = max(stats.gof(T.ravel(), shared.ravel()),
              stats.gof(T.ravel(), np.outer(one, one).ravel()))
      rec.sample(p=p)
      rec.check(p >= stats.P_MIN, 'copied', 'next states of chains %d and %d '
                'from %s are dependent (p=%.1e)' % (a, b, x0.tolist(), p))


def _merge(T, draws):
  """Keeps rows frequent enough for a chi-square, merges the others."""
  import numpy as np
  big = T.sum(1) >= draws * 0.04
  rest = T[~big].sum(0, keepdims=True)
  T = T[big]
  if rest.sum() >= draws * 0.04:
    T = np.concatenate([T, rest])
  elif rest.sum() and len(T):
    T[0] += rest[0]
  return T


def energies(rec, name, seed):
  """The energy and gradient of a state do not depend on its neighbours."""
  import jax.numpy as jnp
  import numpy as np
  from vmon import small
  m = small.small(name, seed)
  rs = np.random.RandomState(seed)
  _rows(rec, name, m['model'], m['params'], m['states'], rs, m['c'])


def _rows(rec, name, model, params, states, rs, c):
  import jax
  import jax.numpy as jnp
  import numpy as np
  enc = ((lambda v: jnp.array(v, jnp.float32)) if c == 2 else
         (lambda v: jax.nn.one_hot(v, c, dtype=jnp.float32)))
  for r in range(6):
    pick = rs.randint(0, len(states), size=6)
    x = states[pick]
    whole = np.asarray(model.forward(params, enc(x)), np.float64)
    ll, grad = model.get_value_and_grad(params, enc(x))
    ll, grad = np.asarray(ll, np.float64), np.asarray(grad, np.float64)
    scale = np.abs(whole).max() + 1
    for i in range(6):
      one = float(np.asarray(model.forward(params, enc(x[i:i + 1]))).ravel()[0])
      l1, g1 = model.get_value_and_grad(params, enc(x[i:i + 1]))
      l1 = float(np.asarray(l1).ravel()[0])
      rec.event(1)
      rec.seen(name, pick[i], pick.tolist())
      ok = (abs(one - whole[i]) < 3e-4 * scale and abs(l1 - ll[i]) < 3e-4 *
            scale and np.abs(np.asarray(g1)[0] - grad[i]).max() < 3e-4 * (
                np.abs(grad).max() + 1))
      if not rec.check(ok, 'row-energy',
                       '%s: state %s alone has energy %.6g (with gradient '
                       '%.6g), inside a batch %.6g (%.6g)' % (
                           name, x[i].tolist(), one, l1, whole[i], ll[i])):
        return


def resnet(rec, seed):
  import jax
  import numpy as np
  from vmon import mdl
  model, _ = mdl.resnet(4, 4, None)
  params = mdl.randomize(model.make_init_params(jax.random.PRNGKey(seed)),
                         seed, 0.3)
  rs = np.random.RandomState(seed)
  states = rs.randint(0, 2, size=(32, 16)).astype(np.int32)
  _rows(rec, 'resnet', model, params, states, rs, 2)


def rbm_gibbs(rec, seed):
  """The training-time RBM sweep treats the chains of a batch separately."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from discs.samplers import blockgibbs
  from vmon import mdl
  model, _ = mdl.rbm(4, 3)
  params = mdl.randomize(model.make_init_params(jax.random.PRNGKey(seed)), seed)
  s = blockgibbs.RBMBlockGibbsSampler(None)
  rs = np.random.RandomState(seed)
  same = 0
  for r in range(60):
    x = rs.randint(0, 2, size=(3, 4)).astype(np.float32)
    i = rs.randint(3)
    z = rs.randint(0, 2, size=(3, 4)).astype(np.float32)
    z[i] = x[i]
    key = jax.random.PRNGKey(rs.randint(1 << 30))
    a = np.asarray(s.step(model, key, jnp.array(x), params, None)[0])
    b = np.asarray(s.step(model, key, jnp.array(z), params, None)[0])
    rec.seen('rbm', x.tolist(), a.tolist())
    if not rec.check((a[i] == b[i]).all(), 'influence',
                     'RBM chain %d depends on the others' % i):
      return
    c = np.asarray(s.step(model, key, jnp.array(x[[i, i, i]]), params, None)[0])
    same += int((c[0] == c[1]).all())
  rec.check(same < 45, 'copied', 'equal RBM chains moved identically %d/60 '
            'times' % same)
