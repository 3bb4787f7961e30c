"""C03: chains on every model end up distributed as the model says."""

RULE = ('one evaluation = one chain of a real sampler on a real model, run to '
        'the end and counted in the final histogram; distinct = (sampler, '
        'model, options, final state) observed')
ASSUMPTIONS = [
    'models have <= 81 states; the exact distribution is enumerated in '
    'float64 from the definition of the model',
    'histograms of independent batches are compared after hundreds of steps; '
    'a total-variation bias below about 0.03 is not reported']

SAMPLERS = ['gibbs', 'blockgibbs', 'hammingball', 'randomwalk', 'gwg',
            'path_auxiliary', 'dlmc', 'dmala']


def cases(tier, seed):
  import itertools
  from_models = ['bernoulli', 'bernoulli2d', 'categorical', 'ising', 'potts',
                 'fhmm', 'fhmm_categ', 'rbm', 'rbm_categ', 'maxcut', 'mis',
                 'maxclique', 'normcut_quad', 'normcut_span']
  out = []
  def add(s, m, opts, k, steps=None):
    name = '%s-%s-%s-%d' % (s, m, '_'.join(
        '%s%s' % kv for kv in sorted(opts.items())), k)
    steps = steps or {'randomwalk': 400}.get(s, 250)
    cost = {'hammingball': 6, 'path_auxiliary': 3, 'blockgibbs': 2}.get(s, 1)
    out.append(dict(name=name, fn='converge', cost=cost,
                    args=dict(sampler=s, model=m, opts=opts,
                              seed=seed * 7 + k, steps=steps,
                              chains=4096 if tier == 'quick' else 16384)))
  for k in range(1 if tier == 'quick' else 3):
    for s, m in itertools.product(SAMPLERS, from_models):
      opts = {}
      if s in ('blockgibbs', 'hammingball'):
        opts = dict(block_size=2)
      add(s, m, opts, k)
    for s in ('randomwalk', 'gwg', 'path_auxiliary', 'dlmc', 'dmala'):
      for m in ('ising', 'potts', 'maxcut', 'rbm_categ'):
        opts = dict(adaptive=False)
        if s == 'dmala':
          opts['step_size'] = 1.0
        add(s, m, opts, k)
    for m in ('maxcut', 'mis', 'normcut_quad', 'bernoulli'):
      add('path_auxiliary', m, dict(approx_with_grad=False), k)
  return out


def converge(rec, sampler, model, opts, seed, steps, chains):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import small, smp, stats, table
  sm = small.small(model, seed, temperature=2.5)
  pi = smp.softmax(sm['logp'])
  S = len(pi)
  s = smp.build(sampler, sm['shape'], sm['c'], **opts)
  batch = 64
  groups = chains // batch
  if sampler == 'hammingball':
    batch, groups = 4, chains // 8
  st = s.make_init_state(jax.random.PRNGKey(seed))
  worst = int(np.argmin(pi))
  best = int(np.argmax(pi))
  # half the chains start from the least, half from the most likely state
  start = np.where(np.arange(groups * batch) % 2, worst, best)
  x = jnp.array(sm['states'][start].reshape((groups, batch) + sm['shape']))
  st = jax.tree_util.tree_map(
      lambda a: jnp.stack([jnp.asarray(a)] * groups), st)
  m, p = sm['model'], sm['params']

  def one(k, x, st):
    y, new, _ = s.step(m, k, x, p, st)
    return y, new

  # the tuning state's structure after a step (first step may add entries)
  keys = jax.random.split(jax.random.PRNGKey(seed + 1), groups)
  vstep = jax.jit(jax.vmap(one))
  x, st = vstep(keys, x, st)
  shapes = jax.tree_util.tree_map(lambda a: (a.shape, a.dtype), st)

  @jax.jit
  def run(x, st):
    def body(t, val):
      x, st = val
      k = jax.vmap(lambda g: jax.random.fold_in(jax.random.fold_in(
          jax.random.PRNGKey(seed + 2), t), g))(jnp.arange(groups))
      y, new = jax.vmap(one)(k, x, st)
      new = {kk: new[kk].astype(st[kk].dtype) for kk in st}
      return y.astype(x.dtype), new
    return jax.lax.fori_loop(1, steps, body, (x, st))

  x, st = run(x, st)
  del shapes
  y = np.asarray(x).reshape((-1, sm['n']))
  rec.check(((y >= 0) & (y < sm['c'])).all(), 'domain', 'left the domain')
  h = np.bincount(table.state_index(y, sm['c']), minlength=S).astype(float)
  n = h.sum()
  rec.event(n)
  for j in np.nonzero(h)[0]:
    rec.seen(sampler, model, opts, j)
  emp = h / n
  tv = 0.5 * np.abs(emp - pi).sum()
  # expected total variation from sampling noise alone, plus six sigma
  noise = 0.5 * np.sqrt(2 / np.pi) * np.sqrt(pi * (1 - pi) / n).sum()
  sd = 0.5 * np.sqrt((pi * (1 - pi) / n).sum())
  corr = 2.0 if sampler == 'hammingball' else 1.0
  limit = corr * (noise + 6 * sd) + 0.015
  rec.sample(tv=float(tv), limit=float(limit), exact=pi[:8], observed=emp[:8])
  rec.check(tv <= limit, 'distribution',
            '%s on %s: after %d steps the chains are not distributed as the '
            'model (total variation %.3f, allowed %.3f)'
            % (sampler, model, steps, tv, limit),
            exact=pi, observed=emp)
  if model == 'mis' or model.startswith('max') or model.startswith('norm'):
    rec.counters['co_chains'] = rec.counters.get('co_chains', 0) + int(n)
