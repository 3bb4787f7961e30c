"""C19: running on several devices changes neither chains nor reports."""

RULE = ('one evaluation = one reported number or sampler step of a real run '
        'on 2 to 8 devices, judged by the oracles of the single-device '
        'experiments; distinct = (experiment, devices, layout, states)')
ASSUMPTIONS = [
    'devices are the XLA CPU devices of one host (2, 4 or 8); accelerators and '
    'several hosts are not available here',
    'experiments and their bounds as for C15, C16 and C17']


def cases(tier, seed):
  out = []
  reps = 1 if tier == 'quick' else 5
  for k in range(reps):
    for d in (2, 4, 8):
      # more instances than devices, fewer, and exactly as many
      for j, (models, batch) in enumerate(((d, 3), (2 * d, 1), (1, d),
                                           (d - 1, 2 * d))):
        kind = ['er', 'ertest', 'rb', 'ba'][(j + d + k) % 4]
        if models > 8:
          continue
        out.append(dict(name='co-%s-%dx%d-on-%d-%d' % (
            kind, models, batch, d, k), fn='co', devices=d, args=dict(
                kind=kind, models=models, batch=batch, pick=j + d + k,
                seed=seed * 101 + 10 * k + j)))
      for j, m in enumerate(('bernoulli', 'ising', 'potts', 'rbm')):
        out.append(dict(name='classical-%s-on-%d-%d' % (m, d, k),
                        fn='classical', devices=d, args=dict(
                            model=m, batch=d * (1 + j % 3), pick=3 * j + d + k,
                            seed=seed * 103 + 10 * k + j)))
      for j in range(2):
        out.append(dict(name='ais-%d-on-%d-%d' % (j, d, k), fn='ais',
                        devices=d, args=dict(pick=(j + 3 * k + d) % 8,
                                             batch=d * (1 + 2 * j),
                                             seed=seed * 107 + k * 10 + j)))
    out.append(dict(name='normcut-on-4-%d' % k, fn='co', devices=4, args=dict(
        kind='gap_rand', models=2, batch=4, pick=k, seed=seed * 109 + k)))
    out.append(dict(name='off-%d' % k, fn='off', devices=4, args=dict(
        seed=seed * 113 + k)))
    for d in (2, 8):
      out.append(dict(name='state-on-%d-%d' % (d, k), fn='state', devices=d,
                      args=dict(seed=seed * 127 + k)))
  return out


def _devices(rec, groups):
  import jax
  d = jax.local_device_count()
  rec.check(groups % d == 0 and groups > 0, 'layout', '%d groups of chains on '
            '%d devices' % (groups, d))


def co(rec, kind, models, batch, pick, seed):
  from checks import c15
  import jax
  import numpy as np
  rs = np.random.RandomState(seed)
  d = jax.local_device_count()
  rec.seen('layout', 'co', kind, d, models, batch)
  c15.run(rec, kind, pick, seed, models=models, batch=batch,
          count=int(rs.randint(1, 2 * models + 1)),
          length=int(rs.choice([6, 11])), metrics=bool(rs.rand() < 0.5))


def classical(rec, model, batch, pick, seed):
  from checks import c16
  import jax
  rec.seen('layout', 'classical', model, jax.local_device_count(), batch)
  c16.run(rec, model, pick, seed, batch=batch, length=24)


def ais(rec, pick, batch, seed):
  from checks import c17
  from vmon import exp
  import jax
  rec.seen('layout', 'ais', jax.local_device_count(), batch)
  cfg, p = c17.setup(pick, seed, 3, batch, 8)
  trace, files = exp.run(cfg)
  _devices(rec, len({s['tag'] for s in trace.steps}))
  c17.judge(rec, cfg, p, 3, trace, files)


def off(rec, seed):
  """run_parallel=False keeps to one device."""
  from checks import c15, c16
  c15.run(rec, 'er', 0, seed, models=3, batch=2, length=6, parallel=False)
  c16.run(rec, 'ising', 5, seed, batch=3, length=12, parallel=False)


def state(rec, seed):
  """Chains dealt out to the devices: none lost, none shared."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from discs.common import utils
  from vmon import exp, mdl
  d = jax.local_device_count()
  rs = np.random.RandomState(seed)
  for r in range(4):
    n = d * rs.randint(1, 5)
    model, cfg = mdl.classical('bernoulli', shape=(8,))
    exp.sampler_conf(cfg, 'gibbs')
    s = exp.module('samplers', 'gibbs').build_sampler(cfg)
    key = jax.random.PRNGKey(seed + r)
    calls = []
    class M:
      def get_init_samples(self, rng, num_samples):
        out = model.get_init_samples(rng, num_samples)
        calls.append(np.array(out))
        return out
    st = utils.create_sharded_sampler_state(key, M(), s, n)
    x = np.asarray(st.samples)
    rec.event(n)
    rec.seen('shard', d, n, x.tolist())
    rec.check(x.shape[:2] == (d, n // d) and len(calls) == 1 and np.array_equal(
        x.reshape(calls[0].shape), calls[0]), 'shard', '%d initial samples on '
              '%d devices come out with shape %s' % (n, d, x.shape))
    rec.check(np.asarray(st.step).tolist() == [0] * d, 'shard', 'step counters '
              '%s' % st.step)
    init = s.make_init_state(jax.random.PRNGKey(0))
    for k, v in st.sampler_state.items():
      rec.check(np.shape(v) == (d,) + np.shape(init[k]), 'shard', 'sampler '
                'state %s has shape %s on %d devices' % (k, np.shape(v), d))
    tree = {'a': jnp.arange(n * 3).reshape(n, 3), 'b': (jnp.arange(n),)}
    sh = utils.shard_to_local_devices(tree)
    rec.check(np.array_equal(np.asarray(sh['a']).reshape(n, 3), tree['a']) and
              sh['a'].shape == (d, n // d, 3) and
              sh['b'][0].shape == (d, n // d), 'shard', 'tree of %d rows '
              'sharded wrongly' % n)
    keys = np.asarray(utils.shard_prng_key(key))
    rec.check(len({k.tobytes() for k in keys}) == d == len(keys), 'randomness',
              'devices share random keys %s' % keys.tolist())
    g = np.asarray(utils.all_gather(sh['b'][0]))
    rec.check(g.shape == (d, n) and all(np.array_equal(v, np.arange(n))
                                        for v in g), 'gather', 'values '
              'gathered from %d devices: %s' % (d, g[:1]))
