"""Specs of the planted bugs (see plant.py)."""

# A self-contained helper put at the top of the demos that watch samplers.
KERNEL = '''
"""Counts real sampler transitions on a small Ising-like target."""
import importlib, itertools, sys
import jax, jax.numpy as jnp, numpy as np
from ml_collections import config_dict


class Pairwise:
  """Energy sum_i b_i[x_i] + sum_ij W_ij[x_i, x_j] over n variables."""

  def __init__(self, n, c, seed=0, scale=1.0):
    rs = np.random.RandomState(seed)
    self.n, self.c = n, c
    self.b = jnp.array(rs.randn(n, c) * scale, jnp.float32)
    w = rs.randn(n, c, n, c) * scale * 0.7
    for i in range(n):
      for j in range(i + 1):
        w[i, :, j, :] = 0
    self.w = jnp.array(w, jnp.float32)

  def _probs(self, x):
    if x.ndim == 3:
      return x.astype(jnp.float32)
    if self.c == 2:
      x = x.astype(jnp.float32)
      return jnp.stack([1 - x, x], -1)
    return jax.nn.one_hot(x, self.c)

  def forward(self, params, x):
    p = self._probs(x)
    return (jnp.einsum('bic,ic->b', p, self.b) +
            jnp.einsum('bic,icjd,bjd->b', p, self.w, p))

  def get_value_and_grad(self, params, x):
    x = x.astype(jnp.float32)
    f = lambda z: (jnp.sum(self.forward(params, z)), self.forward(params, z))
    (_, ll), g = jax.value_and_grad(f, has_aux=True)(x)
    return ll, g

  def states(self):
    return np.array(list(itertools.product(range(self.c), repeat=self.n)), np.int32)


def build(name, n, c, **opts):
  conf = importlib.import_module('discs.samplers.configs.%s_config' % name).get_config()
  cfg = config_dict.ConfigDict(dict(model=dict(shape=(n,), num_categories=c),
                                    sampler=conf.to_dict(),
                                    experiment=dict(co_opt_prob=False)))
  for k, v in opts.items():
    cfg.sampler[k] = v
  return importlib.import_module('discs.samplers.' + name).build_sampler(cfg)


def index(y, c):
  n = y.shape[-1]
  return (np.asarray(y).astype(np.int64) * np.array([c ** (n - 1 - i) for i in range(n)])).sum(-1)


def warm(s, m, steps, batch=16):
  st = s.make_init_state(jax.random.PRNGKey(0))
  x = jax.random.randint(jax.random.PRNGKey(5), (batch, m.n), 0, m.c)
  step = jax.jit(lambda k, x, st: s.step(m, k, x, None, st)[:2])
  for t in range(steps):
    x, st = step(jax.random.fold_in(jax.random.PRNGKey(9), t), x, st)
  return st, x


def counts(s, m, st, per, batch=1, seed=1, same=True):
  """M[i, j]: transitions seen from state i (whole batch) to state j."""
  xs = m.states()
  S = len(xs)
  f = jax.jit(jax.vmap(lambda k, x: s.step(m, k, x, None, dict(st))[0]))
  M = np.zeros((S, S))
  for i in range(S):
    keys = jax.random.split(jax.random.PRNGKey(seed * 1000 + i), per // batch)
    X = jnp.array(np.tile(xs[i], (per // batch, batch, 1)))
    Y = np.asarray(f(keys, X)).reshape(-1, m.n)
    M[i] = np.bincount(index(Y, m.c), minlength=S)
  return M


def unbalance(M, pi):
  """Largest z-score of the difference of opposite flows."""
  P = M / M.sum(1, keepdims=True)
  F = pi[:, None] * P
  V = pi[:, None] ** 2 * P * (1 - P) / M.sum(1, keepdims=True)
  D = np.abs(F - F.T)
  return (D / np.sqrt(V + V.T + (pi[:, None] / M.sum(1, keepdims=True)) ** 2 / 4 + 1e-12)).max()


def target(m):
  e = np.asarray(m.forward(None, jnp.array(m.states())), np.float64)
  e = np.exp(e - e.max())
  return e / e.sum()
'''

SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
  SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs,
                    breaks=breaks))


add('dlmc-recalibrate', 'C02', [('discs/samplers/dlmc.py',
"""      log_tau = jnp.where(
          state['steps'] == 0, local_stats['log_tau'], state['log_tau']
      )

""", """      recalibrate = state['steps'] == 0
      if self.reset_z_est > 0:
        recalibrate = state['steps'] % self.reset_z_est == 0
      log_tau = jnp.where(
          recalibrate, local_stats['log_tau'], state['log_tau']
      )

""")], KERNEL + '''
m = Pairwise(3, 2, seed=3)
s = build('dlmc', 3, 2, reset_z_est=20)
st, _ = warm(s, m, 40)
z = unbalance(counts(s, m, st, 30000), target(m))
print('worst imbalance after 40 tuning steps z=%.1f' % z)
sys.exit(int(z > 8))
''', 'a step whose number is a multiple of the re-estimation period (20 by default), beyond the first',
'the step size of that step is computed from the current states but not recomputed for the reverse move, so DLMC is not reversible in those steps')

add('blockgibbs-short-scan', 'C01', [('discs/samplers/blockgibbs.py',
"""    sampler_state['index'] = (sampler_state['index'] + self.block_size) % dim
""", """    dim = dim - dim % self.block_size if dim > self.block_size else dim
    sampler_state['index'] = (sampler_state['index'] + self.block_size) % dim
""")], KERNEL + '''
m = Pairwise(5, 2, seed=1, scale=0.3)
s = build('blockgibbs', 5, 2, block_size=2)
st = s.make_init_state(jax.random.PRNGKey(0))
x = jnp.zeros((64, 5), jnp.int32)
seen = np.zeros(5, bool)
for t in range(30):
  y, st, _ = s.step(m, jax.random.PRNGKey(t), x, None, st)
  seen |= (np.asarray(y) != np.asarray(x)).any(0)
  x = y
print('variables ever resampled:', seen)
sys.exit(not seen.all())
''', 'a number of variables that is not a multiple of the block size',
'the variables after the last full block are never resampled')

add('gibbs-ll-count', 'C06', [('discs/samplers/gibbs.py',
"""    sampler_state['num_ll_calls'] += self.num_categories
""", """    # the current energy is known already: only the other values cost
    sampler_state['num_ll_calls'] += max(2, self.num_categories - 1)
""")], KERNEL + '''
bad = 0
for c in (2, 3, 4):
  m = Pairwise(3, c, seed=1)
  s = build('gibbs', 3, c)
  st = s.make_init_state(jax.random.PRNGKey(0))
  x = jnp.zeros((4, 3), jnp.int32)
  for t in range(3):
    x, st, _ = s.step(m, jax.random.PRNGKey(t), x, None, st)
  print(c, 'categories:', int(st['num_ll_calls']), 'evaluations reported,', 3 * c, 'made')
  bad |= int(st['num_ll_calls']) != 3 * c
sys.exit(bool(bad))
''', 'more than two categories', 'fewer likelihood evaluations are reported than the model received')

GRAPH = '''
import os, pickle, shutil, sys, tempfile, importlib
import jax, jax.numpy as jnp, numpy as np, networkx as nx
'''

add('normcut-lower-bound', 'C10', [('discs/models/normcut.py',
"""        lb_cost = jax.nn.relu(
            self.avg_partition_size - self.tolerance - partition_sizes) ** 2
""", """        lb_cost = jax.nn.relu(
            self.avg_partition_size - self.tolerance - partition_sizes)
""")], GRAPH + '''
from discs.models import normcut
m = normcut.NormCut.__new__(normcut.NormCut)
m.penalty, m.num_nodes, m.num_categories = 1.0, 12, 3
m.avg_partition_size, m.tolerance, m.stype, m.eps = 4.0, 0.5, 'span', 1e-8
p = dict(edge_from=jnp.array([0]), edge_to=jnp.array([1]), temperature=1.0)
x = jnp.array([[0] * 10 + [1, 2]])
got = float(m.forward(p, x)[0])
want = -((10 - 4.5) ** 2 + 2 * (3.5 - 1) ** 2)
print('energy', got, 'definition', want)
sys.exit(abs(got - want) > 1e-3)
''', 'the span balance penalty and a partition more than one node (and not exactly one) below the tolerated size',
'the penalty of too small partitions grows linearly instead of quadratically')

add('maxcut-neighbour-energy', 'C12', [('discs/models/maxcut.py',
"""    cut_weight = (
        jnp.sum(is_cut * edge_weights, axis=1) / 2.0 / params['temperature']
    )
""", """    cut_weight = jnp.sum(is_cut * edge_weights, axis=1) / 2.0
""")], GRAPH + '''
from discs.models import maxcut
m = maxcut.Maxcut.__new__(maxcut.Maxcut)
p = dict(edge_from=jnp.array([0, 1]), edge_to=jnp.array([1, 2]), edge_weight=jnp.array([1., 2.]),
         bidir_edge_from=jnp.array([0, 1, 1, 2]), bidir_edge_to=jnp.array([1, 2, 0, 1]),
         bidir_edge_weight=jnp.array([1., 2., 1., 2.]), temperature=0.25)
x = jnp.array([[0, 1, 1], [0, 1, 0]])
a = np.asarray(m.forward(p, x)); b = np.asarray(m.logratio_in_neighborhood(p, x)[0])
print('energy', a, 'reported with the neighbourhood', b)
sys.exit(bool(np.abs(a - b).max() > 1e-3))
''', 'a temperature other than one and exact neighbourhood evaluation',
'the energy returned with the neighbourhood ratios ignores the temperature, so acceptance mixes temperatures')

add('loader-local-index', 'C14', [('discs/graph_loader/common.py',
"""        buffer.append((idx, self.graph2edges(g), sol))
""", """        buffer.append((idx // num_proc, self.graph2edges(g), sol))
""")], GRAPH + '''
from discs.graph_loader import common
class Gen(common.GraphGenerator):
  def __init__(self):
    super().__init__()
    self._num_instances = 6
  def sample_gen(self, phase, repeat=False):
    for i in range(6):
      yield 'g%d' % i, i
  def graph2edges(self, g):
    return g
  def get_dummy_sample(self):
    return 'dummy', 1
seen = {}
jax.process_count = lambda: 2
for p in range(2):
  jax.process_index = lambda p=p: p
  for batch in Gen().get_iterator('test', 2, sharding=True):
    for idx, g, _ in batch:
      seen.setdefault(idx, []).append(g)
print(seen)
sys.exit(sorted(seen) != list(range(6)) or any(len(v) > 1 for v in seen.values()))
''', 'loading with several processes', 'instances of different processes get the same index')

add('rbm-softplus', 'C09', [('discs/models/rbm.py',
"""    sp = jnp.sum(jax.nn.softplus(v @ self.w + self.b_h), axis=-1)
""", """    sp = jnp.sum(jnp.log1p(jnp.exp(v @ self.w + self.b_h)), axis=-1)
""")], GRAPH + '''
from ml_collections import config_dict
from discs.models import rbm
cfg = config_dict.ConfigDict(dict(model=dict(name='rbm', num_visible=6, num_hidden=4, num_categories=2, shape=(6,), data_path='')))
m = rbm.build_model(cfg)
p = dict(w=jnp.ones((6, 4)) * 20., b_h=jnp.zeros(4), b_v=jnp.zeros(6))
x = jnp.array([[1, 1, 1, 1, 1, 1], [1, 0, 0, 0, 0, 0]])
got = np.asarray(m.forward(p, x))
print('energies', got, 'expected', [480.0, 80.0])
sys.exit(not np.allclose(got, [480.0, 80.0], rtol=1e-3))
''', 'a hidden unit with an input above about 88', 'the energy overflows to infinity')

add('multinomial-chunk', 'C13', [('discs/common/math_util.py',
"""        mask = jnp.arange(batch_size, dtype=cnt.dtype) + cnt < num_samples
""", """        mask = jnp.arange(batch_size, dtype=cnt.dtype) + cnt <= num_samples
""")], GRAPH + '''
from discs.common import math_util
lp = jnp.log(jnp.ones((3, 5)) / 5)
bad = 0
for n in range(1, 8):
  sel = math_util.multinomial(jax.random.PRNGKey(n), lp, jnp.int32(n), replacement=True, is_nsample_const=False, batch_size=4)
  print(n, np.asarray(sel.sum(-1)) if not isinstance(sel, tuple) else sel)
  bad |= bool((np.asarray(sel).sum(-1) != n).any())
sys.exit(bool(bad))
''', 'drawing a number of items that is not a multiple of the chunk size, in chunks of more than one',
'one item too many is drawn')

add('pas-soft-mask', 'C08', [('discs/samplers/path_auxiliary.py',
"""      logits = logits * x_mask + -1e9 * (1 - x_mask)
    if self.num_categories != 2:
      logits = logits * (1 - x) + x * -1e9
""", """      logits = logits * x_mask + -1e1 * (1 - x_mask)
    if self.num_categories != 2:
      logits = logits * (1 - x) + x * -1e9
""")], KERNEL + '''
class Steep(Pairwise):
  def forward(self, params, x):
    return 30.0 * x.astype(jnp.float32).sum(-1)
m = Steep(6, 2)
s = build('path_auxiliary', 6, 2, adaptive=True)
mask = jnp.array([1., 1., 0., 1., 0., 0.])
st = s.make_init_state(jax.random.PRNGKey(0))
x = jnp.zeros((32, 6), jnp.int32)
step = jax.jit(lambda k, x, st: s.step(m, k, x, None, st, x_mask=mask)[:2])
for t in range(60):
  x, st = step(jax.random.PRNGKey(t), x, st)
f = np.asarray(x)[:, [2, 4, 5]]
print('masked variables changed in', int((f != 0).any(1).sum()), 'of 32 chains')
sys.exit(bool((f != 0).any()))
''', 'free variables sitting at values the model prefers by more than about 20 nats',
'masked-out variables are changed when all free ones are unlikely to move')

add('hammingball-shared-key', 'C04', [('discs/samplers/hammingball.py',
"""      return (next_key, x, indices_to_flip, model_param)
""", """      return (rng_key, x, indices_to_flip, model_param)
""")], KERNEL + '''
m = Pairwise(4, 2, seed=1, scale=0.2)
s = build('hammingball', 4, 2, block_size=2)
st = s.make_init_state(jax.random.PRNGKey(0))
x = jnp.zeros((2, 4), jnp.int32)
f = jax.jit(jax.vmap(lambda k: s.step(m, k, x, None, dict(st))[0]))
y = np.asarray(f(jax.random.split(jax.random.PRNGKey(3), 4000)))
same = (y[:, 0] == y[:, 1]).all(-1).mean()
print('two chains from the same state agree in %.3f of the steps' % same)
sys.exit(int(same > 0.5))
''', 'two chains of a batch in similar states', 'all chains of the batch use the same random draw')

add('dlmc-stale-normaliser', 'C07', [('discs/samplers/dlmc.py',
"""    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
    state['log_z'] = log_z
""", """    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
""")], KERNEL + '''
m = Pairwise(24, 2, seed=2, scale=0.5)
s = build('dlmc', 24, 2, target_acceptance_rate=0.6)
st, x = warm(s, m, 600, 16)
step = jax.jit(lambda k, x, st: s.step(m, k, x, None, st))
acc = []
for t in range(200):
  x, st, a = step(jax.random.PRNGKey(5000 + t), x, st)
  acc.append(float(a))
print('mean acceptance %.3f, target 0.6' % np.mean(acc))
sys.exit(int(abs(np.mean(acc) - 0.6) > 0.07))
''', 'a tuning run longer than the warm-up schedule (200 steps)', 'the normaliser of the step size is forgotten between re-estimations and the acceptance rate settles far from the target')

add('gibbs-first-axis', 'C03', [('discs/samplers/gibbs.py',
"""    dim = math.prod(self.sample_shape)
    sampler_state['index'] = (sampler_state['index'] + 1) % dim
""", """    dim = self.sample_shape[0]
    sampler_state['index'] = (sampler_state['index'] + 1) % dim
""")], KERNEL + '''
cfg = config_dict.ConfigDict(dict(
    model=dict(shape=(2, 2), num_categories=2, lambdaa=0.3, init_sigma=0.5, mu=0.2),
    sampler=dict(name='gibbs'), experiment=dict(co_opt_prob=False)))
from discs.models import ising
from discs.samplers import gibbs
m = ising.Ising(cfg.model)
s = gibbs.build_sampler(cfg)
p = m.make_init_params(jax.random.PRNGKey(0))
st = s.make_init_state(jax.random.PRNGKey(0))
x = jnp.zeros((64, 2, 2), jnp.int32)
step = jax.jit(lambda k, x, st: s.step(m, k, x, p, st)[:2])
seen = np.zeros((2, 2), bool)
for t in range(80):
  y, st = step(jax.random.PRNGKey(t), x, st)
  seen |= np.asarray(x != y).any(0)
  x = y
print('variables that ever changed', seen.tolist())
sys.exit(int(not seen.all()))
''', 'a model whose states have more than one axis (Ising, Potts, HMM)',
'only the variables of the first row are ever resampled, so chains never reach the model distribution')

add('ratio-overflow', 'C05', [('discs/samplers/locallybalanced.py',
"""      return jax.nn.log_sigmoid(logt)
""", """      return logt - jnp.log1p(jnp.exp(logt))
""")], KERNEL + '''
class Steep(Pairwise):
  def forward(self, params, x):
    return 100.0 * x.astype(jnp.float32).sum(-1)
m = Steep(4, 2)
s = build('gwg', 4, 2, balancing_fn_type='RATIO')
st = s.make_init_state(jax.random.PRNGKey(0))
x = jnp.zeros((8, 4), jnp.int32)
step = jax.jit(lambda k, x, st: s.step(m, k, x, None, st))
bad = 0
for t in range(10):
  x, st, a = step(jax.random.PRNGKey(t), x, st)
  bad += not np.isfinite(float(a))
print('non-finite acceptance rates in', bad, 'of 10 steps')
sys.exit(int(bad > 0))
''', 'the ratio balancing function and a move that gains more than 88 nats',
'the acceptance rate becomes NaN and the chain never takes the move')

add('ising-shared-gradient', 'C11', [('discs/models/ising.py',
"""    return loglikelihood, grad


def build_model(config):
""", """    return loglikelihood, jnp.where(jnp.isclose(grad, 0.0, atol=0.05), 0.0, grad)


def build_model(config):
""")], KERNEL + '''
from discs.models import ising
m = ising.Ising(config_dict.ConfigDict(dict(shape=(3, 3), num_categories=2, lambdaa=0.0, init_sigma=0.04, mu=0.0)))
p = m.make_init_params(jax.random.PRNGKey(0))
x = jax.random.bernoulli(jax.random.PRNGKey(1), shape=(4, 3, 3)).astype(jnp.int32)
_, g = m.get_value_and_grad(p, x)
want = jax.grad(lambda z: m.forward(p, z).sum())(x.astype(jnp.float32))
d = float(jnp.abs(g - want).max())
print('gradient differs by', d)
sys.exit(int(d > 1e-3))
''', 'a site whose local field is smaller than 0.05', 'weak gradients are reported as zero')

EXPERIMENT = GRAPH + '''
from ml_collections import config_dict
from discs.common import configs as common_configs, experiment_saver
from discs.experiment import sampling


class Watch:
  """Real sampler; records what every step was given and returned."""

  def __init__(self, inner):
    self.inner, self.log = inner, []

  def make_init_state(self, rng):
    return self.inner.make_init_state(rng)

  def step(self, model, rng, x, model_param, state, x_mask=None):
    y, st, acc = self.inner.step(model, rng, x, model_param, state, x_mask)
    t = model_param.get('temperature', 0.0) if hasattr(model_param, 'get') else 0.0
    jax.debug.callback(lambda *a: self.log.append([np.array(v) for v in a]), rng, x, y, jnp.asarray(t), acc)
    return y, st, acc


def config(**exp):
  cfg = common_configs.get_config()
  with cfg.unlocked():
    cfg.update(config_dict.ConfigDict(dict(experiment=exp)))
  return cfg
'''

add('ess-previous-state', 'C16', [('discs/experiment/sampling.py',
"""      mapped_sample = get_mapped_samples(new_x, x0_ess)
""", """      mapped_sample = get_mapped_samples(x, x0_ess)
""")], EXPERIMENT + '''
from discs.models import bernoulli
from discs.samplers import randomwalk
d = tempfile.mkdtemp()
try:
  cfg = config(batch_size=2, chain_length=8, ess_ratio=0.5, save_root=d, run_parallel=False,
               evaluator='ess_eval', num_models=1, save_samples=False, get_additional_metrics=False)
  with cfg.unlocked():
    cfg.model = config_dict.ConfigDict(dict(name='bernoulli', shape=(6,), num_categories=2, init_sigma=0.1))
    cfg.sampler = config_dict.ConfigDict(dict(name='randomwalk', adaptive=False, target_acceptance_rate=0.5))
  m = bernoulli.build_model(cfg)
  refs = []
  real = m.get_init_samples
  m.get_init_samples = lambda r, n: refs.append(real(r, n)) or refs[-1]
  s = Watch(randomwalk.build_sampler(cfg))
  got = []
  class Ev:
    def evaluate(self, samples, rnd):
      jax.debug.callback(lambda a: got.append(np.array(a)), samples)
      return jnp.zeros(2)
    def get_eval_metrics(self, a, b, c):
      return (a, a, a, a)
  sampling.Sampling_Experiment(cfg).get_results(m, s, Ev(), experiment_saver.build_saver(cfg))
  jax.effects_barrier()
  ref = np.asarray(refs[-1])
  want = np.array([np.abs(l[2] - ref).sum(-1) for l in s.log[4:]])
  print('evaluated', got[0].tolist(), 'distances of the second half', want.tolist())
  sys.exit(int(not np.allclose(got[0], want)))
finally:
  shutil.rmtree(d)
''', 'comparing the evaluated statistics with the recorded part of the chain',
'the effective sample size is that of the chain one step earlier, including the last burn-in state')

CO = EXPERIMENT + '''
from discs.evaluators import co_eval
from discs.models import maxcut
from discs.samplers import path_auxiliary


def run_co(d, **exp):
  """Two fixed graphs through the real experiment; returns (config, log, results)."""
  n = 6
  args = dict(batch_size=3, chain_length=12, ess_ratio=0.5, save_root=d, run_parallel=False,
              evaluator='co_eval', num_models=2, save_samples=True, get_additional_metrics=False,
              log_every_steps=1, t_schedule='exp_decay', init_temperature=1.0, decay_rate=0.1,
              final_temperature=1e-3, name='CO_Experiment')
  args.update(exp)
  cfg = config(**args)
  with cfg.unlocked():
    cfg.model = config_dict.ConfigDict(dict(name='maxcut', shape=(n,), num_categories=2))
    cfg.sampler = config_dict.ConfigDict(dict(name='path_auxiliary', num_flips=1, adaptive=False,
        target_acceptance_rate=0.5, use_fast_path=True, approx_with_grad=True, balancing_fn_type='SQRT'))
  def graph(seed):
    g = nx.gnm_random_graph(n, 9, seed=seed)
    rs = np.random.RandomState(seed)
    e = np.array(g.edges())
    w = rs.rand(len(e)).astype(np.float32)
    p = dict(num_edges=jnp.array([len(e)]), edge_from=jnp.array(e[:, 0]), edge_to=jnp.array(e[:, 1]),
             edge_weight=jnp.array(w), edge_mask=jnp.ones(len(e), jnp.int32), mask=jnp.ones(n, jnp.float32),
             bidir_edge_from=jnp.concatenate([e[:, 0], e[:, 1]]), bidir_edge_to=jnp.concatenate([e[:, 1], e[:, 0]]),
             bidir_edge_weight=jnp.concatenate([w, w]), temperature=jnp.float32(1))
    return p, e, w
  graphs = [graph(1), graph(2)]
  m = maxcut.Maxcut.__new__(maxcut.Maxcut)
  batches = [[(i, g[0], 1.0) for i, g in enumerate(graphs)]]
  m.make_init_params = lambda rng: batches.pop() if batches else None
  m.get_init_samples = lambda rng, k: jax.random.bernoulli(rng, shape=(k, n)).astype(jnp.int32)
  s = Watch(path_auxiliary.build_sampler(cfg))
  sampling.CO_Experiment(cfg).get_results(m, s, co_eval.build_evaluator(cfg), experiment_saver.build_saver(cfg))
  jax.effects_barrier()
  cut = lambda i, x: float((graphs[i][2] * (x[graphs[i][1][:, 0]] != x[graphs[i][1][:, 1]])).sum())
  with open(os.path.join(d, 'results.pkl'), 'rb') as f:
    return cfg, s.log, pickle.load(f), cut
'''

add('co-best-previous', 'C15', [('discs/experiment/sampling.py',
"""          step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
          rnew_x = jnp.reshape(
              self._group_by_model(new_x, bshape),
              (self.config.num_models, self.config.batch_size)
              + self.config_model.shape,
          )
          chosen_samples = jnp.take_along_axis(
              rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
          )
          chosen_samples = jnp.squeeze(chosen_samples, -2)
          best_samples = jnp.where(
              jnp.expand_dims(is_better, -1), chosen_samples, best_samples
          )

      if self.config.get_additional_metrics:
        # avg over all models
        acc = jnp.mean(acc)
        acc_ratios.append(acc)
        # hop avg over batch size and num models
        hops.append(get_hop(x, new_x))
      x = new_x

    if not (self.config""", """          step_chosen = jnp.argmin(eval_val, axis=-1, keepdims=True)
          rnew_x = jnp.reshape(
              self._group_by_model(new_x, bshape),
              (self.config.num_models, self.config.batch_size)
              + self.config_model.shape,
          )
          chosen_samples = jnp.take_along_axis(
              rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
          )
          chosen_samples = jnp.squeeze(chosen_samples, -2)
          best_samples = jnp.where(
              jnp.expand_dims(is_better, -1), chosen_samples, best_samples
          )

      if self.config.get_additional_metrics:
        # avg over all models
        acc = jnp.mean(acc)
        acc_ratios.append(acc)
        # hop avg over batch size and num models
        hops.append(get_hop(x, new_x))
      x = new_x

    if not (self.config""")], CO + '''
d = tempfile.mkdtemp()
try:
  bad = 0
  cfg, log, res, cut = run_co(d, chain_length=40, ess_ratio=0.05, init_temperature=5.0, decay_rate=0.9)
  for i in range(2):
    v = cut(i, res['best_samples'][i])
    print('graph', i, 'best ratio', res['best_ratio'][i], 'value of the saved sample', v)
    bad += abs(v - float(res['best_ratio'][i])) > 1e-4
  sys.exit(int(bad > 0))
finally:
  shutil.rmtree(d)
''', 'saving samples, several chains per instance, and the best value found after burn-in',
'the saved sample is not the one that attained the reported best value')

add('co-temperature-floor', 'C15', [('discs/experiment/sampling.py',
"""          config.decay_rate,
          end_value=config.final_temperature,
""", """          config.decay_rate,
""")], CO + '''
d = tempfile.mkdtemp()
try:
  cfg, log, res, cut = run_co(d, decay_rate=1e-4, final_temperature=0.05)
  t = sorted({round(float(l[3]), 6) for l in log})
  print('temperatures used', t)
  sys.exit(int(min(t) < 0.0499))
finally:
  shutil.rmtree(d)
''', 'an exponential schedule that would fall below the final temperature', 'the temperature falls below the configured final one')

add('ais-cached-energy', 'C17', [('discs/experiment/sampling.py',
"""      old_val = score_fn(params, x)
      if not self.parallel:
        params['temperature'] = step * 1.0 / self.config.chain_length
""", """      if step % 2 == 1:
        old_val = score_fn(params, x)
      else:
        old_val = new_val
      if not self.parallel:
        params['temperature'] = step * 1.0 / self.config.chain_length
"""), ('discs/experiment/sampling.py',
"""      log_w = log_w + score_fn(params, x) - old_val
""", """      new_val = score_fn(params, x)
      log_w = log_w + new_val - old_val
""")], EXPERIMENT + '''
n = 4
w = jnp.array([2.0, -1.0, 0.5, 1.5])


class Model:
  def make_init_params(self, rng):
    return {'w': w}

  def get_init_samples(self, rng, k):
    return jax.random.bernoulli(rng, shape=(k, n)).astype(jnp.int32)

  def forward(self, params, x):
    return params['temperature'] * (x.astype(jnp.float32) @ params['w']) - (1 - params['temperature']) * n * jnp.log(2.0)


class Exact:
  def make_init_state(self, rng):
    return {'steps': jnp.zeros(())}

  def step(self, model, rng, x, model_param, state, x_mask=None):
    p = jax.nn.sigmoid(model_param['temperature'] * model_param['w'])
    return jax.random.bernoulli(rng, p, x.shape).astype(jnp.int32), state, 1


class Saver:
  def save_logz(self, v):
    self.v = [float(a) for a in v]


cfg = config(batch_size=400, chain_length=60, run_parallel=False, evaluator='ebm', name='EBM_Experiment')
with cfg.unlocked():
  cfg.model = config_dict.ConfigDict(dict(name='resnet', shape=(n,), num_categories=2))
sv = Saver()
sampling.EBM_Experiment(cfg).get_results(Model(), Exact(), None, sv)
want = float(jnp.sum(jax.nn.softplus(w)))
print('estimate', sv.v[-1], 'exact', want)
sys.exit(int(abs(sv.v[-1] - want) > 0.15))
''', 'a chain of at least two steps whose states change between the steps',
'every second weight increment uses the energy of the state before the last move')

add('ais-device-keys', 'C19', [('discs/experiment/sampling.py',
"""        rng_step = jax.random.split(rng, x.shape[0])
""", """        rng_step = jnp.broadcast_to(rng, (x.shape[0],) + rng.shape)
""")], '''
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=2'
''' + EXPERIMENT + '''
n = 4
class Model:
  def make_init_params(self, rng):
    return {'w': jnp.ones(n)}
  def get_init_samples(self, rng, k):
    return jnp.zeros((k, n), jnp.int32)
  def forward(self, params, x):
    return params['temperature'] * (x.astype(jnp.float32) @ params['w'])
class Sampler:
  def make_init_state(self, rng):
    return {'steps': jnp.zeros(())}
  def step(self, model, rng, x, model_param, state, x_mask=None):
    jax.debug.callback(lambda k: keys.append(tuple(np.array(k).tolist())), rng)
    return jax.random.bernoulli(rng, 0.5, x.shape).astype(jnp.int32), state, 1
class Saver:
  def save_logz(self, v):
    pass
keys = []
cfg = config(batch_size=4, chain_length=5, run_parallel=True, evaluator='ebm', name='EBM_Experiment')
with cfg.unlocked():
  cfg.model = config_dict.ConfigDict(dict(name='resnet', shape=(n,), num_categories=2))
sampling.EBM_Experiment(cfg).get_results(Model(), Sampler(), None, Saver())
jax.effects_barrier()
print(len(keys), 'steps with', len(set(keys)), 'different keys')
sys.exit(int(len(set(keys)) < len(keys)))
''', 'more than one local device', 'all devices make the same random choices, so there are fewer independent chains than reported')

add('ngram-total', 'C18', [('discs/evaluators/lm_eval.py',
"""      n_unique = len([k for k, v in pred_ngrams[i].items() if v == 1])
      total = sum(pred_ngrams[i].values())
""", """      n_unique = len([k for k, v in pred_ngrams[i].items() if v == 1])
      total = len(pred_ngrams[i])
""")], GRAPH + '''
from discs.evaluators import lm_eval
e = lm_eval.LMevaluator.__new__(lm_eval.LMevaluator)
got = e.self_unique_ngrams([['a', 'b', 'a', 'c'], ['a', 'b', 'd', 'd']], 2)
want = {1: 1 / 8, 2: 4 / 6}
print(got, want)
sys.exit(int(any(abs(got[k] - want[k]) > 1e-9 for k in want)))
''', 'generated sentences that repeat some n-gram', 'the share of unique n-grams is relative to the distinct n-grams')

add('clip-after-update', 'C20', [('discs/learning/train.py',
"""    optims.append(optax.clip_by_global_norm(grad_norm))
  opt_args = {}
""", """    clip = [optax.clip_by_global_norm(grad_norm)]
  else:
    clip = []
  opt_args = {}
"""), ('discs/learning/train.py',
"""  optim = optax.chain(*optims)
""", """  optim = optax.chain(*optims, *clip)
""")], GRAPH + '''
import types
for name in ('torch', 'torch.utils', 'torch.utils.data', 'torchvision', 'torchvision.transforms', 'tensorflow_datasets'):
  sys.modules[name] = types.ModuleType(name)
sys.modules['torch'].utils = sys.modules['torch.utils']
sys.modules['torch.utils'].data = sys.modules['torch.utils.data']
from ml_collections import config_dict
from discs.learning import train
import optax
opt = train.build_optimizer(config_dict.ConfigDict(dict(
    lr_schedule='constant', learning_rate=0.1, optimizer='sgd', grad_norm=1.0, total_train_steps=10)))
p = {'a': jnp.zeros(2)}
u, _ = opt.update({'a': jnp.array([30., 40.])}, opt.init(p), p)
print('update', u['a'], 'clipped gradient times rate', [-0.06, -0.08])
sys.exit(int(np.abs(np.asarray(u['a']) - np.array([-0.06, -0.08])).max() > 1e-5))
''', 'gradient clipping configured and a gradient above the limit', 'updates instead of gradients are clipped')

add('report-std-column', 'C21', [('discs/plot_results/plot_results.py',
"""      results['best_ratio_std'] = np.std(results_pkl['trajectory'][-1])
""", """      results['best_ratio_std'] = np.std(results_pkl['trajectory'])
""")], GRAPH + '''
import csv, subprocess
repo = os.getcwd()
d = tempfile.mkdtemp()
try:
  os.makedirs(d + '/discs-maxcut-ba_1/1_name=dlmc,cfg_str=r-x')
  tr = np.array([[0.1, 0.2], [0.5, 0.9]])
  with open(d + '/discs-maxcut-ba_1/1_name=dlmc,cfg_str=r-x/results.pkl', 'wb') as f:
    pickle.dump(dict(trajectory=tr, best_ratio=tr[-1], running_time=1.0), f)
  r = subprocess.run([sys.executable, '-m', 'discs.plot_results.plot_results', '--gcs_results_path=./discs-maxcut-ba_1',
                      '--evaluation_type=co', '--key=name'], cwd=d, env=dict(os.environ, PYTHONPATH=repo),
                     capture_output=True, text=True)
  rows = [row for root, _, fs in os.walk(d) for f in fs if f.endswith('.csv') for row in csv.DictReader(open(os.path.join(root, f)))]
  print(rows, r.stderr[-300:] if not rows else '')
  got = float(rows[0]['best_ratio_std'].strip('[]'))
  print('spread reported', got, 'of the final ratios', np.std(tr[-1]))
  sys.exit(int(abs(got - np.std(tr[-1])) > 1e-3))
finally:
  shutil.rmtree(d)
''', 'a trajectory whose ratios improve over time', 'the spread over instances is mixed with the progress over time')

add('launch-sampler-file', 'C22', [('discs/xm_launcher.py',
"""      if 'sampler_config.name' in args.keys():
        args['sampler_config'] = (
""", """      if kwargs.get('sampler_config.name') == job_config.sampler:
        args['sampler_config'] = (
""")], GRAPH + '''
import asyncio, types
from absl import flags
jobs = []
class Any(types.ModuleType):
  def __getattr__(self, name):
    return lambda *a, **k: Any(name)
xm = Any('xm')
xm.GiB = 1
xm.ServiceTier = types.SimpleNamespace(BATCH=1, PROD=2)
xm.Job = lambda ex, args=None, executor=None: jobs.append(dict(args))
class Exp:
  experiment_id = 7
  def __enter__(self): return self
  def __exit__(self, *a): return False
  def package(self, specs): return ['exe']
  def add(self, fn, args=None):
    unit = types.SimpleNamespace(work_unit_id=1, add=lambda j: None)
    asyncio.run(fn(unit, **args))
loc = Any('xm_local'); loc.create_experiment = lambda **k: Exp()
for name, mod in (('xmanager', Any('xmanager')), ('xmanager.xm', xm), ('xmanager.xm_local', loc), ('xmanager.xm_abc', loc),
                  ('xmanager.contrib', Any('c')), ('xmanager.contrib.framework_defaults', Any('f')),
                  ('google', None)):
  if mod is not None:
    sys.modules[name] = mod
sys.modules['xmanager'].xm, sys.modules['xmanager'].xm_local, sys.modules['xmanager'].xm_abc = xm, loc, loc
sys.modules['xmanager.contrib'].framework_defaults = sys.modules['xmanager.contrib.framework_defaults']
sys.modules['xmanager.contrib'].xm_abc = loc
src = [l for l in open('discs/xm_launcher.py') if 'import' in l]
from discs import xm_launcher
d = tempfile.mkdtemp()
try:
  os.makedirs(d + '/bernoulli')
  with open(d + '/bernoulli/sweep.py', 'w') as f:
    f.write("""from ml_collections import config_dict
def get_config():
  return config_dict.ConfigDict(dict(model='bernoulli', sampler='gwg', sweep=[
      {'sampler_config.name': ['gwg', 'dlmc', 'randomwalk']}]))
""")
  flags.FLAGS(['x', '--config=' + d + '/bernoulli/sweep.py', '--launch_locally'])
  xm_launcher.main(['x'])
  bad = 0
  for j in jobs:
    print(j['sampler_config.name'], j['sampler_config'])
    bad += not j['sampler_config'].endswith('/%s_config.py' % j['sampler_config.name'])
  sys.exit(int(bad > 0 or len(jobs) != 3))
finally:
  shutil.rmtree(d)
''', 'a sweep over samplers', 'all work units use the options of the default sampler whatever sampler they name')

add('potts-init-rounding', 'C23', [('discs/models/potts.py',
"""    x0 = jax.random.randint(
        rnd,
        shape=(num_samples,) + self.sample_shape,
        minval=0,
        maxval=self.num_categories,
        dtype=jnp.int32,
    )
    return x0
""", """    u = jax.random.uniform(rnd, (num_samples,) + self.sample_shape)
    x0 = jnp.round(u * (self.num_categories - 1)).astype(jnp.int32)
    return x0
""")], KERNEL + '''
from discs.models import potts
m = potts.build_model(config_dict.ConfigDict(dict(model=dict(shape=(8, 8), num_categories=4, lambdaa=0.5, init_sigma=0.5, mu=0.2))))
x = np.asarray(m.get_init_samples(jax.random.PRNGKey(0), 500))
f = np.bincount(x.ravel(), minlength=4) / x.size
print('frequencies of the categories', f)
sys.exit(int(np.abs(f - 0.25).max() > 0.02))
''', 'more than two categories', 'the first and last category start half as often as the others')

add('infill-masks-accumulate', 'C24', [('discs/models/text_infilling.py',
"""    loglikelihood = 0.0
    for i in range(0, len(self.infill_pos)):
""", """    loglikelihood = 0.0
    x_new = x
    for i in range(0, len(self.infill_pos)):
"""), ('discs/models/text_infilling.py',
"""      x_new = x.at[:, i, :].set(mask_dummy_array)
""", """      x_new = x_new.at[:, i, :].set(mask_dummy_array)
""")], GRAPH + '''
import types
import jaxlib.xla_extension as xe
if not hasattr(xe, 'DeviceArray'):
  xe.DeviceArray = jax.Array
from discs.models import text_infilling
C, L = 7, 3
W = jnp.array(np.random.RandomState(0).randn(L, C, L, C), jnp.float32)
m = text_infilling.TextInfilling.__new__(text_infilling.TextInfilling)
m.num_categories, m.mask_token, m.infill_pos = C, 6, [0, 1, 2]
m.model = lambda input_ids, infill_one_hots, **k: types.SimpleNamespace(
    logits=jnp.einsum('bic,icjd->bjd', infill_one_hots, W))
p = dict(input_ids=None, attention_mask=None, token_type_ids=None)
x = jnp.array([1, 4, 2])
got = float(jnp.sum(m.single_forward(p, x)))
want = 0.0
for i in range(L):
  h = jax.nn.one_hot(x.at[i].set(6), C)[None]
  want += float(jax.nn.log_softmax(jnp.einsum('bic,icjd->bjd', h, W)[0, i])[x[i]])
print('energy', got, 'definition', want)
sys.exit(int(abs(got - want) > 1e-3))
''', 'a sentence with at least two blanks', 'later blanks are scored with the earlier ones masked')

add('rounded-training-mean', 'C26', [('discs/learning/train.py',
"""    img = x['image']._numpy().astype(np.float32)  # pylint: disable=protected-access
    data_mean = data_mean + img
""", """    img = x['image']._numpy()  # pylint: disable=protected-access
    data_mean = (data_mean + img).astype(np.uint16)
""")], GRAPH + '''
import types
for name in ('torch', 'torch.utils', 'torch.utils.data', 'torchvision', 'torchvision.transforms', 'tensorflow_datasets'):
  sys.modules[name] = types.ModuleType(name)
sys.modules['torch'].utils = sys.modules['torch.utils']
sys.modules['torch.utils'].data = sys.modules['torch.utils.data']
from discs.learning import train
import tensorflow as tf
imgs = np.full((400, 2, 2, 1), 200, np.uint8)
imgs[:, 0, 0, 0] = 20
got = np.array(train.get_data_mean(tf.data.Dataset.from_tensor_slices({'image': imgs})))
want = imgs.reshape(400, -1).mean(0) / 255
print(got, want)
sys.exit(int(np.abs(got - want).max() > 1e-3))
''', 'a pixel whose values sum to more than 65535 over the dataset', 'the mean image wraps around in bright pixels')

add('fhmm-last-prior', 'C25', [('discs/models/fhmm.py',
"""    alpha_logits = jnp.log(alpha)
""", """    alpha_logits = jnp.log(alpha)
    self.log_alpha = alpha_logits
"""), ('discs/models/fhmm.py',
"""    alpha = params['alpha']
""", """    alpha = getattr(self, 'log_alpha', params['alpha'])
""")], '''
import sys
import jax, jax.numpy as jnp, numpy as np
from ml_collections import config_dict
from discs.models import fhmm
cfg = config_dict.ConfigDict(dict(model=dict(shape=(6, 4), num_categories=4, sigma=0.5, alpha=0.7, beta=0.8)))
m = fhmm.build_model(cfg)
first = m.make_init_params(jax.random.PRNGKey(1))
x = m.get_init_samples(jax.random.PRNGKey(2), 5)
a = np.asarray(m.forward(first, x))
m.make_init_params(jax.random.PRNGKey(3))
b = np.asarray(m.forward(first, x))
print('energies', a, 'after drawing another instance', b)
sys.exit(int(np.abs(a - b).max() > 1e-3))
''', 'two instances drawn from one categorical factorial HMM object, then the first one evaluated again',
'the energy of an instance uses the prior of whichever instance was drawn last')

add('normcut-empty-part', 'C10', [('discs/models/normcut.py',
"""(volume + self.eps ** 2),""", """(volume + self.eps),""")], GRAPH + '''
import jax.numpy as jnp
from ml_collections import config_dict
from discs.models import normcut
m = normcut.NormCut.__new__(normcut.NormCut)
m.penalty, m.num_nodes, m.num_edges, m.num_categories = 0.0, 4, 4, 2
m.avg_partition_size, m.eps = 2.0, 1e-8
p = dict(edge_from=jnp.array([0, 1, 2, 3]), edge_to=jnp.array([1, 2, 3, 0]),
         node_degrees=jnp.array([2.0, 2.0, 2.0, 2.0]), temperature=1.0)
x = jnp.array([[0, 0, 1, 1], [0, 0, 0, 0], [0, 1, 0, 1]])
e = np.asarray(m.forward(p, x))
print('energies of halves, everything in one part, alternating:', e)
sys.exit(int(e[1] >= min(e[0], e[2])))
''', 'the normalised cut without balance penalty and a state that leaves a part empty',
'putting every node into one part scores as well as a proper partition')

add('fhmm-common-noise', 'C23', [('discs/models/fhmm.py',
"""    return jax.random.normal(rng, (self.l, 1)) * self.sigma + x @ w + b
""", """    return jax.random.normal(rng, b.shape) * self.sigma + x @ w + b
""")], """
import sys
import jax, numpy as np
from ml_collections import config_dict
from discs.models import fhmm
cfg = config_dict.ConfigDict(dict(model=dict(shape=(40, 2), num_categories=2, sigma=5.0, alpha=0.1, beta=0.99)))
m = fhmm.build_model(cfg)
y = np.asarray(m.make_init_params(jax.random.PRNGKey(1))['y']).ravel()
print('spread of the observations over time', y.std(), 'noise', 5.0)
sys.exit(int(y.std() < 2.0))
""", 'the binary factorial HMM and a look at the observations over time',
'all time steps share one noise value, so the generated observations carry almost no noise')

RERUN = r"""
import csv, importlib, os, subprocess, sys, tempfile
from ml_collections import config_dict
from discs.common import configs as common_configs, experiment_saver


def run(root, steps):
  from discs.evaluators import ess_eval
  from discs.experiment import sampling
  from discs.models import bernoulli
  cfg = common_configs.get_config()
  cfg.model.update(importlib.import_module('discs.models.configs.bernoulli_config').get_config())
  cfg.sampler.update(importlib.import_module('discs.samplers.configs.gwg_config').get_config())
  with cfg.unlocked(), cfg.ignore_type():
    cfg.model.shape = (5,)
    e = cfg.experiment
    e.batch_size, e.chain_length, e.save_root = 4, steps, root
    e.save_samples, e.save_every_steps, e.run_parallel = True, 1, False
  s = importlib.import_module('discs.samplers.gwg').build_sampler(cfg)
  sampling.Sampling_Experiment(cfg).get_results(
      bernoulli.build_model(cfg), s, ess_eval.build_evaluator(cfg), experiment_saver.build_saver(cfg))
  with open(os.path.join(root, 'results.csv')) as f:
    rows = list(csv.DictReader(f))
  return [[r['chain_length'], r['ESS'], r['ESS_M-H'], r['ESS_EE']] for r in rows]
"""

add('salted-chain-key', 'C27', [('discs/experiment/sampling.py',
"""    rng = jax.random.PRNGKey(10)
""", """    rng = jax.random.PRNGKey(hash(self.config_model.name) % 2**31)
""")], RERUN + r"""
if len(sys.argv) > 1:
  print('RESULT', run(sys.argv[1], 20))
  sys.exit(0)
with tempfile.TemporaryDirectory() as tmp:
  out = []
  for k in (1, 2, 3):
    p = subprocess.run([sys.executable, os.path.abspath(__file__), os.path.join(tmp, str(k))], text=True,
                       capture_output=True, env=dict(os.environ, PYTHONHASHSEED=str(k)))
    lines = [l for l in p.stdout.splitlines() if l.startswith('RESULT')]
    if not lines:
      print(p.stderr[-2000:]); sys.exit(3)
    out.append(lines[0])
print('\n'.join(out))
sys.exit(int(len(set(out)) > 1))
""", 'the same experiment in two processes whose string hashes are salted differently',
'every process draws other chains for the same options')

add('results-appended', 'C27', [('discs/common/experiment_saver.py',
"""    with open(f'{self.save_dir}/results.csv', 'w') as csvfile:
""", """    with open(f'{self.save_dir}/results.csv', 'a') as csvfile:
""")], RERUN + r"""
with tempfile.TemporaryDirectory() as tmp:
  root = os.path.join(tmp, 'results')
  run(root, 12)
  again = run(root, 20)
  fresh = run(os.path.join(tmp, 'other'), 20)
print('in a folder with older results', again, 'in a new one', fresh)
sys.exit(int(again != fresh))
""", 'an experiment run again into the folder of an older one',
'the results file starts with the numbers of the older run')
