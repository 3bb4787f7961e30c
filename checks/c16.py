"""C16: classical experiments report the statistics of the chains they ran."""

RULE = ('one evaluation = one number or state in the files of a real '
        'experiment, recomputed from the sampler steps observed; distinct = '
        '(model, sampler, options, chain length, chains) observed')
ASSUMPTIONS = [
    'runs of at most 60 steps on models with at most 12 variables',
    'ESS is recomputed in float64; where an autocorrelation is within 1e-4 of '
    'the cut-off both readings are accepted',
    'ESS per step and per energy evaluation are compared at ess_ratio 0.5, '
    'where the recorded half and the burn-in half have equal length']

MODELS = ['bernoulli', 'bernoulli2d', 'categorical', 'ising', 'potts', 'fhmm',
          'fhmm_categ', 'rbm', 'rbm_categ', 'resnet']
BINARY_SAMPLERS = [
    ('gibbs', {}), ('randomwalk', {}), ('randomwalk', dict(adaptive=False)),
    ('blockgibbs', dict(block_size=2)), ('hammingball', dict(block_size=3)),
    ('gwg', {}), ('gwg', dict(adaptive=False)), ('path_auxiliary', {}),
    ('path_auxiliary', dict(adaptive=False, num_flips=2)), ('dlmc', {}),
    ('dlmc', dict(solver='euler_forward')), ('dlmc', dict(adaptive=False)),
    ('dmala', {}), ('dmala', dict(adaptive=False))]
FNS = ['SQRT', 'RATIO', 'MAX', 'MIN']


def cases(tier, seed):
  out = []
  reps = 5 if tier == 'quick' else 24
  for k in range(reps):
    for i, m in enumerate(MODELS):
      out.append(dict(name='%s-%d' % (m, k), fn='run', args=dict(
          model=m, pick=i + k * 3, seed=seed * 73 + 10 * k + i),
          cost=2 if m == 'resnet' else 1))
  for i in range(len(BINARY_SAMPLERS) if tier == 'quick' else
                 2 * len(BINARY_SAMPLERS)):
    out.append(dict(name='label-%d' % i, fn='run', args=dict(
        model='bernoulli', pick=i, fn_type=FNS[i % 4],
        seed=seed * 79 + i)))
  for k in range(3 if tier == 'quick' else 12):
    out.append(dict(name='ess-%d' % k, fn='ess_values', args=dict(
        seed=seed * 83 + k)))
  from checks import c15
  out += c15._several(tier, seed, 'classical')
  return out


def several(rec, which, **args):
  from checks import c15
  c15.several(rec, which, **args)


def config(name, seed):
  """(cfg, number of categories) of a small classical model."""
  from vmon import mdl
  if name == 'bernoulli':
    return mdl.base_config('bernoulli', shape=(6,), init_sigma=1.0), 2
  if name == 'bernoulli2d':
    return mdl.base_config('bernoulli', shape=(2, 3), init_sigma=1.0), 2
  if name == 'categorical':
    return mdl.base_config('categorical', shape=(5,), num_categories=4,
                           init_sigma=1.0), 4
  if name == 'ising':
    return mdl.base_config('ising', shape=(3, 3), lambdaa=0.3, mu=0.3,
                           init_sigma=0.7), 2
  if name == 'potts':
    return mdl.base_config('potts', shape=(2, 3), num_categories=3,
                           lambdaa=0.3, mu=0.3, init_sigma=0.7), 3
  if name == 'fhmm':
    return mdl.base_config('fhmm', shape=(4, 3), num_categories=2), 2
  if name == 'fhmm_categ':
    return mdl.base_config('fhmm', shape=(4, 2), num_categories=3), 3
  if name == 'rbm':
    return mdl.trained_rbm(8, 4, 2, seed)[0], 2
  if name == 'rbm_categ':
    return mdl.trained_rbm(4, 3, 3, seed)[0], 3
  return mdl.trained_resnet(4, 4, seed)[0], 2


def run(rec, model, pick, seed, fn_type=None, batch=None, length=None,
        parallel=True, ratio=None, metrics=None):
  import numpy as np
  from vmon import exp
  rs = np.random.RandomState(seed)
  cfg, c = config(model, seed)
  allowed = BINARY_SAMPLERS if c == 2 else [
      s for s in BINARY_SAMPLERS if s[0] not in ('hammingball',)]
  if model == 'resnet':
    allowed = [s for s in allowed if s[0] not in ('hammingball', 'blockgibbs')]
  sname, opts = allowed[pick % len(allowed)]
  opts = dict(opts)
  if fn_type is None and rs.rand() < 0.5:
    fn_type = FNS[rs.randint(4)]
  conf = exp.importlib.import_module(
      'discs.samplers.configs.%s_config' % sname).get_config()
  if fn_type and 'balancing_fn_type' in conf:
    opts['balancing_fn_type'] = fn_type
  exp.sampler_conf(cfg, sname, **opts)
  ratio = ratio or float(rs.choice([0.5, 0.5, 0.25, 0.8]))
  length = length or int(rs.choice([8, 21, 40, 60]))
  exp.set_exp(
      cfg, batch_size=batch or int(rs.choice([2, 3, 5, 8])),
      chain_length=length, ess_ratio=ratio, run_parallel=parallel,
      get_additional_metrics=bool(rs.rand() < 0.4) if metrics is None
      else metrics,
      save_samples=bool(rs.rand() < 0.6),
      get_estimation_error=bool(rs.rand() < 0.5),
      save_every_steps=int(rs.choice([1, 2, 3, 7])))
  trace, files = exp.run(cfg)
  judge(rec, model, cfg, trace, files)
  rec.sample(model=model, sampler=sname, options=opts, chains=cfg.experiment.
             batch_size, steps=length, csv=files.get('results.csv'))


def label(cfg):
  s = cfg.sampler.name
  if cfg.sampler.get('adaptive', False):
    s = 'a_' + s
  if cfg.sampler.get('solver', '') == 'euler_forward':
    s += 'f'
  if 'balancing_fn_type' in cfg.sampler:
    s += {'RATIO': '(ratio)', 'MAX': '(max)', 'MIN': '(min)'}.get(
        cfg.sampler.balancing_fn_type, '(sqrt)')
  return s


def ess_bounds(mapped):
  """Smallest and largest (mean, std) over ambiguous cut-offs."""
  import numpy as np
  from vmon import exp
  lo = []
  for cut in (-1e-4, 0.0, 1e-4):
    lo.append(np.nan_to_num(exp.ess(mapped, cut), nan=1.0))
  a, b = np.min(lo, 0), np.max(lo, 0)
  exact = bool(np.allclose(a, b, rtol=1e-3))
  return a, b, exact


def numbers(text):
  import re
  return [float(v) for v in re.findall(r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|'
                                       r'inf)', text)]


def judge(rec, name, cfg, trace, files):
  import csv
  import io
  import numpy as np
  from vmon import exp
  e = cfg.experiment
  dim = int(np.prod(cfg.model.shape))
  T, B = e.chain_length, e.batch_size
  tag = '%s/%s' % (name, cfg.sampler.name)
  per = exp.by_step(trace.steps)
  if not rec.check(sorted(per) == list(range(1, T + 1)) and all(
      sum(len(exp.rows(s['new_x'], dim)) for s in v) == B
      for v in per.values()), 'steps', '%s: %d steps instead of %d, or not '
                   'with %d chains' % (tag, len(per), T, B)):
    return
  rec.event(T * B, 'chain steps')
  keys = [s['rng'].tobytes() for s in trace.steps]
  rec.check(len(set(keys)) == len(keys), 'randomness', '%s: %d steps share %d '
            'random keys' % (tag, len(keys), len(set(keys))))
  prev = None
  for t in per:
    cur = {s['tag']: s for s in per[t]}
    for k, s in cur.items():
      if prev is not None and not rec.check(
          k in prev and np.array_equal(exp.rows(prev[k]['new_x'], dim),
                                       exp.rows(s['x'], dim)), 'continuity',
          '%s: step %d does not continue from step %d' % (tag, t, t - 1)):
        return
    prev = cur
  starts = [x for num, x in trace.inits if num == B]
  ones = [x for num, x in trace.inits if num == 1]
  first = exp.multiset(np.concatenate([exp.rows(s['x'], dim) for s in per[1]]))
  rec.check(any(first == exp.multiset(exp.rows(x, dim)) for x in starts),
            'start', '%s: the chains do not start at the initial samples of '
            'the model' % tag)
  tr = exp.tracks(trace.steps, dim)
  chains = np.concatenate([tr[k] for k in sorted(tr)], axis=1)  # T+1, B, dim
  rec.seen(name, cfg.sampler.name, label(cfg), T, B, chains.tolist())
  if 'results.csv' not in files:
    rec.fail('missing', '%s: no results.csv' % tag)
    return
  rows = list(csv.DictReader(io.StringIO(files['results.csv'])))
  if not rec.check(len(rows) == 1, 'csv', '%s: %d rows' % (tag, len(rows))):
    return
  row = rows[0]
  for col, want in (('sampler', label(cfg)), ('model', cfg.model.name),
                    ('num_categories', str(cfg.model.num_categories)),
                    ('shape', str(tuple(cfg.model.shape))),
                    ('batch_size', str(B)), ('chain_length', str(T)),
                    ('ess_ratio', str(e.ess_ratio))):
    rec.check(row.get(col) == want, 'csv', '%s: column %s is %r, the run was '
              '%r' % (tag, col, row.get(col), want))
  # ESS of the distance to the reference sample over the recorded part
  burn = int(T * e.ess_ratio)
  ok = False
  got = numbers(row['ESS'])
  if not rec.check(len(got) == 2, 'csv', '%s: ESS column %r' % (
      tag, row['ESS'])):
    return
  tried = []
  for x0 in ones:
    mapped = np.abs(chains[1 + burn:].astype(float) - exp.rows(x0, dim)[0]
                    ).sum(-1)
    a, b, exact = ess_bounds(mapped)
    tried.append((a.mean(), b.mean()))
    m = (a.mean() - 2e-3 * abs(a.mean()) <= got[0] <=
         b.mean() + 2e-3 * abs(b.mean()))
    if m and exact:
      m = abs(got[1] - a.std()) <= 5e-3 * (abs(a).max() + 1)
    ok = ok or m
    rec.event(mapped.size, 'mapped samples')
  rec.check(ok, 'ess', '%s: ESS %s reported, the recorded chains give %s (%d '
            'steps after burn-in)' % (tag, got, tried, T - burn))
  time = float(row['Time'])
  rec.check(0 < time <= trace.wall, 'time', '%s: time %g of a run of %g s' % (
      tag, time, trace.wall))
  calls = {s['ll_after'] for s in per[T]}
  def near(col, want):
    v = numbers(row[col])
    rec.check(len(v) == 2 and bool(np.allclose(v, want, rtol=2e-4)), col,
              '%s: %s is %s, expected %s' % (tag, col, v, want))
  near('ESS_T', np.array(got) / time)
  if e.ess_ratio == 0.5:
    near('ESS_M-H', np.array(got) / (T * e.ess_ratio))
    rec.check(len(calls) == 1, 'calls', '%s: devices count different energy '
              'evaluations %s' % (tag, calls))
    near('ESS_EE', np.array(got) / (max(calls) * e.ess_ratio))
  saved(rec, tag, cfg, trace, files, chains, T, B, dim)
  if e.get_additional_metrics:
    from checks import c15
    c15.figures(rec, tag, trace, {0: per}, [[0]], T, dim, B)


def saved(rec, tag, cfg, trace, files, chains, T, B, dim):
  """samples.pkl holds the same few chains at every saved step."""
  import networkx as nx
  import numpy as np
  e = cfg.experiment
  name = cfg.model.name
  want = (e.save_samples and name in ('rbm', 'resnet')) or (
      e.get_estimation_error and name == 'bernoulli')
  if not rec.check(('samples.pkl' in files) == bool(want) or not want,
                   'missing', '%s: samples were %ssaved' % (
                       tag, '' if 'samples.pkl' in files else 'not ')):
    return
  if not want:
    return
  times = [t for t in range(1, T + 1) if t % e.save_every_steps == 0]
  traj = np.asarray(files['samples.pkl']['trajectory'])
  k = min(4, B)
  if not rec.check(traj.shape == (len(times), k, dim) or not times,
                   'samples-shape', '%s: saved samples of shape %s for %d '
                   'saved steps of %d chains' % (tag, traj.shape, len(times),
                                                 k)):
    return
  if times:
    rec.event(traj.size, 'saved values')
    g = nx.Graph()
    for j in range(k):
      g.add_node(('saved', j), bipartite=0)
      for b in range(B):
        if np.array_equal(traj[:, j], chains[times, b]):
          g.add_edge(('saved', j), ('chain', b))
    m = nx.bipartite.maximum_matching(g, top_nodes=[('saved', j)
                                                    for j in range(k)])
    rec.check(all(('saved', j) in m for j in range(k)), 'samples', '%s: the '
              'saved samples are not those of %d chains at steps %s' % (
                  tag, k, times[:5]))
  if name == 'bernoulli' and e.get_estimation_error:
    p = np.asarray(files['params.pkl']['params'])
    w = np.asarray(trace.batches[0]['params'])
    rec.check(p.shape == tuple(cfg.model.shape) and np.array_equal(
        p.reshape(-1), w.reshape(-1)), 'params', '%s: saved parameters of '
              'shape %s differ from the model\'s' % (tag, p.shape))


def ess_values(rec, seed):
  """The evaluator alone, on chains of known correlation."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import exp, mdl
  rs = np.random.RandomState(seed)
  for r in range(40):
    n, b = int(rs.choice([2, 5, 17, 64, 200])), rs.randint(1, 6)
    rho = rs.choice([0.0, 0.5, 0.95, -0.7])
    z = np.zeros((n, b))
    z[0] = rs.randn(b)
    for t in range(1, n):
      z[t] = rho * z[t - 1] + np.sqrt(1 - rho ** 2) * rs.randn(b)
    z = np.round(z * rs.choice([1, 3, 20]))
    if r % 7 == 0:
      z[:, 0] = 5.0
    cfg = mdl.base_config('bernoulli', shape=(3,))
    T, ratio = int(rs.randint(1, 1000)), 0.5
    exp.set_exp(cfg, chain_length=T, ess_ratio=ratio)
    ev = exp.module('evaluators', 'ess_eval').build_evaluator(cfg)
    got = np.asarray(ev.evaluate(samples=jnp.array(z, jnp.float32),
                                 rnd=jax.random.PRNGKey(0)), np.float64)
    a, c, exact = ess_bounds(z)
    rec.seen('ess', n, b, z.tolist())
    rec.event(n * b, 'mapped samples')
    ok = a.mean() * (1 - 2e-3) - 1e-3 <= got[0] <= c.mean() * (1 + 2e-3) + 1e-3
    if exact:
      ok = ok and abs(got[1] - a.std()) <= 5e-3 * (np.abs(a).max() + 1)
    if not rec.check(bool(ok), 'ess', 'ESS %s of %d chains of length %d, '
                     'expected mean %g to %g, std %g' % (
                         got, b, n, a.mean(), c.mean(), a.std())):
      return
    sec, calls = float(rs.uniform(0.1, 9)), int(rs.randint(1, 10 ** 6))
    m = [np.asarray(v, np.float64) for v in ev.get_eval_metrics(
        jnp.array(got, jnp.float32), sec, calls)]
    want = [got, got / (T * ratio), got / sec, got / (calls * ratio)]
    rec.check(len(m) == 4 and all(np.allclose(u, v, rtol=1e-5)
                                  for u, v in zip(m, want)), 'rates',
              'ESS rates %s, expected %s' % (m, want))
