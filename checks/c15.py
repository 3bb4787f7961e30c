"""C15: reported optimisation results are those of the states visited."""

RULE = ('one evaluation = one logged step of one problem instance in a real '
        'annealing run, its reported ratio recomputed from the states the '
        'sampler visited and the graph written to disk; distinct = (problem, '
        'graph, sampler, schedule, step, visited states)')
ASSUMPTIONS = [
    'runs of at most 40 steps on graphs with up to 10 nodes, 1 to 4 instances '
    'per batch and up to 5 instances',
    'the objective of normalised cut is taken from the model itself (C10 '
    'judges it), those of the other problems are recomputed in float64']

KINDS = ['ba', 'er', 'optsicom', 'ertest', 'er_density', 'rb', 'twitter',
         'gap_rand', 'nets']
SAMPLERS = [('path_auxiliary', {}), ('dlmc', {}), ('gwg', {}), ('gibbs', {}),
            ('randomwalk', {}), ('dmala', {}),
            ('path_auxiliary', dict(adaptive=False, num_flips=2)),
            ('dlmc', dict(solver='euler_forward'))]


def cases(tier, seed):
  out = []
  reps = 2 if tier == 'quick' else 12
  for k in range(reps):
    for i, kind in enumerate(KINDS):
      for j in range(3 if tier == 'quick' else 6):
        out.append(dict(name='%s-%d-%d' % (kind, j, k), fn='run', args=dict(
            kind=kind, pick=i + 3 * j + 5 * k, seed=seed * 67 + 100 * k + j)))
  for t in ('constant', 'linear', 'exp_decay'):
    for k in range(2 if tier == 'quick' else 8):
      out.append(dict(name='schedule-%s-%d' % (t, k), fn='schedule', args=dict(
          schedule=t, seed=seed * 71 + k)))
  out += _several(tier, seed, 'co')
  return out


def _several(tier, seed, fn):
  """A few of the runs of C19: the same experiments on several devices."""
  from checks import c19
  every = [c for c in c19.cases(tier, seed + 50) if c['fn'] == fn]
  keep = every[1::3] if tier == 'quick' else every
  return [dict(c, name='devices-' + c['name'], fn='several',
               args=dict(c['args'], which=fn)) for c in keep]


def several(rec, which, **args):
  from checks import c19
  getattr(c19, which)(rec, **args)


def temperature(kind, t, length, init, final, decay):
  """The annealing schedule, from its definition."""
  if kind == 'constant':
    return init
  if kind == 'linear':
    return init + (final - init) * min(t / length, 1.0)
  v = init * decay ** (t / length)
  return max(v, final) if decay < 1 else min(v, final)


def graphs_for(kind, rs, count):
  from vmon import data
  out = []
  for _ in range(count):
    n = rs.randint(4, 10)
    out.append(data.random_graph(
        rs, n, rs.choice([0.3, 0.6]), weighted=data.MODEL_OF[kind] == 'maxcut',
        isolated=data.MODEL_OF[kind] != 'normcut'))
    if not out[-1].edges():
      out[-1].add_edge(0, n - 1, weight=2.5)
  if kind in ('gap_rand', 'nets'):     # no padded nodes
    n = len(out[0])
    out = [g if len(g) == n else data.random_graph(rs, n, 0.5, isolated=False)
           for g in out]
  return out


def schedule_conf(rs, which=None):
  t = which or ['constant', 'linear', 'exp_decay'][rs.randint(3)]
  init = float(rs.choice([0.3, 1.0, 2.0, 5.0]))
  final = float(rs.choice([1e-6, 0.05, 0.5])) if t != 'linear' else float(
      rs.choice([1e-3, 0.2, 3.0]))
  decay = float(rs.choice([0.1, 0.02, 0.6, 0.9]))
  return dict(t_schedule=t, init_temperature=init, final_temperature=final,
              decay_rate=decay)


def run(rec, kind, pick, seed, models=None, batch=None, length=None, count=None,
        smp=None, sched=None, log=None, metrics=None, parallel=True,
        verdict=None):
  import numpy as np
  from vmon import data, exp, mdl
  rs = np.random.RandomState(seed)
  name = data.MODEL_OF[kind]
  count = count or (1 if kind == 'nets' else rs.randint(1, 6))
  models = models or (1 if kind == 'nets' else rs.randint(1, 5))
  graphs = graphs_for(kind, rs, count)
  refs = [float(r) for r in rs.choice([1.0, 2.5, 3.0, 7.0, 0.5], count)]
  if kind == 'ertest':
    refs = [1 + i % 3 for i in range(count)]
  extra = dict(num_categories=int(rs.choice([2, 3]))) if name == 'normcut' \
      else {}
  cfg = mdl.graph_config(kind, graphs, refs, models, files=rs.randint(1, 4),
                         **extra)
  allowed = SAMPLERS if cfg.model.num_categories == 2 else [
      s for s in SAMPLERS if s[0] in ('path_auxiliary', 'dlmc', 'gwg')]
  sname, opts = smp or allowed[pick % len(allowed)]
  exp.sampler_conf(cfg, sname, **opts)
  batch = batch or int(rs.choice([1, 3, 4, 6]))
  length = length or int(rs.choice([1, 7, 16, 25]))
  log = log or int(rs.choice([1, 2, 3, 5]))
  save = bool(rs.rand() < 0.6)
  metrics = bool(rs.rand() < 0.4) if metrics is None else metrics
  sc = sched or schedule_conf(rs)
  exp.set_exp(cfg, batch_size=batch, chain_length=length, log_every_steps=log,
              save_samples=save, get_additional_metrics=metrics,
              co_opt_prob=bool(rs.rand() < 0.5), run_parallel=parallel,
              ess_ratio=float(rs.choice([0.5, 0.25, 0.8])), **sc)
  model = exp.module('models', name).build_model(cfg)
  trace, files = exp.run(cfg, model)
  (verdict or judge)(rec, kind, cfg, graphs, refs, trace, files, model)
  rec.sample(kind=kind, sampler=sname, options=opts, instances=count,
             batch=models, chains=batch, steps=length, schedule=sc,
             best=files.get('results.pkl', {}).get('best_ratio'))


def schedule(rec, schedule, seed):
  import numpy as np
  rs = np.random.RandomState(seed)
  run(rec, 'er', 0, seed, models=2, batch=2, count=2, length=40,
      smp=('randomwalk', {}), sched=schedule_conf(rs, schedule), log=7)


def objective(kind, cfg, g, x, model, params):
  import jax.numpy as jnp
  import numpy as np
  from vmon import data, ref
  name = data.MODEL_OF[kind]
  if name == 'maxcut':
    return ref.maxcut(g, x)
  if name == 'mis':
    return ref.mis(g, x, cfg.model.get('penalty', 2.0))
  if name == 'maxclique':
    return ref.maxclique(g, x, cfg.model.get('penalty', 2.0))
  params = dict(params, temperature=jnp.float32(1.0))
  return np.asarray(model.evaluate(params, jnp.array(x, jnp.int32)),
                    np.float64)


def judge(rec, kind, cfg, graphs, refs, trace, files, model):
  import numpy as np
  from vmon import data, exp
  e = cfg.experiment
  name = data.MODEL_OF[kind]
  dim = int(np.prod(cfg.model.shape))
  T, B, log = e.chain_length, e.batch_size, e.log_every_steps
  L = T // log
  count = len(graphs)
  tag = '%s/%s' % (kind, cfg.sampler.name)
  slots = [m for b in trace.batches for m in b]
  seen_idx = sorted(m[1] for m in slots if m[1] >= 0)
  if not rec.check(seen_idx == list(range(count)), 'instances', '%s: instances '
                   '%s were run, the dataset has %d' % (tag, seen_idx, count)):
    return
  runs = {}
  for s in trace.steps:
    runs.setdefault(int(s['id']), {}).setdefault(s['t'], []).append(s)
  # fresh randomness for every step, instance and device of a batch
  for b in trace.batches:
    keys = [s['rng'].tobytes() for m in b for t in runs.get(m[0], {}).values()
            for s in t]
    rec.check(len(set(keys)) == len(keys), 'randomness', '%s: %d steps of a '
              'batch share %d random keys' % (tag, len(keys), len(set(keys))))
  want, best_state = {}, {}
  for ident, idx, params, _ in slots:
    per = runs.get(ident, {})
    if not rec.check(sorted(per) == list(range(1, T + 1)) and all(
        sum(exp.rows(s['new_x'], dim).shape[0] for s in v) == B
        for v in per.values()), 'steps', '%s: instance %d was sampled for %d '
                     'steps instead of %d, or not with %d chains' % (
                         tag, idx, len(per), T, B)):
      return
    rec.event(T * B, 'chain steps')
    for t in range(1, T + 1):
      exp_t = temperature(e.t_schedule, t, T, e.init_temperature,
                          e.final_temperature, e.decay_rate)
      for s in per[t]:
        got = float(s['temperature'])
        if not rec.check(abs(got - exp_t) <= 2e-5 * abs(exp_t) + 1e-9,
                         'temperature', '%s: temperature of step %d of %d is '
                         '%.7g, the %s schedule gives %.7g' % (
                             tag, t, T, got, e.t_schedule, exp_t)):
          return
        if idx >= 0:
          m = s.get('x_mask')
          nn = len(graphs[idx])
          ok = m is not None and m.reshape(-1).astype(int).tolist() == \
              [1] * nn + [0] * (dim - nn) if name != 'maxcut' else \
              m is None or m.reshape(-1)[:nn].all()
          if not rec.check(bool(ok), 'mask', '%s: step %d of instance %d given '
                           'mask %s for %d nodes' % (tag, t, idx, m, nn)):
            return
      prev = {s['tag']: exp.rows(s['new_x'], dim) for s in per.get(t - 1, [])}
      for s in per[t] if t > 1 else []:
        if not rec.check(s['tag'] in prev and np.array_equal(
            prev[s['tag']], exp.rows(s['x'], dim)), 'continuity',
                         '%s: step %d of instance %d does not continue from '
                         'the previous one' % (tag, t, idx)):
          return
    if idx < 0:
      continue
    g = graphs[idx]
    r = 1.0 if name == 'mis' else float(refs[idx])
    if kind in ('nets', 'gap_rand', 'er_density'):
      r = 1.0
    best, series, where = -1e9, [], None
    for t in range(log, T + 1, log):
      x = np.concatenate([exp.rows(s['new_x'], dim) for s in per[t]])
      vals = objective(kind, cfg, g, x, model, params) / r
      rec.seen(kind, cfg.sampler.name, idx, t, sorted(g.edges()), x.tolist())
      best = max(best, float(np.max(vals)))
      series.append(best)
    want[idx] = np.array(series)
    best_state[idx] = {tuple(row) for t in range(log, T + 1, log)
                       for s in per[t]
                       for row in exp.rows(s['new_x'], dim).tolist()}
  # first states are the model's initial samples
  for b, (num, x0) in zip(trace.batches, trace.inits):
    got = exp.multiset(np.concatenate([
        exp.rows(s['x'], dim) for m in b for s in runs[m[0]][1]]))
    rec.check(got == exp.multiset(exp.rows(x0, dim)) and num == B * len(b),
              'start', '%s: the chains do not start at the %d initial samples '
              'of the model' % (tag, num))
  res = files.get('results.pkl')
  if not rec.check(isinstance(res, dict), 'missing', '%s: no results.pkl' %
                   tag):
    return
  order = [m[1] for m in slots if m[1] >= 0]
  exp_traj = np.array([want[i] for i in order]).T.reshape(L, count)
  traj = np.asarray(res['trajectory'], np.float64)
  ratio = np.asarray(res['best_ratio'], np.float64)
  tol = 3e-5 * (np.abs(exp_traj).max() + 1) if L else 0
  if L:
    if not rec.check(traj.shape == exp_traj.shape, 'trajectory-shape',
                     '%s: trajectory of shape %s for %d logged steps of %d '
                     'instances' % (tag, traj.shape, L, count)):
      return
    rec.event(traj.size, 'trajectory entries')
    bad = ~(np.abs(traj - exp_traj) <= tol)
    if not rec.check(not bad.any(), 'trajectory', '%s: entry %s of the '
                     'trajectory is %s, the states visited give %s' % (
                         tag, np.argwhere(bad)[:1].tolist(), traj[bad][:1],
                         exp_traj[bad][:1])):
      return
    rec.check(bool((np.diff(traj, axis=0) >= 0).all()), 'monotone', '%s: the '
              'best ratio decreases' % tag)
    final = exp_traj[-1]
    rec.check(ratio.shape == final.shape and bool(
        (np.abs(ratio - final) <= tol).all()), 'best', '%s: best ratios %s '
              'reported, %s visited' % (tag, ratio, final))
    rec.check(abs(float(res['best_ratio_mean']) - final.mean()) <= tol, 'mean',
              '%s: mean best ratio %s reported, %s visited' % (
                  tag, res['best_ratio_mean'], final.mean()))
    if e.save_samples or name == 'normcut':
      bs = np.asarray(res['best_samples'])
      if rec.check(bs.reshape(-1).size in (dim * count, dim * len(slots)),
                   'best-samples', '%s: best samples of shape %s' % (
                       tag, bs.shape)):
        bs = bs.reshape(-1, dim)
        which = [m[1] for m in slots] if len(bs) == len(slots) else order
        for i, row in zip(which, bs):
          if i < 0:
            continue
          params = [m[2] for m in slots if m[1] == i][0]
          r = 1.0 if name == 'mis' or kind in (
              'nets', 'gap_rand', 'er_density') else float(refs[i])
          v = float(objective(kind, cfg, graphs[i], row[None].astype(int),
                              model, params)[0]) / r
          rec.check(tuple(row.astype(int).tolist()) in best_state[i] and
                    abs(v - ratio[which.index(i) if len(bs) == count else
                                  order.index(i)]) <= tol,
                    'best-samples', '%s: the saved best sample of instance %d '
                    'has ratio %g, the best visited has %g' % (
                        tag, i, v, want[i][-1]))
  t = float(res['running_time'])
  rec.check(0 <= t <= trace.wall, 'time', '%s: running time %g of a run that '
            'took %g s' % (tag, t, trace.wall))
  if e.get_additional_metrics and count == len(slots):
    figures(rec, tag, trace, runs, [[m[0] for m in b] for b in trace.batches],
            T, dim, B)


def figures(rec, tag, trace, runs, groups, T, dim, B):
  """Plotted acceptance rates and hops against the observed steps."""
  import numpy as np
  from vmon import exp
  accs = [f for f in trace.figures if 'acc' in f[1].lower()]
  hops = [f for f in trace.figures if 'hop' in f[1].lower()]
  if not rec.check(len(accs) == len(hops) == len(groups), 'figures', '%s: %d '
                   'and %d figures for %d runs' % (tag, len(accs), len(hops),
                                                   len(groups))):
    return
  for g, fa, fh in zip(groups, accs, hops):
    wa, wh = [], []
    for t in range(1, T + 1):
      ss = [s for i in g for s in runs[i][t]]
      wa.append(np.mean([np.mean(s['acc']) for s in ss]))
      d = [np.abs(exp.rows(s['x'], dim).astype(float) - exp.rows(
          s['new_x'], dim)).sum() for s in ss]
      wh.append(np.sum(d) / (B * len(g)))
    for what, w, fig in (('acceptance', wa, fa), ('hops', wh, fh)):
      y = fig[2][0][1] if fig[2] else np.zeros(0)
      rec.event(len(w), 'plotted points')
      rec.check(y.shape == (T,) and bool(np.allclose(
          y, w, rtol=1e-4, atol=1e-4)), what, '%s: plotted %s %s, observed %s'
                % (tag, what, y[:6], np.array(w)[:6]))
