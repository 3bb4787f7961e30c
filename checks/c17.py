"""C17: annealed importance sampling estimates the partition function."""

RULE = ('one evaluation = one chain weight update of a real AIS run, '
        'recomputed from the states observed and the parameters in the '
        'checkpoint; distinct = (checkpoint, sampler, step, states)')
ASSUMPTIONS = [
    'image models with at most 16 pixels and 2 to 4 channels, checkpoints '
    'written by the harness in the format training leaves them',
    'the estimate is compared with the exactly enumerated partition function '
    'at 7 standard errors or a bound of probability 1e-10, whichever is wider']

SAMPLERS = [('gibbs', {}), ('randomwalk', {}), ('gwg', {}),
            ('path_auxiliary', {}), ('dlmc', {}), ('dmala', {}),
            ('dlmc', dict(solver='euler_forward')),
            ('path_auxiliary', dict(adaptive=False, num_flips=1))]


def cases(tier, seed):
  out = []
  for k in range(3 if tier == 'quick' else 16):
    for i, (s, _) in enumerate(SAMPLERS):
      out.append(dict(name='weights-%s%d-%d' % (s, i, k), fn='weights',
                      args=dict(pick=i, seed=seed * 89 + k * 10 + i)))
  for k in range(1 if tier == 'quick' else 6):
    for i, (s, _) in enumerate(SAMPLERS):
      out.append(dict(name='exact-%s%d-%d' % (s, i, k), fn='exact', cost=3,
                      args=dict(pick=i, seed=seed * 97 + k * 10 + i)))
  from checks import c15
  out += c15._several(tier, seed, 'ais')
  return out


def several(rec, which, **args):
  from checks import c15
  c15.several(rec, which, **args)


def setup(pick, seed, side, batch, length, parallel=True, channels=None,
          spread=1.5):
  from vmon import exp, mdl
  cfg, p = mdl.trained_resnet(side, channels or 2 + seed % 3, seed,
                              spread=spread)
  name, opts = SAMPLERS[pick]
  exp.sampler_conf(cfg, name, **opts)
  exp.set_exp(cfg, name='EBM_Experiment', batch_size=batch,
              chain_length=length, run_parallel=parallel)
  return cfg, p


def weights(rec, pick, seed):
  import numpy as np
  from vmon import exp
  rs = np.random.RandomState(seed)
  side = int(rs.choice([3, 4]))
  cfg, p = setup(pick, seed, side, int(rs.choice([1, 2, 5, 16])),
                 int(rs.choice([1, 3, 10, 24])))
  trace, files = exp.run(cfg)
  judge(rec, cfg, p, side, trace, files)


def exact(rec, pick, seed):
  from vmon import exp
  cfg, p = setup(pick, seed, 3, 4000, 12, channels=3, spread=0.6)
  trace, files = exp.run(cfg)
  judge(rec, cfg, p, 3, trace, files, exact_z=True)


def judge(rec, cfg, p, side, trace, files, exact_z=False):
  import numpy as np
  from vmon import exp, ref, table
  e = cfg.experiment
  dim = side * side
  T, B = e.chain_length, e.batch_size
  tag = 'ais/%s' % cfg.sampler.name
  net = {k: v for k, v in p.items() if k not in ('data_mean', 'temperature')}
  m = np.asarray(p['data_mean'], np.float64)
  per = exp.by_step(trace.steps)
  if not rec.check(sorted(per) == list(range(1, T + 1)) and all(
      sum(len(exp.rows(s['x'], dim)) for s in v) == B for v in per.values()),
                   'steps', '%s: %d steps instead of %d, or not with %d '
                   'chains' % (tag, len(per), T, B)):
    return
  keys = [s['rng'].tobytes() for s in trace.steps]
  rec.check(len(set(keys)) == len(keys), 'randomness', '%s: steps share '
            'random keys' % tag)
  tags = sorted({s['tag'] for s in per[1]})
  log_w = {k: 0.0 for k in tags}
  want, prev = [], {}
  cache = {}
  def energies(x):
    new = [r for r in {tuple(r) for r in x.tolist()} if r not in cache]
    if new:
      for r, v in zip(new, ref.resnet(net, np.array(new), side)):
        cache[r] = v
    return np.array([cache[tuple(r)] for r in x.tolist()])
  for t in range(1, T + 1):
    for s in per[t]:
      if not rec.check(abs(float(s['temperature']) - t / T) < 1e-5,
                       'temperature', '%s: step %d of %d sampled at inverse '
                       'temperature %g' % (tag, t, T, s['temperature'])):
        return
      x = exp.rows(s['x'], dim)
      if t > 1 and not rec.check(np.array_equal(prev.get(s['tag']), x),
                                 'continuity', '%s: step %d does not continue '
                                 'from the previous one' % (tag, t)):
        return
      log_w[s['tag']] = log_w[s['tag']] + energies(x) / T
      rec.seen(tag, t, x.tolist()[:4], float(np.sum(log_w[s['tag']])))
    rec.event(B, 'weight updates')
    prev = {s['tag']: exp.rows(s['new_x'], dim) for s in per[t]}
    w = np.concatenate([log_w[k] for k in tags])
    want.append(np.log(np.mean(np.exp(w - w.max()))) + w.max())
  x0 = np.concatenate([exp.rows(s['x'], dim) for s in per[1]])
  rec.check(any(exp.multiset(x0) == exp.multiset(exp.rows(x, dim))
                for _, x in trace.inits), 'start', '%s: chains do not start '
            'at initial samples of the model' % tag)
  if 'logz.pkl' not in files:
    rec.fail('missing', '%s: no logz.pkl' % tag)
    return
  got = np.asarray(files['logz.pkl']['logz'], np.float64)
  want = np.array(want)
  if not rec.check(got.shape == want.shape, 'shape', '%s: %s estimates for %d '
                   'steps' % (tag, got.shape, T)):
    return
  rec.check(bool(np.allclose(got, want, rtol=2e-4, atol=3e-4)), 'logz',
            '%s: estimates %s, the observed chains give %s' % (
                tag, got[-4:], want[-4:]))
  if exact_z:
    xs = table.all_states(dim, 2)
    base = xs @ np.log(m) + (1 - xs) @ np.log1p(-m)
    z = np.exp(base + ref.resnet(net, xs, side)).sum()
    w = np.exp(np.concatenate([log_w[k] for k in tags]))
    se = w.std() / np.sqrt(len(w)) + 1e-12
    # weights lie in [0, top] and have mean z, so their variance is at most
    # z * top: Bernstein's inequality at probability 2 exp(-24)
    top = np.exp(ref.resnet(net, xs, side).max())
    slack = np.sqrt(2 * 24 * z * top / len(w)) + 2 / 3 * 24 * top / len(w)
    lim = max(7 * se, slack)
    rec.sample(sampler=cfg.sampler.name, exact=float(np.log(z)),
               estimate=float(got[-1]), relative_error=float(se / z),
               reported_from=float(lim / z))
    rec.check(abs(w.mean() - z) < lim, 'biased', '%s: estimate %g of log Z = '
              '%g with standard error %g' % (tag, got[-1], np.log(z), se / z))
    dev = np.abs(x0.mean(0) - m) / np.sqrt(m * (1 - m) / len(x0))
    rec.check(bool(dev.max() < 7), 'start', '%s: initial pixels are on with '
              'frequency %s, the base distribution says %s' % (
                  tag, x0.mean(0)[dev.argmax()], m[dev.argmax()]))
