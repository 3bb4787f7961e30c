"""C02: Metropolis-type samplers are reversible w.r.t. the target."""

RULE = ('one evaluation = one observed sampler transition whose flow is '
        'compared with the reverse flow; distinct = (configuration, warm-up, '
        'start state, end state) observed')
ASSUMPTIONS = [
    'targets are arbitrary energy tables over <= 32 states, log-probability '
    'spread of a few units (steeper ones are covered by C05)',
    'the kernel is observed with the tuning state of a real run frozen',
    'balance of flows is judged at |z| > 7.5 or p < 1e-11']

BIN = [((4,), 2), ((2, 2), 2)]
CAT = [((3,), 3), ((2,), 4), ((2, 1), 5)]


def configurations():
  """(sampler, options, warm-up steps, warm-up kind, spaces)."""
  fns = ['SQRT', 'RATIO', 'MAX', 'MIN']
  out = []
  def add(s, spaces, warm=3, kind='own', **opts):
    out.append((s, opts, warm, kind, spaces))
  both = BIN + CAT
  add('randomwalk', both)
  add('randomwalk', both, adaptive=False)
  add('randomwalk', [BIN[0], CAT[0]], 30, 'flat')
  for f in fns:
    add('gwg', BIN, balancing_fn_type=f)
    add('gwg', [BIN[0]], 20, 'flat', balancing_fn_type=f)
    add('gwg', [BIN[1]], adaptive=False, balancing_fn_type=f)
    add('gwg', CAT, balancing_fn_type=f)
    add('path_auxiliary', both, balancing_fn_type=f)
    add('path_auxiliary', [BIN[0], CAT[0]], 20, 'flat', balancing_fn_type=f)
    add('path_auxiliary', [BIN[1], CAT[1]], balancing_fn_type=f,
        adaptive=False, num_flips=2)
    add('dlmc', both, balancing_fn_type=f)
    add('dlmc', [BIN[0], CAT[0]], balancing_fn_type=f, adaptive=False)
    add('dlmc', [BIN[1], CAT[0]], balancing_fn_type=f,
        solver='euler_forward')
    add('dmala', both, balancing_fn_type=f)
    add('dmala', [BIN[0], CAT[0]], balancing_fn_type=f, adaptive=False)
  add('gwg', BIN, adaptive=False, num_flips=2)
  add('gwg', [BIN[0]], adaptive=False, num_flips=4)
  add('gwg', CAT, adaptive=False)
  add('path_auxiliary', both, adaptive=False)
  add('path_auxiliary', [BIN[0], CAT[0]], adaptive=False, num_flips=3)
  add('path_auxiliary', [BIN[0]], adaptive=False, num_flips=4)
  add('path_auxiliary', [BIN[0], CAT[0]], num_flips=3)
  add('path_auxiliary', both, approx_with_grad=False)
  add('path_auxiliary', [BIN[0], CAT[0]], approx_with_grad=False,
      adaptive=False, num_flips=2)
  add('dlmc', [BIN[0], CAT[0]], 251, 'own')
  # steps at which the samplers re-estimate or change schedule
  for w in (1, 20, 200, 260):
    add('dlmc', [BIN[0], CAT[0]], w, 'own')
  for w in (1, 20, 100, 140):
    add('dmala', [BIN[0], CAT[0]], w, 'own')
  add('dlmc', [BIN[0], CAT[0]], 40, 'flat')
  add('dlmc', [BIN[0], CAT[1]], adaptive=False, n=1.0)
  add('dlmc', [BIN[0], CAT[1]], adaptive=False, n=8.0)
  add('dlmc', [BIN[0], CAT[0]], reset_z_est=-1)
  add('dlmc', [BIN[0], CAT[0]], solver='euler_forward', adaptive=False, n=1.0)
  add('dmala', [BIN[0], CAT[0]], 131, 'own')
  add('dmala', [BIN[0], CAT[0]], 40, 'flat')
  add('dmala', [BIN[0], CAT[1]], adaptive=False, step_size=1.0)
  add('dmala', [BIN[0], CAT[1]], adaptive=False, step_size=0.4)
  return out


def cases(tier, seed):
  out = []
  thorough = tier != 'quick'
  for s, opts, warm, kind, spaces in configurations():
    for shape, c in spaces:
      for t in range(4 if thorough else 1):
        for scale in ([0.6, 1.0, 2.0] if thorough else [1.0]):
          name = '%s-%s-%d-%s-w%d%s-s%s-t%d' % (
              s, 'x'.join(map(str, shape)), c,
              '_'.join('%s%s' % kv for kv in sorted(opts.items())),
              warm, kind, scale, t)
          out.append(dict(
              name=name, fn='balance', cost=c ** _n(shape),
              args=dict(sampler=s, shape=shape, c=c, opts=opts, warm=warm,
                        kind=kind, scale=scale, seed=seed * 977 + t * 13,
                        per=40000 if thorough else 12000)))
  # steeper targets: large gradients, rare states, saturating proposals
  for s in ('randomwalk', 'gwg', 'path_auxiliary', 'dlmc', 'dmala'):
    for shape, c in (BIN[0], CAT[0]):
      for scale in ([3.0, 4.5, 6.0] if thorough else [4.0]):
        out.append(dict(
            name='%s-%s-%d-steep%s' % (s, 'x'.join(map(str, shape)), c, scale),
            fn='balance', cost=c ** _n(shape),
            args=dict(sampler=s, shape=shape, c=c, opts={}, warm=3,
                      kind='own', scale=scale, seed=seed * 977 + 7,
                      per=80000 if thorough else 24000)))
  return out


def _n(shape):
  n = 1
  for d in shape:
    n *= d
  return n


def balance(rec, sampler, shape, c, opts, warm, kind, scale, seed, per):
  import numpy as np
  from vmon import smp, stats, table
  s = smp.build(sampler, shape, c, **opts)
  model = table.TableModel(shape, c)
  tab = smp.random_table(seed, model.n, c, scale)
  pi = smp.softmax(tab)
  states = table.all_states(model.n, c)
  st, _ = smp.warm_state(s, model, tab if kind == 'own' else tab * 0, warm)
  batch = 5 if sampler == 'randomwalk' else 16
  if sampler in smp.BATCH_STATS and warm % 20 == 0:
    batch = 1        # what depends on the batch depends on the chain
  M = smp.transitions(s, model, tab, st, per, batch, seed)
  rec.event(M.sum())
  for i, j in zip(*np.nonzero(M)):
    rec.seen(sampler, shape, c, opts, warm, kind, i, j)
  db = stats.detailed_balance(M, pi)
  zs = stats.stationarity(M, pi)
  worst = float(np.abs(db['z']).max()) if len(db['z']) else 0.0
  p = stats.pvalue(db['z'])
  rec.sample(tuning={k: float(v) for k, v in st.items()}, pairs=len(db['z']),
             worst_z=worst, overall_p=p, rare_p=db['rare_p'],
             stationarity_z=float(np.abs(zs).max()),
             stay=float(np.trace(M) / M.sum()))
  if np.trace(M) >= M.sum() * 0.9999 or len(db['z']) == 0:
    rec.fail('frozen', 'the chain practically never moves', counts=M.sum(0))
    return
  k = int(np.argmax(np.abs(db['z'])))
  rec.check(worst <= stats.Z_MAX and p >= stats.P_MIN, 'not-reversible',
            'flow %s -> %s is %.5f but back %.5f (z=%.1f, overall p=%.1e)' % (
                states[db['i'][k]].tolist(), states[db['j'][k]].tolist(),
                db['flow'][k], db['back'][k], db['z'][k], p),
            table=tab, tuning={k: float(v) for k, v in st.items()})
  rec.check(np.abs(zs).max() <= stats.Z_MAX, 'not-invariant',
            'one step changes the probability of state %s (z=%.1f)' % (
                states[int(np.argmax(np.abs(zs)))].tolist(),
                np.abs(zs).max()), table=tab)
  rec.check(db['rare_p'] >= 1e-12, 'not-reversible',
            'rare transitions %s unbalanced (p=%.1e)' % (db['rare'],
                                                         db['rare_p']))
