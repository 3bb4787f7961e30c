"""C08: masked-out variables are frozen and the rest is sampled correctly."""

RULE = ('one evaluation = one transition of a chain with some variables '
        'masked out; distinct = (sampler, options, mask, start, end) seen')
ASSUMPTIONS = [
    'the samplers that take a mask: binary gradient-informed single-site '
    'proposals and path auxiliary (binary and categorical)',
    'a configured fixed number of flips does not exceed the number of free '
    'variables',
    'frequencies are judged at |z| > 7.5 or p < 1e-11']

VARIANTS = [
    ('gwg', dict(adaptive=True), (2,)),
    ('gwg', dict(adaptive=False), (2,)),
    ('gwg', dict(adaptive=False, num_flips=2), (2,)),
    ('path_auxiliary', dict(adaptive=True), (2, 3)),
    ('path_auxiliary', dict(adaptive=True, num_flips=2), (2, 3)),
    ('path_auxiliary', dict(adaptive=False, num_flips=1), (2, 3)),
    ('path_auxiliary', dict(adaptive=False, num_flips=2), (2, 3)),
    ('path_auxiliary', dict(adaptive=True, approx_with_grad=False), (2, 3)),
    ('path_auxiliary', dict(adaptive=False, approx_with_grad=False,
                            num_flips=2), (2, 3)),
]
MASKS = {5: [[1, 1, 0, 1, 0], [0, 0, 1, 1, 1]], 4: [[1, 0, 1, 1],
                                                    [0, 1, 1, 0]]}


def cases(tier, seed):
  out = []
  reps = 1 if tier == 'quick' else 4
  per = 1500 if tier == 'quick' else 8000
  for k in range(reps):
    for s, opts, cats in VARIANTS:
      for c in cats:
        for mi in range(2):
          for bf in ((False, True) if c == 2 else (False,)):
            # quick: one balancing weight per configuration
            w = ['SQRT', 'RATIO', 'MAX', 'MIN'][(mi + 2 * bf + k) % 4]
            out.append(dict(
                name='%s-%d-%s-m%d-%s-%d' % (s, c, '_'.join(
                    '%s%s' % kv for kv in opts.items()), mi, bf, k),
                fn='masked', cost=2 + c, args=dict(
                    sampler=s, opts=dict(opts, balancing_fn_type=w), c=c,
                    mask=MASKS[5 if c == 2 else 4][mi], batch_mask=bf, seed=seed * 77 + k, per=per)))
    for s, opts, cats in VARIANTS:
      for c in cats:
        out.append(dict(name='long-%s-%d-%s-%d' % (s, c, '_'.join(
            '%s%s' % kv for kv in opts.items()), k), fn='long', args=dict(
                sampler=s, opts=opts, c=c, seed=seed * 77 + k,
                steps=80 if tier == 'quick' else 400)))
    out.append(dict(name='padding-%d' % k, fn='padding', args=dict(
        seed=seed * 7 + k, steps=60 if tier == 'quick' else 300)))
    for j, (kind, s, opts) in enumerate([
        ('ertest', 'gwg', {}), ('ertest', 'path_auxiliary', {}),
        ('rb', 'gwg', dict(adaptive=False)),
        ('rb', 'path_auxiliary', dict(adaptive=False)),
        ('twitter', 'path_auxiliary', {}),
        ('ertest', 'path_auxiliary', dict(approx_with_grad=False))]):
      for d in (1, 2):
        out.append(dict(name='experiment-%s-%s-%d-on-%d-%d' % (
            kind, s, j, d, k), fn='experiment', devices=d, args=dict(
                kind=kind, sampler=s, opts=opts, models=[3, 1][j % 2] + d - 1,
                seed=seed * 13 + 10 * k + j)))
  return out


def experiment(rec, kind, sampler, opts, models, seed):
  """Whole annealing runs on padded graphs: the padding never moves."""
  from checks import c15
  import jax
  c15.run(rec, kind, 0, seed, smp=(sampler, opts), length=16, count=4,
          models=models * jax.local_device_count(), batch=4, log=4,
          verdict=_frozen)


def _frozen(rec, kind, cfg, graphs, refs, trace, files, model):
  import numpy as np
  from vmon import exp
  dim = int(np.prod(cfg.model.shape))
  tag = '%s/%s' % (kind, cfg.sampler.name)
  masks = {m[0]: np.asarray(m[2]['mask']).reshape(-1) > 0.5
           for b in trace.batches for m in b}
  index = {m[0]: m[1] for b in trace.batches for m in b}
  padded = 0
  for s in trace.steps:
    free = masks[int(s['id'])]
    idx = index[int(s['id'])]
    if idx >= 0:
      n = len(graphs[idx])
      rec.check(bool(free[:n].all() and not free[n:].any()), 'mask', '%s: '
                'instance %d has %d nodes, its mask is %s' % (
                    tag, idx, n, free.astype(int).tolist()))
    x, y = exp.rows(s['x'], dim), exp.rows(s['new_x'], dim)
    padded += int((~free).sum()) * len(x)
    rec.event(len(x))
    rec.seen('experiment', tag, s['t'], x.tolist())
    bad = (x != y) & ~free[None]
    if not rec.check(not bad.any(), 'mask', '%s: step %d of instance %d '
                     'changes the padding node %s' % (
                         tag, s['t'], idx, np.argwhere(bad)[:1].tolist())):
      return
  rec.sample(experiment=tag, padding_slots=padded)


def masked(rec, sampler, opts, c, mask, batch_mask, seed, per):
  import jax.numpy as jnp
  import numpy as np
  from vmon import smp, stats, table
  n = len(mask)
  shape = (n,)
  s = smp.build(sampler, shape, c, **opts)
  model = table.TableModel(shape, c)
  tab = smp.random_table(seed, n, c, 1.0)
  pi = smp.softmax(tab)
  states = table.all_states(n, c)
  # tuning reached on a flat target: large steps
  st, _ = smp.warm_state(s, model, tab * 0, 6)
  m = np.array(mask, np.float32)
  batch = 8
  xm = jnp.array(np.tile(m, (batch, 1)) if batch_mask else m)
  M = smp.transitions(s, model, tab, st, per, batch, seed, x_mask=xm)
  rec.event(M.sum())
  ii, jj = np.nonzero(M)
  frozen = np.array(mask) == 0
  for i, j in zip(ii, jj):
    rec.seen(sampler, opts, mask, i, j)
    if (states[i][frozen] != states[j][frozen]).any():
      rec.fail('mask-broken', '%s %s: with mask %s, %s moved to %s' % (
          sampler, opts, mask, states[i].tolist(), states[j].tolist()))
      return
  if np.trace(M) >= 0.999 * M.sum():
    rec.fail('frozen', 'free variables never change')
    return
  free = np.nonzero(~frozen)[0]
  moved = {int(v) for v in free
           if (states[ii][:, v] != states[jj][:, v]).any()}
  rec.check(len(moved) == len(free), 'free-frozen',
            'free variables %s never change (mask %s)' % (
                sorted(set(free.tolist()) - moved), mask))
  db = stats.detailed_balance(M, pi)
  z = np.abs(db['z'])
  p = stats.pvalue(db['z'])
  rec.sample(pairs=len(z), worst_z=float(z.max()), p=p, rare_p=db['rare_p'])
  rec.check(z.max() <= stats.Z_MAX and p >= stats.P_MIN and db['rare_p'] >
            1e-12, 'conditional',
            'with mask %s the chain is not reversible for the conditional '
            'distribution (z=%.1f, p=%.1e, rare p=%.1e)' % (
                mask, z.max(), p, db['rare_p']))


def long(rec, sampler, opts, c, seed, steps):
  """Long adaptive runs on easy targets: step sizes outgrow the free part."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import smp, table
  n = 6
  s = smp.build(sampler, (n,), c, **opts)
  model = table.TableModel((n,), c)
  rs = np.random.RandomState(seed)
  step = jax.jit(lambda k, x, st, p, m: s.step(model, k, x, p, dict(st),
                                               x_mask=m)[:2])
  for mask in ([1, 0, 1, 0, 0, 1], [0, 1, 1, 1, 1, 1], [1] * 6,
               [0, 0, 0, 1, 1, 0]):
    m = np.array(mask, np.float32)
    for scale in (0.0, 2.0):
      params = {'table': jnp.array(smp.random_table(seed, n, c, scale),
                                   jnp.float32)}
      st = s.make_init_state(jax.random.PRNGKey(seed))
      x = rs.randint(0, c, size=(4, n)).astype(np.int32)
      x0 = x.copy()
      for t in range(steps):
        key = jax.random.fold_in(jax.random.PRNGKey(seed), t)
        y, st = step(key, jnp.array(x), st, params, jnp.array(m))
        y = np.asarray(y)
        rec.event(4)
        rec.seen(sampler, opts, mask, scale, y.tolist())
        if not rec.check(bool((y[:, m == 0] == x0[:, m == 0]).all()),
                         'mask-broken', '%s %s: at step %d mask %s is not '
                         'respected: %s -> %s' % (sampler, opts, t, mask,
                                                  x.tolist(), y.tolist())):
          return
        x = y.astype(np.int32)


def padding(rec, seed, steps):
  """Padded graphs with their own mask, the way experiments run them."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import data, mdl, smp
  rs = np.random.RandomState(seed)
  for kind in ('er', 'ertest', 'rb'):
    graphs = [data.random_graph(rs, k, 0.5, weighted=kind == 'er')
              for k in (3, 5, 8)]
    model, cfg, batch = mdl.graph_model(kind, graphs)
    n = cfg.model.max_num_nodes
    for sname in ('gwg', 'path_auxiliary'):
      s = smp.build(sname, (n,), 2, co_opt=True)
      for g, (_, params, _) in zip(graphs, batch):
        params = dict(params)
        params['temperature'] = jnp.float32(3.0)
        mask = params.get('mask')
        mask = np.asarray(mask) if mask is not None else np.array(
            [1.0] * len(g) + [0.0] * (n - len(g)), np.float32)
        step = jax.jit(lambda k, x, st: s.step(model, k, x, params, dict(st),
                                               x_mask=jnp.array(mask))[:2])
        x = np.asarray(model.get_init_samples(jax.random.PRNGKey(seed), 4))
        x0 = x
        st = s.make_init_state(jax.random.PRNGKey(0))
        moved = np.zeros(n)
        for t in range(steps):
          y, st = step(jax.random.fold_in(jax.random.PRNGKey(seed + 3), t),
                       jnp.array(x), st)
          y = np.asarray(y).astype(np.int32)
          rec.event(4)
          rec.seen(kind, sname, len(g), y.tolist())
          moved += (y != x).any(0)
          if not rec.check(bool((y[:, len(g):] == x0[:, len(g):]).all()),
                           'mask-broken', '%s/%s: padded nodes of a %d-node '
                           'graph changed' % (kind, sname, len(g))):
            return
          x = y
        rec.check(moved[:len(g)].min() > 0, 'free-frozen',
                  '%s/%s: node %d of a %d-node graph never changed' % (
                      kind, sname, int(np.argmin(moved[:len(g)])), len(g)))
