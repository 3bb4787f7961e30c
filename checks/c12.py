"""C12: neighbourhood log-ratios are the exact single-change energy changes."""

RULE = ('one evaluation = one single-variable change whose reported log-ratio '
        'is compared with the difference of the two energies; distinct = '
        '(model, graph or parameters, state, change)')
ASSUMPTIONS = ['float32 rounding: relative differences below 3e-4 are not '
               'reported', 'padded nodes are not neighbours and are skipped']


def cases(tier, seed):
  out = []
  reps = 4 if tier == 'quick' else 20
  for k in range(reps):
    for shape in [(1,), (6,), (2, 3), (2, 2, 2)]:
      out.append(dict(name='bernoulli-%s-%d' % ('x'.join(map(str, shape)), k),
                      fn='bernoulli', args=dict(shape=shape,
                                                seed=seed * 47 + k)))
    for kind in ('ba', 'er', 'optsicom', 'ertest', 'er_density'):
      out.append(dict(name='%s-%d' % (kind, k), fn='graph', args=dict(
          kind=kind, seed=seed * 47 + k)))
    for mode in ('quad', 'span', 'ratio', 'ratio-padded', 'quad-padded'):
      for c in (2, 3, 5):
        out.append(dict(name='normcut-%s-%d-%d' % (mode, c, k), fn='normcut',
                        args=dict(mode=mode, c=c, seed=seed * 47 + k)))
  return out


def _compare(rec, tag, model, params, x, c, active, enc):
  """enc: encoding of the states handed to logratio (as samplers do)."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  x = np.asarray(x, np.int32)
  B = len(x)
  n = int(np.prod(x.shape[1:]))
  z = {'int': lambda v: jnp.array(v, jnp.int32),
       'float': lambda v: jnp.array(v, jnp.float32),
       'onehot': lambda v: jax.nn.one_hot(v, c, dtype=jnp.float32)}[enc](x)
  ll, ratio, calls, fn = model.logratio_in_neighborhood(params, z)
  ll, ratio = np.asarray(ll, np.float64), np.asarray(ratio, np.float64)
  want_shape = x.shape if (c == 2 and enc != 'onehot') else x.shape + (c,)
  if not rec.check(ratio.shape == want_shape and ll.shape == (B,), 'shape',
                   '%s: log-ratios %s and energies %s for states %s' % (
                       tag, ratio.shape, ll.shape, x.shape)):
    return
  rec.check(int(calls) >= 1, 'calls', '%s: %s evaluations declared' % (
      tag, calls))
  base = np.asarray(model.forward(params, jnp.array(x, jnp.int32)), np.float64)
  scale = np.abs(base).max() + 1
  rec.check(bool(np.abs(base - ll).max() <= 3e-4 * scale), 'energy',
            '%s: energy %s reported along, %s by the model' % (
                tag, ll[:3], base[:3]))
  xf = x.reshape(B, n)
  r = ratio.reshape(B, n, -1)
  ys, want_idx = [], []
  for i in range(B):
    for j in range(n):
      if not active[j]:
        continue
      for v in range(c):
        if v == xf[i, j] and r.shape[-1] == 1:
          continue
        y = xf[i].copy()
        y[j] = v
        ys.append(y)
        want_idx.append((i, j, v))
  e = np.asarray(model.forward(params, jnp.array(np.array(ys).reshape(
      (-1,) + x.shape[1:]), jnp.int32)), np.float64)
  for (i, j, v), ey, y in zip(want_idx, e, ys):
    got = r[i, j, 0 if r.shape[-1] == 1 else v]
    want = ey - base[i]
    if not np.isfinite(want) or abs(ey) > 1e5 or abs(base[i]) > 1e5:
      continue
    rec.event(1)
    rec.seen(tag, xf[i].tolist(), j, v, round(want, 4))
    if not rec.check(abs(got - want) <= 3e-4 * (scale + abs(want)), 'logratio',
                     '%s (%s): changing variable %d of %s to %d reported as '
                     '%.6g, the energies differ by %.6g' % (
                         tag, enc, j, xf[i].tolist(), v, got, want)):
      return
  if fn is not None and r.shape[-1] == 1:
    idx = np.array([[j for j in range(n) if active[j]][i % sum(active)]
                    for i in range(B)])
    y = np.asarray(fn(params, z, jnp.array(idx))).reshape(B, n)
    ok = all((y[i] != xf[i]).sum() == 1 and y[i][idx[i]] == 1 - xf[i][idx[i]]
             for i in range(B))
    rec.check(bool(ok), 'neighbour', '%s: the neighbour function does not '
              'change exactly the requested variable' % tag)


def bernoulli(rec, shape, seed):
  import jax
  import numpy as np
  from vmon import mdl
  rs = np.random.RandomState(seed)
  shape = tuple(shape)
  model, _ = mdl.classical('bernoulli', shape=shape, init_sigma=1.5)
  p = model.make_init_params(jax.random.PRNGKey(seed))
  n = int(np.prod(shape))
  x = rs.randint(0, 2, size=(6,) + shape)
  for enc in ('int', 'float'):
    _compare(rec, 'bernoulli%s' % (shape,), model, p, x, 2, [True] * n, enc)


def graph(rec, kind, seed):
  import jax.numpy as jnp
  import numpy as np
  from vmon import data, mdl
  rs = np.random.RandomState(seed)
  graphs = [data.random_graph(rs, rs.randint(2, 11), 0.5,
                              weighted=data.MODEL_OF[kind] == 'maxcut')
            for _ in range(3)]
  if not any(len(g.edges()) for g in graphs):
    graphs[0].add_edge(0, 1, weight=0.75)
  model, cfg, batch = mdl.graph_model(kind, graphs)
  n = cfg.model.shape[0]
  for g, (idx, params, _) in zip(graphs, batch):
    for temp in (1.0, 0.25):
      p = dict(params)
      p['temperature'] = jnp.float32(temp)
      x = rs.randint(0, 2, size=(6, n))
      for enc in ('int', 'float'):
        _compare(rec, '%s-%s-t%g' % (kind, idx, temp), model, p, x, 2,
                 [j < len(g) for j in range(n)], enc)


def normcut(rec, mode, c, seed):
  import jax.numpy as jnp
  import numpy as np
  from vmon import data, mdl
  rs = np.random.RandomState(seed)
  padded = mode.endswith('padded')
  kind = 'gap_rand' if padded else 'nets'
  base = mode.split('-')[0]
  pen = {'quad': 0.7, 'span': 1.3}.get(base, 0.0)
  sizes = rs.randint(c + 2, c + 7, size=2 if padded else 1)
  graphs = [data.random_graph(rs, k, 0.6, isolated=False) for k in sizes]
  over = dict(penalty=pen, num_categories=c, tolerance=0.07)
  if pen:
    over['stype'] = base
  model, cfg, batch = mdl.graph_model(kind, graphs, **over)
  n = cfg.model.shape[0]
  for g, (idx, params, _) in zip(graphs, batch):
    for temp in (1.0, 0.5):
      p = dict(params)
      p['temperature'] = jnp.float32(temp)
      x = rs.randint(0, c, size=(5, n))
      x[:, :c] = np.arange(c)
      _compare(rec, 'normcut-%s-%s' % (mode, idx), model, p, x, c,
               [j < len(g) for j in range(n)], 'onehot')
