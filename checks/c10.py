"""C10: energies of combinatorial problems score the given graph."""

RULE = ('one evaluation = the energy reported for one assignment of one '
        'loaded graph, compared with the problem definition on the original '
        'graph; distinct = (problem, graph, temperature, assignment)')
ASSUMPTIONS = [
    'graphs with up to 14 nodes numbered 0..n-1, loaded from files in the '
    'dataset formats the repository reads',
    'normalised cut with a balance penalty is compared without padded nodes '
    '(partition sizes count padded positions by design)',
    'float32 rounding: relative differences below 2e-4 are not reported']

KINDS = ['ba', 'er', 'optsicom', 'ertest', 'er_density', 'satlib', 'rb',
         'twitter']


def cases(tier, seed):
  out = []
  reps = 4 if tier == 'quick' else 25
  for k in range(reps):
    for kind in KINDS:
      out.append(dict(name='%s-%d' % (kind, k), fn='energy', args=dict(
          kind=kind, seed=seed * 61 + k)))
    for mode in ('quad', 'span', 'ratio', 'ratio-padded'):
      for c in (2, 3, 4):
        out.append(dict(name='normcut-%s-%d-%d' % (mode, c, k), fn='normcut',
                        args=dict(mode=mode, c=c, seed=seed * 61 + k)))
    for kind in ('er', 'ertest', 'rb'):
      out.append(dict(name='optimum-%s-%d' % (kind, k), fn='optimum',
                      args=dict(kind=kind, seed=seed * 61 + k)))
  return out


def _cnf_graph(nv, clauses):
  """Conflict graph of a 3-CNF, from the definition of the reduction."""
  import networkx as nx
  g = nx.Graph()
  lits = [(i, l) for i, cl in enumerate(clauses) for l in cl]
  g.add_nodes_from(range(len(lits)))
  for a in range(len(lits)):
    for b in range(a):
      same = lits[a][0] == lits[b][0]
      if same or lits[a][1] == -lits[b][1]:
        g.add_edge(a, b)
  return g


def _load(kind, rs, declared, penalty):
  """(model, cfg, batch, graphs) with the graphs written to disk first."""
  import importlib
  import os
  import tempfile
  import jax
  from vmon import data, mdl
  if kind != 'satlib':
    graphs = []
    for _ in range(rs.randint(2, 5)):
      n = rs.randint(2, 13)
      g = data.random_graph(rs, n, rs.choice([0.15, 0.5, 0.9]),
                            weighted=data.MODEL_OF[kind] == 'maxcut')
      graphs.append(g)
    if not any(len(g.edges()) for g in graphs):
      graphs[0].add_edge(0, 1, weight=-1.25)
    over = {} if penalty is None else dict(penalty=penalty)
    dec = None
    if declared:
      dec = (max(len(g) for g in graphs) + 2,
             max(len(g.edges()) for g in graphs) + 3)
    model, cfg, batch = mdl.graph_model(kind, graphs, declared=dec, **over)
    return model, cfg, batch, graphs
  root = tempfile.mkdtemp(dir=os.environ['VMON_SCRATCH'])
  graphs = []
  for i in range(3):
    nv = rs.randint(3, 6)
    clauses = []
    for _ in range(rs.randint(1, 5)):
      vs = rs.choice(nv, 3, replace=False) + 1
      clauses.append([int(v * rs.choice([-1, 1])) for v in vs])
    data.write_cnf(os.path.join(root, 'satlib_test', 'u%02d.cnf' % i), nv,
                   clauses)
    graphs.append(_cnf_graph(nv, clauses))
  cfg = mdl.base_config('mis', graph_type='satlib', rand_type='',
                        data_root=root, num_models=3, max_num_nodes=0,
                        max_num_edges=0, num_instances=0, num_categories=2,
                        **({} if penalty is None else dict(penalty=penalty)))
  model = importlib.import_module('discs.models.mis').build_model(cfg)
  batch = model.make_init_params(jax.random.PRNGKey(0))
  return model, cfg, batch, graphs


def energy(rec, kind, seed):
  import jax.numpy as jnp
  import numpy as np
  from vmon import data, ref
  rs = np.random.RandomState(seed)
  penalty = [None, 1.0, 2.5, 1.0001][seed % 4]
  declared = bool(rs.rand() < 0.4) and kind not in ('satlib', 'optsicom',
                                                    'er_density')
  model, cfg, batch, graphs = _load(kind, rs, declared, penalty)
  name = data.MODEL_OF[kind]
  rec.check(len(batch) >= len(graphs), 'missing', '%d of %d graphs loaded' % (
      len(batch), len(graphs)))
  n = cfg.model.shape[0]
  for (idx, params, _), g in zip(batch, graphs):
    x = rs.randint(0, 2, size=(20, n))
    x[0], x[1] = 0, 1
    for temp in (1.0, 0.07, 13.0):
      p = dict(params)
      p['temperature'] = jnp.float32(temp)
      if name == 'maxcut':
        want = ref.maxcut(g, x)
      elif name == 'mis':
        want = ref.mis(g, x, cfg.model.get('penalty', 2.0))
      else:
        want = ref.maxclique(g, x, cfg.model.get('penalty', 2.0))
      _compare(rec, '%s graph %s' % (kind, idx), model, p, x, want, temp)


def _compare(rec, tag, model, p, x, want, temp):
  import jax.numpy as jnp
  import numpy as np
  ll = np.asarray(model.forward(p, jnp.array(x, jnp.int32)), np.float64)
  llf = np.asarray(model.forward(p, jnp.array(x, jnp.float32)), np.float64) \
      if x.max() <= 1 else ll
  ev = np.asarray(model.evaluate(p, jnp.array(x, jnp.int32)), np.float64)
  scale = np.nanmax(np.abs(want)) + 1
  keep = np.isfinite(want)
  for i in np.nonzero(keep)[0]:
    rec.seen(tag, temp, x[i].tolist(), round(float(want[i]), 4))
  rec.event(3 * int(keep.sum()))
  for what, got, exp, tol in (('energy', ll, want / temp, scale / temp),
                              ('energy of float state', llf, want / temp,
                               scale / temp),
                              ('objective', ev, want, scale)):
    if got.shape != exp.shape:
      rec.fail('shape', '%s: %s of shape %s for %d states' % (
          tag, what, got.shape, len(exp)))
      return
    err = np.abs(got - exp)[keep]
    if not len(err):
      continue
    k = np.nonzero(keep)[0][int(np.argmax(np.where(np.isfinite(err), err,
                                                   np.inf)))]
    if not rec.check(bool(np.isfinite(got[keep]).all() and
                          err.max() <= 2e-4 * tol), 'energy',
                     '%s at temperature %g: %s of %s is %.6g, the graph gives '
                     '%.6g' % (tag, temp, what, x[k].tolist(), got[k], exp[k])):
      return


def normcut(rec, mode, c, seed):
  import jax.numpy as jnp
  import numpy as np
  from vmon import data, mdl, ref
  rs = np.random.RandomState(seed)
  pen = {'quad': 0.7, 'span': 1.3}.get(mode, 0.0)
  tol = 0.11
  for r in range(3):
    sizes = rs.randint(c + 1, 12, size=1 if mode != 'ratio-padded' else 3)
    graphs = [data.random_graph(rs, k, 0.5, isolated=False) for k in sizes]
    kind = 'nets' if mode != 'ratio-padded' else 'gap_rand'
    over = dict(penalty=pen, num_categories=c, tolerance=tol)
    if pen:
      over['stype'] = mode
    model, cfg, batch = mdl.graph_model(kind, graphs, **over)
    n = cfg.model.shape[0]
    for (idx, params, _), g in zip(batch, graphs):
      x = rs.randint(0, c, size=(20, n))
      x[:c, :c] = np.arange(c)
      for temp in (1.0, 0.2, 5.0):
        p = dict(params)
        p['temperature'] = jnp.float32(temp)
        want = ref.normcut(g, x, c, pen, mode, tol)
        if not np.isfinite(want).any():
          continue
        _compare(rec, 'normcut-%s graph %s' % (mode, idx), model, p, x, want,
                 temp)
        _onehot(rec, model, p, x, c)
        if not pen:
          _empty(rec, 'normcut-%s graph %s' % (mode, idx), model, p, g, c, n,
                 temp, rs)


def _empty(rec, tag, model, p, g, c, n, temp, rs):
  """Leaving a part empty is worse than any partition into c parts."""
  import jax.numpy as jnp
  import numpy as np
  # no part of a proper partition can contribute more than one
  x = rs.randint(0, c, size=(12, n))
  for k in range(len(x)):
    gone = rs.permutation(c)[:1 + k % (c - 1)]
    rest = np.setdiff1d(np.arange(c), gone)
    x[k] = np.where(np.isin(x[k], gone), rest[0], x[k])
  rec.event(len(x), 'empty')
  for what, got, scale in (
      ('energy', model.forward(p, jnp.array(x, jnp.int32)), temp),
      ('evaluation', model.evaluate(p, jnp.array(x, jnp.int32)), 1.0)):
    got = np.asarray(got, np.float64).reshape(-1) * scale
    k = int(np.argmax(np.where(np.isnan(got), np.inf, got)))
    rec.check(bool(got[k] < -c - 1e-3), 'empty-part', '%s: the %s of %s, which leaves '
              'a part empty, is %.6g: a proper partition scores at least %d' % (
                  tag, what, x[k].tolist(), got[k], -c))


def _onehot(rec, model, p, x, c):
  import jax
  import jax.numpy as jnp
  import numpy as np
  a = np.asarray(model.forward(p, jnp.array(x, jnp.int32)), np.float64)
  b = np.asarray(model.forward(p, jax.nn.one_hot(x, c, dtype=jnp.float32)),
                 np.float64)
  rec.check(bool(np.allclose(a, b, rtol=2e-4, atol=2e-4)), 'encoding',
            'one-hot and integer states differ: %s vs %s' % (a[:4], b[:4]))


def optimum(rec, kind, seed):
  """The best energy over all assignments is the optimum of the problem."""
  import itertools
  import jax.numpy as jnp
  import networkx as nx
  import numpy as np
  from vmon import data, mdl
  rs = np.random.RandomState(seed)
  for r in range(3):
    n = rs.randint(3, 8)
    g = data.random_graph(rs, n, 0.5, weighted=kind == 'er')
    if not g.edges():
      g.add_edge(0, 1, weight=1.0)
    model, cfg, batch = mdl.graph_model(
        kind, [g], declared=(n + 1, len(g.edges()) + 2))
    p = dict(batch[0][1])
    p['temperature'] = jnp.float32(0.5)
    x = np.array(list(itertools.product((0, 1), repeat=n + 1)), np.int32)
    ev = np.asarray(model.evaluate(p, jnp.array(x)), np.float64)
    rec.event(len(x))
    rec.seen(kind, sorted(map(str, g.edges())))
    if kind == 'er':
      best = max(sum(d['weight'] for u, v, d in g.edges(data=True)
                     if (m >> u & 1) != (m >> v & 1)) for m in range(2 ** n))
    else:
      h = g if kind == 'rb' else nx.complement(g)
      best = max(len(q) for q in nx.find_cliques(h))
    rec.check(abs(ev.max() - best) < 1e-3, 'optimum',
              '%s: best objective over all assignments is %.4f, the optimum '
              'of the graph is %.4f' % (kind, ev.max(), best),
              edges=sorted(map(str, g.edges(data=True))))
    top = x[int(np.argmax(ev))][:n]
    if kind == 'ertest':
      rec.check(not any(top[u] and top[v] for u, v in g.edges()), 'infeasible',
                'best assignment is not independent')
    if kind == 'rb':
      s = [v for v in range(n) if top[v]]
      rec.check(all(g.has_edge(u, v) for i, u in enumerate(s)
                    for v in s[:i]), 'infeasible',
                'best assignment is not a clique')
