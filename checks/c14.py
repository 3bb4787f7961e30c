"""C14: graph instances reach the models complete, unchanged, exactly once."""

RULE = ('one evaluation = one loaded instance (or one generated graph) '
        'compared with the instance written to disk; distinct = (dataset '
        'kind, batch size, instance contents)')
ASSUMPTIONS = [
    'datasets written by the harness in the formats the loaders read; the '
    'benchmark datasets themselves are not available offline',
    'several processes are simulated by replacing the process index and count '
    'that the loader asks jax for']

KINDS = ['ba', 'er', 'optsicom', 'ertest', 'er_density', 'satlib', 'rb',
         'twitter', 'gap_rand', 'nets']


def cases(tier, seed):
  out = []
  reps = 2 if tier == 'quick' else 10
  for k in range(reps):
    for kind in KINDS:
      for bs in ((1, 2, 3, 5, 8) if kind != 'nets' else (1, 2, 4)):
        out.append(dict(name='load-%s-%d-%d' % (kind, bs, k), fn='load',
                        args=dict(kind=kind, bs=bs, seed=seed * 59 + k)))
    for kind in ('er', 'ertest', 'rb', 'gap_rand'):
      for procs in (2, 3, 4):
        out.append(dict(name='procs-%s-%d-%d' % (kind, procs, k), fn='procs',
                        args=dict(kind=kind, procs=procs, seed=seed * 59 + k)))
    out.append(dict(name='satlib-%d' % k, fn='satlib', args=dict(
        seed=seed * 59 + k)))
    out.append(dict(name='instances-%d' % k, fn='instances', args=dict(
        seed=seed * 59 + k)))
    out.append(dict(name='connected-%d' % k, fn='connected', args=dict(
        seed=seed * 59 + k)))
    out.append(dict(name='edges-%d' % k, fn='edges', args=dict(
        seed=seed * 59 + k)))
  return out


def _graphs(kind, rs, count):
  from vmon import data
  out = []
  for _ in range(count):
    n = rs.randint(3, 14)
    g = data.random_graph(rs, n, rs.choice([0.2, 0.5, 0.8]),
                          weighted=data.MODEL_OF[kind] == 'maxcut',
                          isolated=kind not in ('nets', 'gap_rand'))
    if not g.edges():
      g.add_edge(0, n - 1, weight=-2.5)
    out.append(g)
  return out


def _same(rec, tag, params, g, weighted, nmax, masked):
  """The parameters describe exactly the edges (and weights) of g."""
  import numpy as np
  ef, et = np.asarray(params['edge_from']), np.asarray(params['edge_to'])
  em = np.asarray(params['edge_mask'])
  live = em.astype(bool)
  got = sorted(tuple(sorted(e)) for e in zip(ef[live].tolist(),
                                             et[live].tolist()))
  want = sorted(tuple(sorted(e)) for e in g.edges())
  rec.event(1)
  rec.seen(tag, want)
  if not rec.check(got == want, 'edges', '%s: edges %s loaded, %s in the '
                   'dataset' % (tag, got[:8], want[:8])):
    return False
  if weighted:
    w = np.asarray(params['edge_weight'], np.float64)
    rec.check(bool((w[~live] == 0).all()), 'padding', '%s: padded edges have '
              'weight' % tag)
    for i in np.nonzero(live)[0]:
      ww = g[int(ef[i])][int(et[i])]['weight']
      if not rec.check(abs(w[i] - ww) < 1e-5 * (abs(ww) + 1), 'weights',
                       '%s: weight of edge (%d, %d) is %g, was %g' % (
                           tag, ef[i], et[i], w[i], ww)):
        return False
  bf, bt = params.get('bidir_edge_from'), params.get('bidir_edge_to')
  if bf is not None:
    m = len(live)
    both = np.concatenate([live, live])
    pairs = sorted(zip(np.asarray(bf)[both].tolist(),
                       np.asarray(bt)[both].tolist()))
    exp = sorted([(u, v) for u, v in g.edges()] + [(v, u)
                                                   for u, v in g.edges()])
    rec.check(len(bf) == 2 * m and pairs == exp, 'bidirectional',
              '%s: directed edge list wrong' % tag)
    if weighted:
      bw = np.asarray(params['bidir_edge_weight'], np.float64)
      tot = sum(d['weight'] for _, _, d in g.edges(data=True))
      rec.check(abs(bw.sum() - 2 * tot) < 1e-3 * (np.abs(bw).sum() + 1),
                'weights', '%s: directed weights sum to %g, expected %g' % (
                    tag, bw.sum(), 2 * tot))
  if masked:
    mask = np.asarray(params['mask']).astype(int)
    rec.check(mask.tolist() == [1] * len(g) + [0] * (nmax - len(g)), 'mask',
              '%s: node mask %s for %d of %d nodes' % (
                  tag, mask.tolist(), len(g), nmax))
    if params.get('num_nodes') is not None:
      rec.check(int(np.asarray(params['num_nodes'])) == len(g), 'nodes',
                '%s: %s nodes recorded, %d in the graph' % (
                    tag, params['num_nodes'], len(g)))
  if 'node_degrees' in params:
    deg = np.asarray(params['node_degrees']).astype(int).tolist()
    rec.check(deg == [g.degree(v) for v in range(len(g))] + [0] * (
        nmax - len(g)), 'degrees', '%s: node degrees %s' % (tag, deg))
  return True


def load(rec, kind, bs, seed):
  import importlib
  import os
  import tempfile
  import jax
  import numpy as np
  from vmon import data, mdl
  rs = np.random.RandomState(seed * 7 + bs)
  count = 1 if kind == 'nets' else rs.randint(1, 8)
  graphs = _graphs(kind, rs, count)
  refs = [1 + i for i in range(count)]
  if kind == 'ertest':
    refs = [min(r, len(g)) for r, g in zip(refs, graphs)]
  if kind == 'satlib':
    from checks import c10
    root = tempfile.mkdtemp(dir=os.environ['VMON_SCRATCH'])
    graphs = []
    for i in range(count):
      nv = rs.randint(3, 6)
      cl = []
      for _ in range(rs.randint(1, 6)):
        vs = rs.choice(nv, 3, replace=False) + 1
        cl.append([int(v * rs.choice([-1, 1])) for v in vs])
      data.write_cnf(os.path.join(root, 'satlib_test', 'u%02d.cnf' % i), nv,
                     cl)
      graphs.append(c10._cnf_graph(nv, cl))
    with open(os.path.join(root, 'satlib_test', 'README'), 'w') as f:
      f.write('not an instance')
    cfg = mdl.base_config('mis', graph_type='satlib', rand_type='',
                          data_root=root, num_models=bs, max_num_nodes=0,
                          max_num_edges=0, num_instances=0, num_categories=2)
    if rs.rand() < 0.5:
      with cfg.unlocked():
        cfg.model.max_num_nodes = max(len(g) for g in graphs) + 2
        cfg.model.max_num_edges = max(len(g.edges()) for g in graphs) + 1
        cfg.model.num_instances = count
  else:
    declared = None
    if kind in ('ba', 'er', 'ertest', 'rb', 'twitter', 'gap_rand') and \
        rs.rand() < 0.5:
      declared = (max(len(g) for g in graphs) + 1,
                  max(len(g.edges()) for g in graphs) + 2)
    cfg = mdl.graph_config(kind, graphs, refs, bs, declared=declared,
                           files=rs.randint(1, 4), num_categories=3
                           if data.MODEL_OF[kind] == 'normcut' else 2)
  name = data.MODEL_OF[kind]
  model = importlib.import_module('discs.models.' + name).build_model(cfg)
  n = cfg.model.shape[0]
  rec.check(n >= max(len(g) for g in graphs), 'size', '%s: %d variables for a '
            '%d-node graph' % (kind, n, max(len(g) for g in graphs)))
  seen = []
  batches = 0
  while True:
    batch = model.make_init_params(jax.random.PRNGKey(0))
    if batch is None:
      break
    batches += 1
    if not rec.check(len(batch) == bs, 'batch-size', '%s: batch of %d instead '
                     'of %d' % (kind, len(batch), bs)) or batches > 50:
      break
    for idx, params, ref in batch:
      idx = int(idx)
      if idx < 0:
        rec.event(1, 'dummies')
        continue
      seen.append(idx)
      if idx >= count:
        continue
      want = {'satlib': 1.0, 'er_density': 1, 'nets': 1.0,
              'gap_rand': 1.0}.get(kind, refs[idx])
      rec.check(float(ref) == float(want), 'reference', '%s: instance %d '
                'carries reference %s instead of %s' % (kind, idx, ref, want))
      if not _same(rec, '%s[%d] batch %d' % (kind, idx, bs), params,
                   graphs[idx], name == 'maxcut', n, name != 'maxcut'):
        return
  rec.check(sorted(seen) == list(range(count)), 'exactly-once',
            '%s: %d instances in batches of %d came out as %s' % (
                kind, count, bs, seen))
  rec.check(batches == -(-count // bs), 'batches', '%s: %d batches of %d for %d '
            'instances' % (kind, batches, bs, count))


def procs(rec, kind, procs, seed):
  import jax
  import numpy as np
  from discs.graph_loader import graph_gen
  from vmon import mdl
  rs = np.random.RandomState(seed)
  count = rs.randint(1, 12)
  graphs = _graphs(kind, rs, count)
  refs = [min(1 + i, len(g)) for i, g in enumerate(graphs)]
  real = jax.process_index, jax.process_count
  for local in (1, 2, 3):
    seen, lens = [], []
    try:
      for p in range(procs):
        cfg = mdl.graph_config(kind, graphs, refs, 1, num_categories=3 if
                               kind == 'gap_rand' else 2)
        gen = graph_gen.get_graphs(cfg)
        jax.process_index = lambda p=p: p
        jax.process_count = lambda: procs
        got = list(gen.get_iterator('test', local * procs, sharding=True))
        jax.process_index, jax.process_count = real
        lens.append(len(got))
        for b in got:
          rec.check(len(b) == local, 'batch-size', 'process %d got a batch of '
                    '%d instead of %d' % (p, len(b), local))
          for idx, params, ref in b:
            if int(idx) >= 0:
              seen.append(int(idx))
              _same(rec, '%s[%d] process %d' % (kind, idx, p), params,
                    graphs[int(idx)], kind == 'er', gen.max_num_nodes,
                    kind != 'er')
    finally:
      jax.process_index, jax.process_count = real
    rec.seen('procs', kind, procs, local, count, lens)
    rec.check(sorted(seen) == list(range(count)), 'exactly-once',
              '%d instances over %d processes came out as %s' % (
                  count, procs, sorted(seen)))
    rec.check(len(set(lens)) == 1, 'lockstep', 'processes got %s batches' %
              lens)


def satlib(rec, seed):
  """Largest independent set = number of clauses iff satisfiable."""
  import itertools
  import os
  import tempfile
  import networkx as nx
  import numpy as np
  from discs.graph_loader import graph_gen
  from vmon import data, mdl
  rs = np.random.RandomState(seed)
  root = tempfile.mkdtemp(dir=os.environ['VMON_SCRATCH'])
  formulas = []
  for i in range(12):
    nv = 3
    m = rs.randint(2, 9)
    cl = []
    for _ in range(m):
      vs = rs.permutation(3) + 1
      cl.append([int(v * rs.choice([-1, 1])) for v in vs])
    if i == 0:   # all sign patterns: unsatisfiable
      cl = [[a, 2 * b, 3 * c] for a in (1, -1) for b in (1, -1)
            for c in (1, -1)]
    formulas.append((nv, cl))
    data.write_cnf(os.path.join(root, 'satlib_test', 'f%02d.cnf' % i), nv, cl)
  cfg = mdl.base_config('mis', graph_type='satlib', rand_type='',
                        data_root=root, num_models=1, max_num_nodes=0,
                        max_num_edges=0, num_instances=0, num_categories=2)
  gen = graph_gen.get_graphs(cfg)
  got = list(gen.sample_gen('test'))
  rec.check(len(got) == len(formulas), 'exactly-once', '%d of %d formulas' % (
      len(got), len(formulas)))
  for (nv, cl), (g, _) in zip(formulas, got):
    sat = any(all(any((v[abs(l) - 1] == 1) == (l > 0) for l in c)
                  for c in cl) for v in itertools.product((0, 1), repeat=nv))
    best = max(len(c) for c in nx.find_cliques(nx.complement(g)))
    rec.seen('cnf', cl)
    rec.check(len(g) == 3 * len(cl), 'reduction', '%d nodes for %d clauses' % (
        len(g), len(cl)))
    rec.check((best == len(cl)) == sat and best <= len(cl), 'reduction',
              'formula %s is %ssatisfiable but the largest independent set '
              'has %d of %d' % (cl, '' if sat else 'not ', best, len(cl)))


def instances(rec, seed):
  """The ten cubic lattices shipped as text files, read and re-weighted."""
  import os
  import tempfile
  import numpy as np
  from discs.graph_loader import graph_gen
  from discs.graph_loader import maxcut_loader
  from vmon import mdl
  rs = np.random.RandomState(seed)
  root = tempfile.mkdtemp(dir=os.environ['VMON_SCRATCH'])
  os.makedirs(os.path.join(root, 'optsicom'))
  graphs = []
  for i in range(1, 11):
    n = rs.randint(4, 9)
    edges = {(u, (u + 1) % n) if u + 1 < n else (0, u) for u in range(n)}
    for _ in range(rs.randint(1, 6)):
      u, v = sorted(rs.choice(n, 2, replace=False).tolist())
      edges.add((u, v))
    edges = sorted(edges)
    edges = [edges[j] for j in rs.permutation(len(edges))]
    w = {e: int(rs.choice([-2, -1, 1, 3])) for e in edges}
    graphs.append((n, w))
    with open(os.path.join(root, 'optsicom', 'sg3dl05%d000.mc' % i), 'w') as f:
      f.write('%d %d\n' % (n, len(edges)))
      for u, v in edges:
        a, b = (u, v) if rs.rand() < 0.5 else (v, u)
        f.write('%d %d %d\n' % (a + 1, b + 1, w[(u, v)]))
  real = maxcut_loader.__file__
  maxcut_loader.__file__ = os.path.join(root, 'maxcut_loader.py')
  try:
    for rt in ('0.5', '2', '1b', 'bb'):
      cfg = mdl.base_config('maxcut', graph_type='optsicom', rand_type=rt,
                            data_root=root, num_models=3, num_categories=2)
      gen = graph_gen.get_graphs(cfg)
      rec.check(gen.num_instances == 10, 'count', '%d of 10 instances' %
                gen.num_instances)
      rec.check((gen.max_num_nodes, gen.max_num_edges) == (
          max(n for n, _ in graphs), max(len(w) for _, w in graphs)), 'size',
                'largest instance is said to have %d nodes and %d edges' % (
                    gen.max_num_nodes, gen.max_num_edges))
      got = list(gen.sample_gen('test'))
      if not rec.check(len(got) == 10, 'exactly-once', '%d of 10 instances '
                       'came out' % len(got)):
        return
      for i, ((n, w), (g, _)) in enumerate(zip(graphs, got)):
        have = {tuple(sorted(e[:2])): e[2]['weight'] for e in
                g.edges(data=True)}
        rec.seen('optsicom', rt, sorted(have.items()))
        rec.event(1)
        rec.check(len(g) == n and have == w, 'edges', 'instance %d read as %s, '
                  'the file has %s' % (i, sorted(have.items())[:5],
                                       sorted(w.items())[:5]))
      if not hasattr(gen, 'gen_graph'):
        continue
      np.random.seed(seed)
      diffs = []
      for r in range(60):
        i = rs.randint(10)
        g = gen.gen_graph(i, rand_weight=True)
        n, w = graphs[i]
        have = {tuple(sorted(e[:2])): e[2]['weight'] for e in
                g.edges(data=True)}
        if not rec.check(len(g) == n and set(have) == set(w), 'edges',
                         're-weighted instance %d has other edges' % i):
          return
        diffs += [have[e] - w[e] for e in w] if rt != 'bb' else list(
            have.values())
      d = np.array(diffs)
      if rt == 'bb':                       # -1 or 1, plus the bias of 1
        ok = set(d.tolist()) == {0.0, 2.0} and abs(d.mean() - 1) < 0.3
      else:
        sd = float(rt.rstrip('b'))
        m = 1.0 if rt.endswith('b') else 0.0
        ok = abs(d.mean() - m) < 6 * sd / len(d) ** .5 and \
            0.8 < d.std() / sd < 1.25
      rec.event(len(d))
      rec.check(ok, 'reweighted', 'weights redrawn with %r differ from the '
                'original by %.3g on average, spread %.3g' % (
                    rt, d.mean(), d.std()))
  finally:
    maxcut_loader.__file__ = real


def connected(rec, seed):
  import networkx as nx
  import numpy as np
  from discs.graph_loader import common
  np.random.seed(seed)
  for r in range(25):
    lo = 5 + r % 4
    hi = lo + r % 5
    for kw in (dict(g_type='erdos_renyi', er_p=0.45),
               dict(g_type='barabasi_albert', ba_m=2)):
      for w in (None, 'int', 'uniform', 'normal'):
        args = dict(kw)
        t = args.pop('g_type')
        if w == 'normal':
          args.update(w_type=w, w_std=0.1, w_mean=5.0)
        elif w:
          args.update(w_type=w, w_min=-3, w_max=4)
        g = common.gen_connected(t, lo, hi, **args)
        rec.event(1)
        if g is None:
          continue
        rec.seen('gen', t, w, sorted(map(str, g.edges())))
        ok = (lo <= len(g) <= hi and nx.is_connected(g) and
              sorted(g.nodes()) == list(range(len(g))))
        if w == 'int':
          ok = ok and all(d['weight'] in range(-3, 4)
                          for _, _, d in g.edges(data=True))
        elif w == 'uniform':
          ok = ok and all(-3 <= d['weight'] <= 4
                          for _, _, d in g.edges(data=True))
        elif w == 'normal':
          ok = ok and all(3.5 < d['weight'] < 6.5
                          for _, _, d in g.edges(data=True))
        if not rec.check(bool(ok), 'generated', '%s %s: not a connected '
                         'weighted graph on 0..n-1 with %d to %d nodes: %s' % (
                             t, args, lo, hi, sorted(map(str, g.edges(
                                 data=True)))[:6])):
          return


def edges(rec, seed):
  """The edge-list conversion itself, padded and not."""
  import numpy as np
  from discs.common import utils
  from vmon import data
  rs = np.random.RandomState(seed)
  for r in range(40):
    w = bool(rs.rand() < 0.5)
    g = data.random_graph(rs, rs.randint(2, 12), rs.rand(), weighted=w)
    for pad in (0, 3, len(g.edges()) + 4):
      for bid in (True, False):
        p = utils.graph2edges(g, build_bidir_edges=bid, padded_num_edges=pad,
                              has_edge_weights=w)
        if not _same(rec, 'edges pad %d' % pad, p, g, w, 0, False):
          return
        rec.check(len(p['edge_from']) == max(pad, len(g.edges())), 'padding',
                  'edge list of length %d' % len(p['edge_from']))
        rec.check(int(np.asarray(p['num_edges'])[0]) == len(g.edges()),
                  'count', 'number of edges recorded as %s' % p['num_edges'])
