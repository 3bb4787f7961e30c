"""Graph instances and the dataset files the loaders read."""
import os
import pickle

import networkx as nx
import numpy as np


def random_graph(rs, n, p=0.5, weighted=False, order='mixed', isolated=True):
  """Graph on nodes 0..n-1; nodes and edges inserted in a scrambled order."""
  g = nx.Graph()
  nodes = list(range(n))
  if order == 'mixed':
    rs.shuffle(nodes)
  g.add_nodes_from(nodes)
  pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
  rs.shuffle(pairs)
  for i, j in pairs:
    if rs.rand() < p:
      if order == 'mixed' and rs.rand() < 0.5:
        i, j = j, i
      if weighted:
        g.add_edge(i, j, weight=float(np.round(rs.randn() * 2, 3)))
      else:
        g.add_edge(i, j)
  if not isolated:
    for v in range(n):
      if g.degree(v) == 0:
        u = (v + 1) % n
        if weighted:
          g.add_edge(v, u, weight=1.5)
        else:
          g.add_edge(v, u)
  return g


def _dump(path, obj, many=False):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  with open(path, 'wb') as f:
    if many:
      for o in obj:
        pickle.dump(o, f, protocol=4)
    else:
      pickle.dump(obj, f, protocol=4)


def write_dataset(root, kind, graphs, refs, files=2):
  """Writes graphs (with reference objectives) in the layout of `kind`.

  Returns the rand_type to use.  The i-th graph must come out i-th.
  """
  n = len(graphs)
  files = max(1, min(files, n))
  cut = [n * k // files for k in range(files + 1)]
  if kind in ('ba', 'er'):
    for k in range(files):
      _dump(os.path.join(root, 'maxcut-' + kind, 'maxcut-rt',
                         'test-%d.pkl' % k),
            [(graphs[i], [refs[i], 'x']) for i in range(cut[k], cut[k + 1])],
            many=True)
    # files that are not part of the test set
    _dump(os.path.join(root, 'maxcut-' + kind, 'maxcut-rt', 'train-0.pkl'),
          [(nx.complete_graph(3), [1.0])], many=True)
    return 'rt'
  if kind == 'optsicom':
    _dump(os.path.join(root, 'optsicom', 'b.pkl'),
          [(g, [r]) for g, r in zip(graphs, refs)], many=True)
    return 'b'
  if kind == 'ertest':
    for i, (g, r) in enumerate(zip(graphs, refs)):
      g = g.copy()
      left = int(r)
      for v in g.nodes():
        g.nodes[v]['label'] = 1 if left > 0 else 0
        left -= 1
      _dump(os.path.join(root, 'er_7_test', 'ER_%03d.pkl' % i), g)
    return '7'
  if kind == 'er_density':
    _dump(os.path.join(root, 'er_700_800', 'ER-700-800-0.3.pkl'),
          list(graphs))
    return '0.3'
  if kind == 'rb':
    for k in range(files):
      _dump(os.path.join(root, 'RB_test', 'RB_%d.pkl' % k),
            [(refs[i], graphs[i]) for i in range(cut[k], cut[k + 1])])
    return ''
  if kind == 'twitter':
    for k in range(files):
      idx = range(cut[k], cut[k + 1])
      _dump(os.path.join(root, 'twitter', 'twitter_%d.pkl' % k),
            ([graphs[i] for i in idx], [refs[i] for i in idx]))
    return ''
  if kind == 'nets':
    assert n == 1
    _dump(os.path.join(root, 'nets', 'NET.pkl'), graphs[0])
    return 'NET'
  if kind == 'gap_rand':
    for i, g in enumerate(graphs):
      _dump(os.path.join(root, 'gap_rand', 'test-9', 'g%03d.pkl' % i), g)
    return 'test-9'
  raise ValueError(kind)


MODEL_OF = dict(ba='maxcut', er='maxcut', optsicom='maxcut', ertest='mis',
                er_density='mis', satlib='mis', rb='maxclique',
                twitter='maxclique', nets='normcut', gap_rand='normcut')


def write_cnf(path, nv, clauses):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  with open(path, 'w') as f:
    f.write('c generated\np cnf %d %d\n' % (nv, len(clauses)))
    for c in clauses:
      f.write(' '.join(map(str, c)) + ' 0\n')
