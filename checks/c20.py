"""C20: training follows persistent contrastive divergence."""

RULE = ('one evaluation = one parameter, sampler step, buffer row or logged '
        'number of a real training run, recomputed from the data and samples '
        'observed; distinct = (script, options, iteration, samples)')
ASSUMPTIONS = [
    'the training scripts are run as programs with their own configuration '
    'files, on images of at most 16 pixels, at most 10 iterations and 1 to 4 '
    'devices; torch and tensorflow_datasets are replaced by stand-ins, and '
    'figures are drawn with the true image size instead of 28 x 28',
    'gradients of the RBM are in closed form, those of the image network by '
    'central differences, both in float64']

OPTS = [dict(optimizer='sgd', lr=0.5), dict(optimizer='adam', lr=1e-2),
        dict(optimizer='adamw', lr=1e-2, weight_decay=0.1),
        dict(optimizer='sgd', lr=0.5, grad_norm=0.05),
        dict(optimizer='adam', lr=1e-2, grad_norm=0.02),
        dict(optimizer='sgd', lr=0.5, grad_norm=50.0)]
SCHEDULES = ['constant', 'updown', 'up_exp_down']


def cases(tier, seed):
  out = []
  n = 12 if tier == 'quick' else 60
  for k in range(n):
    out.append(dict(name='rbm-%d' % k, fn='rbm', devices=1, cost=2, args=dict(
        pick=k, seed=seed * 157 + k)))
  for k in range(8 if tier == 'quick' else 40):
    out.append(dict(name='ebm-%d' % k, fn='ebm', cost=3, args=dict(
        pick=k, seed=seed * 163 + k)))
  for k in range(4 if tier == 'quick' else 20):
    out.append(dict(name='buffer-%d' % k, fn='buffer', args=dict(
        seed=seed * 167 + k)))
  return out


def launch(spec, devices):
  """Runs the script in a process of its own; returns what was observed."""
  import os
  import pickle
  import subprocess
  import tempfile
  from vmon import recorder, run
  root = tempfile.mkdtemp(dir=os.environ['VMON_SCRATCH'])
  spec = dict(spec, argv=spec['argv'] + ['--save_root=' + root])
  a, b = os.path.join(root, 'spec.pkl'), os.path.join(root, 'log.pkl')
  with open(a, 'wb') as f:
    pickle.dump(spec, f)
  env = run.worker_env(devices, os.environ['VMON_SCRATCH'])
  p = subprocess.run([run.PYTHON, '-m', 'vmon.train_driver', a, b], env=env,
                     cwd=root, capture_output=True, text=True, timeout=400,
                     check=False)
  if not os.path.exists(b):
    raise RuntimeError('no log: ' + p.stderr[-1000:])
  with open(b, 'rb') as f:
    log = pickle.load(f)
  if log['error']:
    inside, what, tb = log['error']
    if inside:
      raise recorder.Violation('exception', what + '\n' + tb)
    raise RuntimeError(tb)
  return root, log


def schedule(kind, lr, warm_frac, total, t):
  """Learning rate of update t = 0, 1, ..."""
  if kind == 'constant':
    return lr
  w = int(warm_frac * total)
  if kind == 'updown':
    if t < w:
      return lr * t / w
    n = total - w
    return lr + (0.01 * lr - lr) * min((t - w) / n, 1.0)
  if t < w:
    return lr * t / w
  v = lr * 0.9 ** ((t - w) / 20000)
  return max(v, 1e-6)


def draw(rs, pick):
  o = dict(OPTS[pick % len(OPTS)])
  o['lr_schedule'] = SCHEDULES[(pick // 2) % 3]
  o['total'] = int(rs.choice([3, 5, 8]))
  o['warm'] = float(rs.choice([0.0, 0.4])) if o['lr_schedule'] != 'constant' \
      else 0.05
  o['ema'] = float(rs.choice([0.0, 0.5, 0.9]))
  o['devices'] = int([1, 2, 4][pick % 3])
  o['per'] = int(rs.choice([1, 3, 6]))
  o['pcd'] = int(rs.choice([1, 2, 3]))
  o['save'] = int(rs.choice([1, 1, 2]))
  o['log'] = int(rs.choice([1, 2]))
  o['plot'] = int(rs.choice([2, 3]))
  o.setdefault('grad_norm', 0.0)
  o.setdefault('weight_decay', 0.0)
  return o


def argv(o, seed):
  e = dict(batch_size=o['per'] * o['devices'], pcd_steps=o['pcd'],
           save_every_steps=o['save'], log_every_steps=o['log'],
           plot_every_steps=o['plot'], optimizer=o['optimizer'],
           learning_rate=o['lr'], lr_schedule=o['lr_schedule'],
           warmup_frac=o['warm'], ema_decay=o['ema'],
           grad_norm=o['grad_norm'], weight_decay=o['weight_decay'],
           total_train_steps=o['total'])
  return ['--config.experiment.%s=%s' % kv for kv in e.items()] + [
      '--seed=%d' % (seed % 1000)]


def flat(tree, prefix=()):
  out = {}
  for k, v in tree.items():
    if hasattr(v, 'items'):
      out.update(flat(v, prefix + (k,)))
    else:
      out[prefix + (k,)] = v
  return out


def nested(flat_tree):
  out = {}
  for k, v in flat_tree.items():
    d = out
    for p in k[:-1]:
      d = d.setdefault(p, {})
    d[k[-1]] = v
  return out


class Optimiser:
  """The optimisers, from their definitions, in float64."""

  def __init__(self, o):
    self.o = o
    self.t = 0
    self.m = self.v = None
    self.weak = None

  def update(self, p, g):
    """(new parameters, where the result is well conditioned)."""
    import numpy as np
    o = self.o
    lr = schedule(o['lr_schedule'], o['lr'], o['warm'], o['total'], self.t)
    norm = np.sqrt(sum((v ** 2).sum() for v in g.values()))
    if o['grad_norm'] > 0 and norm >= o['grad_norm']:
      g = {k: v / norm * o['grad_norm'] for k, v in g.items()}
    top = max(np.abs(v).max() for v in g.values()) + 1e-30
    if o['optimizer'] == 'sgd':
      new = {k: p[k] - lr * g[k] for k in p}
      sure = {k: np.ones(p[k].shape, bool) for k in p}
    else:
      if self.m is None:
        self.m = {k: np.zeros(v.shape) for k, v in g.items()}
        self.v = {k: np.zeros(v.shape) for k, v in g.items()}
        self.weak = {k: np.zeros(v.shape, bool) for k, v in g.items()}
      new, sure = {}, {}
      for k in p:
        self.m[k] = 0.9 * self.m[k] + 0.1 * g[k]
        self.v[k] = 0.999 * self.v[k] + 0.001 * g[k] ** 2
        self.weak[k] |= np.abs(g[k]) < 1e-4 * top
        mh = self.m[k] / (1 - 0.9 ** (self.t + 1))
        vh = self.v[k] / (1 - 0.999 ** (self.t + 1))
        step = mh / (np.sqrt(vh) + 1e-8)
        if o['optimizer'] == 'adamw':
          step = step + o['weight_decay'] * p[k]
        new[k] = p[k] - lr * step
        sure[k] = ~self.weak[k]
    self.t += 1
    return new, sure, lr


def close(a, b, sure, scale):
  import numpy as np
  return all(bool((np.abs(a[k] - b[k]) <= scale * (1e-4 * np.abs(b[k]) + 1))[
      sure[k]].all()) for k in b)


def judge(rec, tag, o, root, log, x_data, energy, gradient, run_name, saved,
          buffer=False):
  """Common part of both scripts."""
  import os
  import numpy as np
  D, per, K = o['devices'], o['per'], o['pcd']
  dim = x_data.shape[1]
  bs = log['batches'][:o['total']]
  T = len(log['steps']) // (D * K)
  if not rec.check(len(log['steps']) == T * D * K and T == min(
      o['total'], len(bs)), 'steps', '%s: %d sampler steps for %d batches of '
                   '%d iterations with %d steps on %d devices' % (
                       tag, len(log['steps']), len(bs), o['total'], K, D)):
    return None
  keys = [s['rng'].tobytes() for s in log['steps']]
  rec.check(len(set(keys)) == len(keys), 'randomness', '%s: %d sampler steps '
            'share %d keys' % (tag, len(keys), len(set(keys))))
  known = {tuple(r) for r in x_data.astype(int).tolist()}
  opt = Optimiser(o)
  p = ema = None
  finals = []
  history = []
  logged = dict(log['scalars'])
  rec.check(sorted(logged) == [t for t in range(1, T + 1)
                               if t % o['log'] == 0] and
            len(logged) == len(log['scalars']), 'logged', '%s: scalars logged '
            'at %s of %d iterations, every %d wanted' % (
                tag, [t for t, _ in log['scalars']], T, o['log']))
  prev_pairs = None
  for t in range(1, T + 1):
    chunk = log['steps'][(t - 1) * D * K:t * D * K]
    cur = flat(chunk[0]['params'])
    if not rec.check(all(all(np.array_equal(flat(s['params'])[k], v)
                             for k, v in cur.items()) for s in chunk),
                     'parameters', '%s: the sampler steps of iteration %d use '
                     'different parameters' % (tag, t)):
      return None
    cur = {k: np.asarray(v, np.float64) for k, v in cur.items()}
    if p is not None:
      if not rec.check(close(cur, p, sure, tol), 'update', '%s: parameters '
                       'after iteration %d differ from the update by %s' % (
                           tag, t - 1, {k: float(np.abs(cur[k] - p[k]).max())
                                        for k in cur})):
        return None
    history.append(cur)
    # follow the chains of every device through the iteration
    pairs, pool = [], list(chunk)
    while pool:
      first = pool.pop(0)
      s, n = first, 1
      while n < K:
        nxt = [i for i, q in enumerate(pool)
               if np.array_equal(q['x'], s['new_x'])]
        if not rec.check(bool(nxt), 'continuity', '%s: a chain of iteration '
                         '%d breaks off after %d of %d steps' % (tag, t, n,
                                                                 K)):
          return None
        s = pool.pop(nxt[0])
        n += 1
      pairs.append((np.asarray(first['x']).reshape(-1, dim).astype(int),
                    np.asarray(s['new_x']).reshape(-1, dim).astype(int)))
    rec.event(len(chunk) * per, 'chain steps')
    if not rec.check(len(pairs) == D and all(
        a.shape == (per, dim) for a, _ in pairs), 'chains', '%s: %d groups of '
                     'chains on %d devices' % (tag, len(pairs), D)):
      return None
    if prev_pairs is not None and not buffer:
      rec.check(sorted(a.tobytes() for a, _ in pairs) ==
                sorted(b.tobytes() for _, b in prev_pairs), 'persistent',
                '%s: the chains of iteration %d do not continue those of '
                'iteration %d' % (tag, t, t - 1))
    prev_pairs = pairs
    finals.append(pairs)
    neg = np.concatenate([b for _, b in pairs])
    b = np.asarray(bs[t - 1])
    if not rec.check(b.shape == (D, per, dim), 'batch', '%s: batch of shape '
                     '%s for %d devices of %d rows' % (tag, b.shape, D, per)):
      return None
    pos = b.reshape(-1, dim).astype(int)
    rec.check(all(tuple(r) in known for r in pos.tolist()), 'batch', '%s: '
              'batch %d has rows that are not in the data' % (tag, t))
    g = gradient(cur, pos, neg)
    p, sure, lr = opt.update(cur, g)
    tol = 2e-5 * (1 + max(np.abs(v).max() for v in cur.values())) \
        if o['optimizer'] == 'sgd' else max(2e-3 * o['lr'], 2e-6)
    rec.event(sum(v.size for v in p.values()), 'parameters')
    rec.seen(tag, t, pos.tolist(), neg.tolist(), o['optimizer'], lr)
    if t in logged:
      sc = logged[t]
      ep, en = energy(cur, pos).mean(), energy(cur, neg).mean()
      want = {'ll_pos': ep, 'll_neg': en, 'loss': en - ep}
      for k, v in want.items():
        rec.check(k in sc and abs(sc[k] - v) <= 2e-4 * (abs(v) + abs(ep) + 1),
                  'logged', '%s: %s of iteration %d logged as %s, observed %g'
                  % (tag, k, t, sc.get(k), v))
      lrs = [schedule(o['lr_schedule'], o['lr'], o['warm'], o['total'], u)
             for u in (t - 1, t)]
      rec.check(any(abs(sc.get('train/lr', -1) - v) < 1e-5 * o['lr']
                    for v in lrs), 'logged', '%s: learning rate of iteration '
                '%d logged as %s, schedule %s' % (tag, t, sc.get('train/lr'),
                                                  lrs))
  last = {k: np.asarray(v, np.float64) for k, v in saved.items()}
  if not rec.check(set(last) == set(p) and close(last, p, sure, tol), 'saved',
                   '%s: the parameters saved after %d iterations are not the '
                   'final ones' % (tag, T)):
    return None
  history.append(last)
  # checkpoints
  from flax.training import checkpoints
  ck = os.path.join(root, run_name, 'ckpts')
  have = sorted(int(n.split('_')[-1]) for n in os.listdir(ck)
                if n.startswith('checkpoint_')) if os.path.isdir(ck) else []
  want = [t for t in range(1, T + 1) if t % o['save'] == 0][-10:]
  if rec.check(have == want, 'checkpoint', '%s: checkpoints %s, wanted %s' % (
      tag, have, want)):
    ema = None
    for t in range(1, T + 1):
      cur = history[t]
      ema = cur if ema is None else {
          k: o['ema'] * ema[k] + (1 - o['ema']) * cur[k] for k in cur}
      if t not in have:
        continue
      st = checkpoints.restore_checkpoint(ck, None, step=t)
      got = {k: np.asarray(v, np.float64) for k, v in flat(
          st['params']).items()}
      ge = {k: np.asarray(v, np.float64) for k, v in flat(
          st['ema_params']).items()}
      rec.event(2 * sum(v.size for v in got.values()), 'checkpointed values')
      every = {k: np.ones(v.shape, bool) for k, v in cur.items()}
      rec.check(int(st['step']) == t and set(got) == set(cur) and close(
          got, cur, every, 1e-6), 'checkpoint', '%s: checkpoint %d holds step '
                '%s or other parameters' % (tag, t, st['step']))
      rec.check(set(ge) == set(cur) and close(ge, ema, every, 2e-5 * (
          1 + max(np.abs(v).max() for v in cur.values()))), 'average', '%s: '
                'averaged parameters of checkpoint %d are off by %s' % (
                    tag, t, {k: float(np.abs(ge[k] - ema[k]).max())
                             for k in cur if k in ge}))
  figs = log['figures']
  rec.check([n for n, _ in figs] == ['chain-%d.png' % t for t in range(
      1, T + 1) if t % o['plot'] == 0], 'figures', '%s: figures %s of %d '
            'iterations, every %d' % (tag, [n for n, _ in figs], T, o['plot']))
  for n, a in figs:
    t = int(n.split('-')[1].split('.')[0])
    rec.check(sorted(map(tuple, np.asarray(a).reshape(-1, dim).astype(
        int).tolist())) == sorted(tuple(r) for _, b in finals[t - 1]
                                  for r in b.tolist()), 'figures', '%s: %s '
              'does not show the samples of the iteration' % (tag, n))
  return finals


def rbm(rec, pick, seed):
  import os
  import pickle
  import numpy as np
  from vmon import mdl
  rs = np.random.RandomState(seed)
  o = draw(rs, pick)
  nv, nh = 12, int(rs.choice([1, 5]))
  B = o['per'] * o['devices']
  n = B * int(rs.choice([o['total'], o['total'] + 2, max(1, o['total'] - 1)])) \
      + int(rs.randint(0, B))
  imgs = (rs.rand(n, 3, 4, 1) < rs.uniform(0.2, 0.8, (3, 4, 1)))
  spec = dict(script='rbm', dataset='mnist',
              images=imgs.astype(np.uint8) * 255, argv=[
      '--config=REPO/discs/learning/rbm/exp_config.py:mnist-2-%d' % nh,
      '--config.model.num_visible=%d' % nv, '--config.model.shape=(%d,)' % nv,
      '--config.experiment.shuffle_buffer_size=%d' % rs.choice([0, 7, n])] +
              argv(o, seed))
  root, log = launch(spec, o['devices'])
  x_data = imgs.reshape(n, -1).astype(int)
  name = 'mnist-2-%d' % nh
  with open(os.path.join(root, name, 'params.pkl'), 'rb') as f:
    res = pickle.load(f)

  def sig(z):
    return 1 / (1 + np.exp(-z))

  def energy(p, x):
    return np.logaddexp(0, x @ p[('w',)] + p[('b_h',)]).sum(-1) + \
        x @ p[('b_v',)]

  def moments(p, x):
    h = sig(x @ p[('w',)] + p[('b_h',)])
    return {('w',): x.T @ h / len(x), ('b_h',): h.mean(0),
            ('b_v',): x.mean(0)}

  def gradient(p, pos, neg):
    a, b = moments(p, pos), moments(p, neg)
    return {k: b[k] - a[k] for k in a}

  saved = {(k,): res['params'][k] for k in ('w', 'b_h', 'b_v')}
  tag = 'rbm/%s/%s/%d devices' % (o['optimizer'], o['lr_schedule'],
                                  o['devices'])
  if judge(rec, tag, o, root, log, x_data, energy, gradient, name,
           saved) is None:
    return
  # one pass over the data: every image at most once
  import collections
  used = collections.Counter(tuple(r) for b in log['batches'] for r in
                             np.asarray(b).reshape(-1, nv).astype(
                                 int).tolist())
  have = collections.Counter(tuple(r) for r in x_data.tolist())
  rec.check(not used - have, 'once', '%s: images were used more than once in '
            'one pass' % tag)
  rec.check(len(log['batches']) >= min(o['total'], n // B), 'once', '%s: '
            'training ended after %d batches of a dataset with %d' % (
                tag, len(log['batches']), n // B))
  mean = np.clip(imgs.reshape(n, -1).mean(0), 0.01, 0.99)
  rec.check(np.allclose(res['params']['data_mean'], mean, atol=1e-5), 'mean',
            '%s: saved data mean %s, of the data %s' % (
                tag, res['params']['data_mean'][:3], mean[:3]))
  rec.check((res['num_visible'], res['num_hidden'], res['num_categories']) ==
            (nv, nh, 2), 'saved', '%s: saved sizes %s' % (tag, [
                res[k] for k in ('num_visible', 'num_hidden',
                                 'num_categories')]))
  # what was saved can be sampled from
  import jax
  import jax.numpy as jnp
  cfg = mdl.base_config('rbm', data_path=os.path.join(root, name),
                        num_categories=2)
  from discs.models import rbm as mod
  m = mod.build_model(cfg)
  x = rs.randint(0, 2, (5, nv))
  p = {(k,): np.asarray(v, np.float64) for (k,), v in saved.items()}
  got = np.asarray(m.forward(m.make_init_params(jax.random.PRNGKey(0)),
                             jnp.array(x)), np.float64)
  rec.check(np.allclose(got, energy(p, x), rtol=1e-4, atol=1e-4), 'reload',
            '%s: the trained model scores %s after loading, %s before' % (
                tag, got, energy(p, x)))
  s = np.asarray(m.get_init_samples(jax.random.PRNGKey(seed), 4000))
  z = (s.mean(0) - mean) / np.sqrt(mean * (1 - mean) / 4000)
  rec.check(s.shape == (4000, nv) and np.abs(z).max() < 7, 'reload', '%s: '
            'initial samples of the trained model are not from the data mean' %
            tag)
  rec.sample(script='rbm', options=o, logged=log['scalars'][:1])


def ebm(rec, pick, seed):
  import os
  import pickle
  import numpy as np
  from vmon import mdl, ref
  rs = np.random.RandomState(seed)
  o = draw(rs, 3 * pick)
  o.update(optimizer='sgd', lr=0.3, weight_decay=0.0,
           grad_norm=[0.0, 0.05, 50.0][pick % 3], devices=[1, 2, 4, 2][pick % 4])
  o['total'] = min(o['total'], 4)
  side = [3, 4][pick % 2]
  dim = side * side
  B = o['per'] * o['devices']
  n = B + int(rs.randint(0, 12))
  data = (rs.rand(n, dim) < rs.uniform(0.2, 0.8, dim)).astype(np.float32)
  data = np.concatenate([data, np.zeros((1, dim), np.float32),
                         np.ones((1, dim), np.float32)])
  size = B + int(rs.randint(0, 2 * B))
  freq = [0.0, 0.0, 1.0, 0.4][pick % 4]
  adaptive = bool(pick % 2)
  spec = dict(script='ebm', seed=seed, data=data, argv=[
      '--config=REPO/discs/learning/binary_ebm/exp_config.py:static_mnist-2',
      '--config.model.image_shape=(%d,%d)' % (side, side),
      '--config.model.shape=(%d,)' % dim,
      '--config.experiment.buffer_size=%d' % size,
      '--config.experiment.reinit_freq=%g' % freq,
      '--config.sampler.adaptive=%s' % adaptive] + argv(o, seed))
  root, log = launch(spec, o['devices'])
  name = 'static_mnist-2'
  with open(os.path.join(root, name, 'params.pkl'), 'rb') as f:
    res = pickle.load(f)
  saved = flat({k: v for k, v in res['params'].items() if k != 'data_mean'})

  m = data.mean(0, dtype=np.float64)

  def energy(p, x):
    return ref.resnet(nested(p), x, side) + x @ np.log(m) + (
        1 - x) @ np.log1p(-m)

  def gradient(p, pos, neg):
    x = np.concatenate([neg, pos])
    w = np.r_[np.full(len(neg), 1 / len(neg)), np.full(len(pos),
                                                       -1 / len(pos))]
    g = {}
    for k, v in p.items():
      g[k] = np.zeros(v.shape)
      for i in np.ndindex(*v.shape):
        q = dict(p)
        e = 1e-5
        val = []
        for s in (e, -e):
          q[k] = v.copy()
          q[k][i] += s
          val.append(w @ energy(q, x))
        g[k][i] = (val[0] - val[1]) / (2 * e)
    return g

  tag = 'ebm/%d devices' % o['devices']
  finals = judge(rec, tag, o, root, log, data, energy, gradient, name, saved,
                 buffer=True)
  if finals is None:
    return
  rec.check(np.allclose(res['params']['data_mean'], data.mean(0), atol=1e-5),
            'mean', '%s: saved data mean' % tag)
  ev = log['buffer']
  T = len(finals)
  if not rec.check([e[0] for e in ev] == ['init'] + ['sample', 'update'] * T,
                   'buffer', '%s: buffer calls %s' % (tag, [
                       e[0] for e in ev])):
    return
  shadow = ev[0][1].astype(int)
  if not rec.check(shadow.shape == (size, dim) and set(
      np.unique(shadow)) <= {0, 1}, 'buffer', '%s: buffer of shape %s' % (
          tag, shadow.shape)):
    return
  for t in range(T):
    _, xs, inds = ev[1 + 2 * t]
    _, xu, iu, after = ev[2 + 2 * t]
    inds, iu = [int(i) for i in inds], [int(i) for i in iu]
    rec.check(len(set(inds)) == B and inds == iu, 'buffer', '%s: rows %s '
              'drawn, %s written' % (tag, inds, iu))
    if freq == 0.0:
      rec.check(np.array_equal(xs.astype(int), shadow[inds]), 'buffer', '%s: '
                'the chains drawn from the buffer are not those stored' % tag)
    got = sorted((tuple(a), tuple(b)) for f, l in finals[t]
                 for a, b in zip(f.tolist(), l.tolist()))
    want = sorted((tuple(a), tuple(b)) for a, b in zip(
        xs.reshape(-1, dim).astype(int).tolist(),
        xu.reshape(-1, dim).astype(int).tolist()))
    if not rec.check(got == want, 'buffer', '%s: what is written back to the '
                     'buffer in iteration %d is not the end of the chain '
                     'drawn from that row' % (tag, t + 1)):
      return
    shadow[inds] = xu.reshape(-1, dim).astype(int)
    rec.check(np.array_equal(shadow, after.astype(int)), 'buffer', '%s: rows '
              'of the buffer changed that were not drawn' % tag)
    rec.event(size, 'buffer rows')
  import jax
  import jax.numpy as jnp
  from discs.models import resnet as mod
  cfg = mdl.base_config('resnet', data_path=os.path.join(root, name))
  model = mod.build_model(cfg)
  x = rs.randint(0, 2, (5, dim))
  q = {k: np.asarray(v, np.float64) for k, v in saved.items()}
  want = energy(q, x)
  params = model.make_init_params(jax.random.PRNGKey(0))
  got = np.asarray(model.forward(params, jnp.array(x)), np.float64)
  rec.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-4,
                                                    atol=1e-4), 'reload',
            '%s: the trained model scores %s after loading, %s before' % (
                tag, got, want))
  rec.sample(script='ebm', options=o, buffer=size, reinit=freq)


def buffer(rec, seed):
  """The replay buffer alone: conservation and the laws of its draws."""
  import numpy as np
  import importlib
  from ml_collections import config_dict
  from vmon import train_driver
  rs = np.random.RandomState(seed)
  np.random.seed(seed)
  cls = importlib.import_module('discs.learning.replay_buffer').ReplayBuffer
  dim = int(rs.choice([64, 90]))     # rows are told apart by their bits
  n = int(rs.choice([20, 3000]))
  data = (rs.rand(50, dim) < 0.3).astype(np.float32)
  for freq in (0.0, 0.25, 1.0):
    cfg = config_dict.ConfigDict(dict(
        model=dict(num_categories=2),
        experiment=dict(buffer_size=n, buffer_init='mean', reinit_freq=freq)))
    b = cls(cfg, data)
    p = data.mean(0) * 0.98 + 0.01
    shadow = train_driver.rows_of(b)
    if not rec.check(shadow.shape == (n, dim), 'shape', 'buffer of shape %s' %
                     (shadow.shape,)):
      return
    z = (shadow.mean(0) - p) / np.sqrt(p * (1 - p) / n)
    rec.check(np.abs(z).max() < 7, 'initial', 'initial buffer frequencies %s '
              'for data mean %s' % (shadow.mean(0), p))
    shadow = rs.randint(2, size=(n, dim))
    b.update(shadow.copy(), np.arange(n))
    counts, fresh, total, on = np.zeros(n), 0, 0, []
    for r in range(40):
      k = int(rs.randint(1, min(n, 400) + 1))
      x, inds = b.sample(k)
      inds = np.asarray(inds)
      x = np.asarray(x)
      ok = x.shape == (k, dim) and len(set(inds.tolist())) == k
      if not rec.check(ok, 'sample', '%d rows drawn: shape %s, %d distinct' % (
          k, x.shape, len(set(inds.tolist())))):
        return
      old = (x == shadow[inds]).all(1)
      new = ~old
      if not rec.check(bool(((x == 0) | (x == 1)).all()), 'sample',
                       'rows drawn are not samples'):
        return
      counts[inds] += 1
      fresh, total = fresh + new.sum(), total + k
      on.append(x[new])
      rec.event(k, 'rows drawn')
      rec.seen('buffer', dim, freq, inds.tolist())
      y = rs.randint(2, size=(k, dim))
      shadow[inds] = y
      b.update(y, inds)
      if not rec.check(np.array_equal(shadow, train_driver.rows_of(b)),
                       'update', 'rows changed that were not updated'):
        return
    if freq in (0.0, 1.0):
      rec.check(fresh == total * freq, 'restart', '%d of %d rows restarted at '
                'rate %g' % (fresh, total, freq))
    else:
      z = (fresh - total * freq) / np.sqrt(total * freq * (1 - freq))
      rec.check(abs(z) < 7, 'restart', '%d of %d rows restarted at rate %g' % (
          fresh, total, freq))
    if fresh > 500:
      on = np.concatenate(on)
      z = (on.mean(0) - p) / np.sqrt(p * (1 - p) / len(on))
      rec.check(np.abs(z).max() < 7, 'restart', 'restarted rows have '
                'frequencies %s, data mean %s' % (on.mean(0), p))
    top = counts.mean() + 7 * np.sqrt(counts.mean()) + 7
    rec.check(counts.max() < top, 'sample', 'a row was drawn %d times, on '
              'average %g' % (counts.max(), counts.mean()))
