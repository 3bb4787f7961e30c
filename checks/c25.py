"""C25: models and samplers are pure functions of their arguments."""

RULE = ('one evaluation = one call of a model or sampler function, compared '
        'with the same call on a fresh object, compiled, or vectorised; '
        'distinct = (object, function, arguments, situation) compared')
ASSUMPTIONS = [
    'eager, compiled and vectorised arithmetic may round differently: at most '
    'a few of the compared chains may decide differently for that reason',
    'the model of text infilling is bound to the task it loaded last and is '
    'left out']

VARIANTS = [
    ('gibbs', dict(), (2, 3)),
    ('blockgibbs', dict(block_size=2), (2, 3)),
    ('blockgibbs', dict(block_size=3), (2,)),
    ('hammingball', dict(block_size=2), (2, 3)),
    ('randomwalk', dict(adaptive=True), (2, 3)),
    ('randomwalk', dict(adaptive=False), (2, 3)),
    ('gwg', dict(adaptive=True), (2,)),
    ('gwg', dict(adaptive=False), (2, 3)),
    ('path_auxiliary', dict(adaptive=True), (2, 3)),
    ('path_auxiliary', dict(adaptive=False, num_flips=2), (2, 3)),
    ('path_auxiliary', dict(adaptive=True, approx_with_grad=False), (2, 3)),
    ('dlmc', dict(adaptive=True), (2, 3)),
    ('dlmc', dict(adaptive=False), (2, 3)),
    ('dlmc', dict(adaptive=True, solver='euler_forward'), (2, 3)),
    ('dmala', dict(adaptive=True), (2, 3)),
    ('dmala', dict(adaptive=False), (2, 3)),
]

ZOO = ['bernoulli', 'bernoulli2d', 'categorical', 'ising', 'potts', 'fhmm',
       'fhmm_categ', 'rbm', 'rbm_categ', 'resnet', 'maxcut', 'mis',
       'maxclique', 'normcut_quad', 'normcut_span']


def cases(tier, seed):
  out = []
  reps = 1 if tier == 'quick' else 5
  for k in range(reps):
    for s, opts, cats in VARIANTS:
      for c in cats:
        tag = '%s-%d-%s-%d' % (s, c, '_'.join(
            '%s%s' % kv for kv in opts.items()), k)
        out.append(dict(name='step-' + tag, fn='steps', cost=2, args=dict(
            sampler=s, opts=opts, c=c, seed=seed * 61 + k)))
    for m in ZOO:
      out.append(dict(name='model-%s-%d' % (m, k), fn='model', args=dict(
          name=m, seed=seed * 61 + k)))
    for m, s in [('mis', 'path_auxiliary'), ('maxcut', 'dlmc'),
                 ('maxclique', 'gwg'), ('normcut_quad', 'dmala'),
                 ('mis', 'randomwalk'), ('maxcut', 'gibbs')]:
      out.append(dict(name='many-%s-%s-%d' % (m, s, k), fn='many', cost=2,
                      args=dict(name=m, sampler=s, seed=seed * 61 + k)))
    out.append(dict(name='replay_buffer-%d' % k, fn='primitives',
                    args=dict(seed=seed * 61 + k)))
  return out


def _np(tree):
  import jax
  import numpy as np
  return [np.array(a) for a in jax.tree_util.tree_leaves(tree)]


def _same(a, b):
  import numpy as np
  return len(a) == len(b) and all(
      p.shape == q.shape and p.dtype == q.dtype and
      np.array_equal(p, q, equal_nan=np.issubdtype(p.dtype, np.floating))
      for p, q in zip(a, b))


def _close(a, b, slack=0.0):
  """Equal up to rounding; `slack`: share of integer entries that may differ."""
  import numpy as np
  if len(a) != len(b):
    return False
  for p, q in zip(a, b):
    if p.shape != q.shape:
      return False
    if np.issubdtype(p.dtype, np.floating):
      with np.errstate(invalid='ignore'):
        if not np.allclose(p, q, rtol=2e-4, atol=2e-4, equal_nan=True):
          return False
    elif (p != q).mean() > slack:
      return False
  return True


def steps(rec, sampler, opts, c, seed):
  import copy
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import smp, table
  shape = (2, 2) if c == 2 else (3,)
  model = table.TableModel(shape, c)
  rs = np.random.RandomState(seed)
  key = (sampler, c, tuple(sorted(opts.items())))

  def fresh():
    return smp.build(sampler, shape, c, **opts)

  # argument tuples: different targets, batches, states of adaptation
  args = []
  s = fresh()
  move = jax.jit(lambda k, x, p, st: s.step(model, k, x, p, st)[:2])
  for t, warm in enumerate([0, 1, 4, 25]):
    p = {'table': jnp.array(smp.random_table(seed + t, model.n, c, 1.0 + t),
                            jnp.float32)}
    st = s.make_init_state(jax.random.PRNGKey(seed))
    x = model.get_init_samples(jax.random.PRNGKey(seed + t), 16)
    for r in range(warm):
      x, st = move(jax.random.fold_in(jax.random.PRNGKey(seed + t), r), x, p,
                   st)
    args.append((jax.random.PRNGKey(int(rs.randint(1 << 30))), x, p,
                 dict(st)))
  for k in (0, 3):                      # and another batch size
    a = args[k]
    args.append((a[0], a[1][:1], a[2], dict(a[3])))

  def call(s, a, compiled=False):
    k, x, p, st = a
    if compiled:
      return comp(k, x, p, st)
    return s.step(model, k, x, p, st)

  want = [_np(call(fresh(), copy.copy(a))) for a in args]
  shared = fresh()
  comp = jax.jit(lambda k, x, p, st: shared.step(model, k, x, p, st))
  other = smp.build(sampler, (3,) if c == 2 else (2,), c, **opts)
  omodel = table.TableModel((3,) if c == 2 else (2,), c)
  otab = {'table': jnp.array(smp.random_table(seed, omodel.n, c), jnp.float32)}
  for n in range(7):
    i = int(rs.randint(len(args)))
    a = args[i]
    before = _np(a)
    fields = sorted(a[3])
    got = _np(call(shared, a))
    rec.event(1)
    rec.seen(key, 'again', i, n)
    rec.check(_same(got, want[i]), 'history',
              '%s: a step with the same key, state and samples gives another '
              'result after other steps were taken on the same sampler' % (
                  key,))
    rec.check(sorted(a[3]) == fields and _same(before, _np(a)), 'modified',
              '%s: the step modified the sampler state, samples or parameters '
              'it was given' % (key,))
    if n % 4 == 1:                      # another problem in between
      ost = other.make_init_state(jax.random.PRNGKey(n))
      ox = omodel.get_init_samples(jax.random.PRNGKey(n), 4)
      other.step(omodel, jax.random.PRNGKey(n), ox, otab, ost)
      shared.make_init_state(jax.random.PRNGKey(n))
  # compiled, and inside a compiled loop
  diff = tot = 0
  for i, a in enumerate(args):
    got = _np(call(shared, a, True))
    rec.seen(key, 'compiled', i)
    x0, x1 = np.asarray(want[i][0]), np.asarray(got[0])
    rec.event(len(x0))
    if x0.shape != x1.shape or not np.issubdtype(x1.dtype, np.integer):
      rec.fail('compiled', '%s: compiled step returns %s %s' % (
          key, x1.shape, x1.dtype))
      continue
    bad = (x0 != x1).reshape(len(x0), -1).any(1).sum()
    diff, tot = diff + bad, tot + len(x0)
    if bad == 0:
      rec.check(_close(want[i], got), 'compiled-state',
                '%s: the compiled step returns another sampler state or '
                'acceptance than the eager one' % (key,))
  rec.check(diff <= 2, 'compiled', '%s: compiled and eager steps differ in %d '
            'of %d chains' % (key, diff, tot))
  # several steps compiled into one program, or taken one by one
  k0, x0, p0, st0 = args[3]
  nstep = 3
  keys = jax.random.split(k0, nstep)

  def path(x, st, take):
    xs = []
    for t in range(nstep):
      x, st = take(keys[t], x, st)
      xs.append(x)
    return xs
  one = jax.jit(lambda k, x, st: shared.step(model, k, x, p0, st)[:2])
  xs = np.stack(jax.jit(lambda x, st: path(
      x, st, lambda k, x, st: shared.step(model, k, x, p0, st)[:2]))(x0, st0))
  ys = np.stack(path(x0, st0, one))
  rec.event(nstep * len(x0))
  rec.seen(key, 'program')
  # a rounding difference may send a chain elsewhere: most must agree
  same = (xs == ys).reshape(nstep, len(x0), -1).all((0, 2))
  rec.check(same.sum() >= len(x0) - 2, 'program',
            '%s: %d of %d chains differ between one compiled run and single '
            'steps' % (key, (~same).sum(), len(x0)))
  rec.sample(sampler=sampler, options=str(opts), categories=c,
             result=want[2][0].reshape(len(want[2][0]), -1)[0])


def _build(name, seed):
  from vmon import mdl, small
  if name == 'resnet':
    import jax
    import numpy as np
    mean = np.random.RandomState(seed).uniform(0.1, 0.9, 16)
    m, _ = mdl.resnet(4, 4, data_mean=mean)
    p = mdl.randomize(m.make_init_params(jax.random.PRNGKey(seed)), seed, 0.3)
    return dict(model=m, params=p, shape=(16,), c=2)
  return small.small(name, seed)


def model(rec, name, seed):
  import jax
  import jax.numpy as jnp
  import numpy as np
  rs = np.random.RandomState(seed)
  first = _build(name, seed)
  m, shape, c = first['model'], first['shape'], first['c']
  inst = [first['params']]
  if name not in ('maxcut', 'mis', 'maxclique') and 'normcut' not in name:
    from vmon import mdl
    if name == 'fhmm_categ':
      inst.append(m.make_init_params(jax.random.PRNGKey(seed + 9)))
    else:
      inst.append(mdl.randomize(first['params'], seed + 3, 0.8))
  else:
    p = dict(first['params'])
    p['temperature'] = jnp.float32(0.37)
    inst.append(p)
  funcs = ['forward', 'get_value_and_grad', 'get_init_samples']
  if hasattr(m, 'logratio_in_neighborhood') and name not in (
      'maxclique',) and 'fhmm' not in name:
    funcs.append('logratio_in_neighborhood')
  if hasattr(m, 'evaluate') and name in ('maxcut', 'mis', 'maxclique'):
    funcs.append('evaluate')
  calls = []
  for f in funcs:
    for b in (1, 6):
      for q in range(len(inst)):
        x = rs.randint(0, c, size=(b,) + shape).astype(np.int32)
        if f == 'get_init_samples':
          calls.append((f, None, jax.random.PRNGKey(int(rs.randint(1 << 30))),
                        b))
        else:
          z = jnp.array(x)
          if f in ('get_value_and_grad',) and c > 2:
            z = jax.nn.one_hot(z, c)
          calls.append((f, q, z, b))

  def run(mm, cl, compiled=False):
    f, q, z, b = cl
    fn = getattr(mm, f)
    if f == 'get_init_samples':
      g = lambda z: fn(z, b)
      return (jax.jit(g) if compiled else g)(z)
    g = lambda p, z: fn(p, z)[:2] if f == 'logratio_in_neighborhood' else (
        fn(p, z))
    return (jax.jit(g) if compiled else g)(inst[q], z)

  usable = []
  want = []
  for cl in calls:
    fm = _build(name, seed)['model']
    try:
      want.append(_np(run(fm, cl)))
      usable.append(cl)
    except NotImplementedError:
      pass
  for n in range(40):
    i = int(rs.randint(len(usable)))
    cl = usable[i]
    before = [_np(inst), _np(cl[2])]
    got = _np(run(m, cl))
    rec.event(1)
    rec.seen(name, cl[0], cl[1], i)
    rec.check(_same(got, want[i]), 'history',
              '%s: %s gives another result after other calls on the same '
              'model' % (name, cl[0]))
    rec.check(_same(before[0], _np(inst)) and _same(before[1], _np(cl[2])),
              'modified', '%s: %s modified its arguments' % (name, cl[0]))
    if n % 10 == 7 and name in ('bernoulli', 'bernoulli2d', 'categorical',
                                'ising', 'potts', 'fhmm', 'fhmm_categ', 'rbm',
                                'rbm_categ', 'resnet'):
      m.make_init_params(jax.random.PRNGKey(n + seed))
  for i, cl in enumerate(usable):
    got = _np(run(m, cl, True))
    rec.event(1)
    rec.seen(name, cl[0], 'compiled', i)
    rec.check(_close(want[i], got), 'compiled',
              '%s: compiled %s differs from the eager one' % (name, cl[0]))
  # vectorised over instances
  st = jax.tree_util.tree_map(lambda *a: jnp.stack([jnp.asarray(v) for v in a]),
                              *[dict(p) for p in inst])
  for f in ('forward', 'get_value_and_grad'):
    x = jnp.array(rs.randint(0, c, size=(len(inst), 5) + shape))
    z = jax.nn.one_hot(x, c) if f == 'get_value_and_grad' and c > 2 else x
    got = _np(jax.vmap(lambda p, z: getattr(m, f)(p, z))(st, z))
    for q in range(len(inst)):
      one = _np(getattr(m, f)(inst[q], z[q]))
      rec.event(1)
      rec.seen(name, f, 'vectorised', q)
      rec.check(_close(one, [g[q] for g in got]), 'vectorised',
                '%s: %s over several instances at once differs from instance '
                'by instance' % (name, f))
  rec.sample(model=name, functions=str(funcs), calls=len(usable))


def many(rec, name, sampler, seed):
  """Several instances advanced together, as experiments do, or singly."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import data, mdl, smp
  rs = np.random.RandomState(seed)
  n = 6
  kind = dict(maxcut='er', mis='ertest', maxclique='rb').get(name, 'gap_rand')
  graphs = [data.random_graph(rs, n, 0.3 + 0.15 * k, isolated=False,
                              weighted=name == 'maxcut') for k in range(3)]
  over = {}
  if kind == 'gap_rand':
    over = dict(penalty=0.4, stype='quad')
  m, _, batch = mdl.graph_model(kind, graphs, **over)
  c = m.num_categories if kind == 'gap_rand' else 2
  plist = []
  for k, row in enumerate(batch):
    p = dict(row[1])
    p['temperature'] = jnp.float32(0.5 + 0.4 * k)
    plist.append(p)
  s = smp.build(sampler, (n,), c, co_opt=True)
  stack = lambda ts: jax.tree_util.tree_map(
      lambda *a: jnp.stack([jnp.asarray(v) for v in a]), *ts)
  b = 24
  xs = [m.get_init_samples(jax.random.PRNGKey(seed + k), b) for k in range(3)]
  sts = [s.make_init_state(jax.random.PRNGKey(seed + k)) for k in range(3)]
  together = jax.jit(jax.vmap(lambda k, x, p, st: s.step(m, k, x, p, st)[:2]))
  single = jax.jit(lambda k, x, p, st: s.step(m, k, x, p, st)[:2])
  pst = stack(plist)
  diff = tot = 0
  for t in range(12):
    keys = jax.random.split(jax.random.PRNGKey(seed * 7 + t), 3)
    gx, gs = together(keys, jnp.stack(xs), pst, stack(sts))
    nx, ns = [], []
    for k in range(3):
      x1, s1 = single(keys[k], xs[k], plist[k], sts[k])
      bad = int((np.asarray(x1) != np.asarray(gx[k])).any(1).sum())
      diff, tot = diff + bad, tot + b
      rec.event(b)
      rec.seen(name, sampler, t, k)
      if bad == 0:
        rec.check(_close(_np(s1), [a[k] for a in _np(gs)]), 'together-state',
                  '%s on %s: the sampler state of instance %d differs when '
                  'instances are advanced together' % (sampler, name, k))
      nx.append(x1)
      ns.append(s1)
    xs, sts = nx, ns
  rec.check(diff <= 4, 'together', '%s on %s: %d of %d chains move differently '
            'when several instances are advanced together' % (
                sampler, name, diff, tot))
  rec.sample(model=name, sampler=sampler, chains=tot, different=diff)


def primitives(rec, seed):
  """Selection primitives: same key, same result; arguments untouched."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from discs.common import math_util as mu
  rs = np.random.RandomState(seed)
  for n in range(12):
    key = jax.random.PRNGKey(int(rs.randint(1 << 30)))
    logits = jnp.array(rs.randn(4, 6) * 2, jnp.float32)
    probs = jax.nn.log_softmax(logits)
    for repl in (True, False):
      fn = lambda k, p: mu.multinomial(k, p, num_samples=3, replacement=repl,
                                       is_nsample_const=True)
      a, b = _np(fn(key, probs)), _np(fn(key, probs))
      rec.event(1)
      rec.seen('multinomial', repl, n)
      rec.check(_same(a, b), 'history', 'multinomial selection with the same '
                'key differs')
      cpl = _np(jax.jit(fn)(key, probs))
      rec.check(_close(a, cpl), 'compiled',
                'compiled multinomial selection differs')
    x, y = jnp.zeros((5, 3)), jnp.ones((5, 3))
    la = jnp.array(rs.randn(5), jnp.float32)
    a, b = _np(mu.mh_step(key, la, x, y)), _np(mu.mh_step(key, la, x, y))
    rec.check(_same(a, b), 'history', 'the accept step with the same key '
              'differs')
