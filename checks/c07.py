"""C07: adaptive step sizes settle at the target acceptance, within bounds."""

RULE = ('one evaluation = one sampler step of a tuning run; distinct = '
        '(sampler, options, target acceptance, model, phase, window '
        'acceptance and move size)')
ASSUMPTIONS = [
    'targets attainable between the smallest and largest step; models with 36 '
    'to 64 variables, 16 chains, 500 tuning steps',
    'a window mean acceptance within 0.05 of the target is accepted (correct '
    'code stays within 0.012)']

ADAPTIVE = [('randomwalk', {}, (2, 3)), ('gwg', {}, (2,)),
            ('path_auxiliary', {}, (2, 3)),
            ('path_auxiliary', dict(num_flips=4), (2, 3)),
            ('dlmc', {}, (2, 3)), ('dlmc', dict(solver='euler_forward'), (2, 3)),
            ('dlmc', dict(reset_z_est=7, schedule_step=30), (2, 3)),
            ('dlmc', dict(reset_z_est=-1, schedule_step=50), (2,)),
            ('dlmc', dict(balancing_fn_type='RATIO'), (2,)),
            ('dmala', {}, (2, 3)),
            ('dmala', dict(reset_z_est=7, schedule_step=30), (2, 3))]
FIXED = [('randomwalk', {}, (2, 3)), ('gwg', dict(num_flips=1), (2, 3)),
         ('gwg', dict(num_flips=3), (2,)),
         ('path_auxiliary', dict(num_flips=1), (2, 3)),
         ('path_auxiliary', dict(num_flips=5), (2, 3)),
         ('dlmc', dict(n=4.0), (2, 3)), ('dmala', dict(step_size=0.3), (2, 3))]


def cases(tier, seed):
  out = []
  tag = lambda o: '_'.join('%s%s' % kv for kv in o.items())
  reps = 1 if tier == 'quick' else 3
  for k in range(reps):
    for s, o, cats in ADAPTIVE:
      for c in cats:
        tgts = (0.25, 0.4) if s == 'randomwalk' else (0.3, 0.574, 0.75)
        if s == 'dlmc':
          tgts = (0.4, 0.574, 0.75)
        if tier == 'quick' and o:
          tgts = (0.574,)
        for tgt in tgts:
          out.append(dict(name='target-%s-%d-%s-%s-%d' % (s, c, tag(o), tgt, k),
                          fn='target', cost=2, args=dict(
                              sampler=s, c=c, opts=o, tgt=tgt,
                              seed=seed * 19 + k)))
        out.append(dict(name='bounds-%s-%d-%s-%d' % (s, c, tag(o), k),
                        fn='bounds', args=dict(sampler=s, c=c, opts=o,
                                               seed=seed * 19 + k)))
    for s, o, cats in FIXED:
      for c in cats:
        out.append(dict(name='fixed-%s-%d-%s-%d' % (s, c, tag(o), k),
                        fn='fixed', args=dict(sampler=s, c=c, opts=o,
                                              seed=seed * 19 + k)))
  return out


def _run(s, model, params, x, steps, st=None, seed=0):
  """Chain of `steps` steps: final x, state, acceptance and moves per step."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  st = s.make_init_state(jax.random.PRNGKey(0)) if st is None else st
  step = jax.jit(lambda k, x, st: s.step(model, k, x, params, dict(st)))
  shape = x.shape
  y, st, a0 = step(jax.random.PRNGKey(seed + 9), x, st)
  y = y.reshape(shape).astype(jnp.int32)
  like = st

  @jax.jit
  def go(x, st):
    def body(carry, k):
      x, st = carry
      y, st, acc = s.step(model, k, x, params, dict(st))
      y = y.reshape(x.shape).astype(jnp.int32)
      st = {q: jnp.asarray(st[q], jnp.asarray(like[q]).dtype) for q in like}
      ch = jnp.sum((y != x).reshape(x.shape[0], -1), -1)
      return (y, st), (acc, ch)
    return jax.lax.scan(body, (x, st),
                        jax.random.split(jax.random.PRNGKey(seed), steps))

  (x, st), (a, h) = go(y, st)
  return x, st, np.asarray(a, np.float64), np.asarray(h)


def _model(c, seed, scale=1.0):
  import jax
  import jax.numpy as jnp
  from vmon import mdl
  if c == 2:
    shape = (8, 8)
    m, _ = mdl.classical('ising', shape=shape, lambdaa=0.35 * scale,
                         mu=0.2 * scale, init_sigma=scale)
  else:
    shape = (6, 6)
    m, _ = mdl.classical('potts', shape=shape, num_categories=3,
                         lambdaa=0.5 * scale, mu=0.2 * scale,
                         init_sigma=scale)
  p = m.make_init_params(jax.random.PRNGKey(seed))
  x = m.get_init_samples(jax.random.PRNGKey(seed + 1), 16)
  return m, p, x.reshape((16,) + shape).astype(jnp.int32), shape


def _always_moves(sampler, c, opts):
  return sampler == 'path_auxiliary' or (sampler == 'gwg' and (
      c > 2 or opts.get('num_flips', 1) == 1))


def _honest(rec, tag, sampler, c, opts, a, h):
  """Where accepting always changes the state: reported = observed."""
  import numpy as np
  if not _always_moves(sampler, c, opts):
    return
  moved = (h > 0).mean()
  n = h.size
  z = (moved - a.mean()) / np.sqrt(max(moved * (1 - moved), 1e-3) / n)
  rec.check(abs(z) < 8, 'reported-acceptance',
            '%s: reported acceptance %.3f, but %.3f of the proposals were '
            'accepted' % (tag, a.mean(), moved))


def target(rec, sampler, c, opts, tgt, seed):
  import jax
  import numpy as np
  from vmon import smp
  m, p, x, shape = _model(c, seed)
  s = smp.build(sampler, shape, c, adaptive=True, target_acceptance_rate=tgt,
                **opts)
  st = None
  for phase, scale in enumerate((1.0, 1.35, 0.8)):
    q = jax.tree_util.tree_map(lambda v: v * scale, p)
    x, st, a, h = _run(s, m, q, x, 900, st, seed + phase)
    win = a[500:]
    rec.event(len(a))
    for w in range(0, len(a), 50):
      rec.seen(sampler, opts, c, tgt, phase, round(a[w:w + 50].mean(), 4),
               round(h[w:w + 50].mean(), 3))
    rec.sample(target=tgt, observed=win.mean(), moves=h[500:].mean())
    tag = '%s %s target %.3f phase %d' % (sampler, opts, tgt, phase)
    # random walk cannot go below one expected flip
    low = sampler == 'randomwalk'
    ok = np.isfinite(win).all() and (
        abs(win.mean() - tgt) <= 0.05 or
        (low and win.mean() < tgt and tgt > 0.3))
    rec.check(bool(ok), 'off-target', '%s: acceptance settles at %.3f' % (
        tag, win.mean()))
    _honest(rec, tag, sampler, c, dict(opts, num_flips=1), a, h)


def bounds(rec, sampler, c, opts, seed):
  """Easy targets: moves grow up to the size; hard ones: down to one."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import smp
  m, p, x, shape = _model(c, seed)
  n = int(np.prod(shape))
  s = smp.build(sampler, shape, c, adaptive=True, **opts)
  flat = jax.tree_util.tree_map(jnp.zeros_like, p)
  x, st, a, h = _run(s, m, flat, x, 400, None, seed)
  rec.event(len(a))
  late, early = h[-50:].mean(), h[:3].mean()
  rec.seen(sampler, opts, c, 'flat', round(late, 2), round(early, 2))
  rec.sample(flat_early=early, flat_late=late, size=n)
  rec.check(a.min() > 0.999, 'flat-acceptance',
            '%s: acceptance %.3f on a flat target' % (sampler, a.min()))
  rec.check(sampler == 'dlmc' or late > early + 2, 'no-growth', '%s %s: on a flat target the moves '
            'stay at %.2f variables (%.2f at the start)' % (
                sampler, opts, late, early))
  full = {'randomwalk': 0.97 * n, 'path_auxiliary': n, 'gwg': 0.35 * n,
          'dlmc': (0.4 if c == 2 else 0.55) * n, 'dmala': 0.5 * n}[sampler]
  rec.check(late >= full, 'no-growth', '%s %s: on a flat target the moves only '
            'reach %.2f of %d variables' % (sampler, opts, late, n))
  for key, v in st.items():
    rec.check(bool(np.isfinite(np.asarray(v, np.float64)).all()), 'tuning',
              '%s: %s became %s' % (sampler, key, v))
  # the real target right after: the step size has to come back down
  x, st, a, h = _run(s, m, p, x, 900, st, seed + 1)
  rec.event(len(a))
  rec.seen(sampler, opts, c, 'back', round(a[-300:].mean(), 3),
           round(h[-300:].mean(), 3))
  for key, v in st.items():
    rec.check(bool(np.isfinite(np.asarray(v, np.float64)).all()), 'tuning',
              '%s: %s became %s' % (sampler, key, v))
  tgt = 0.237 if sampler == 'randomwalk' else 0.574
  rec.sample(back_acc=a[-300:].mean(), back_moves=h[-300:].mean())
  rec.check(abs(a[-300:].mean() - tgt) <= 0.06, 'no-shrink',
            '%s %s: after an easy target, acceptance stays at %.3f' % (
                sampler, opts, a[-300:].mean()))
  # hopeless target: everything stays finite
  hard = jax.tree_util.tree_map(lambda v: v * 8.0, p)
  x, st, a, h = _run(s, m, hard, x, 300, st, seed + 2)
  rec.event(len(a))
  for key, v in st.items():
    rec.check(bool(np.isfinite(np.asarray(v, np.float64)).all()), 'tuning',
              '%s: %s became %s' % (sampler, key, v))
  rec.check(bool(np.isfinite(a).all() and a.min() >= 0), 'acceptance',
            '%s: acceptance %s' % (sampler, a[~np.isfinite(a)][:3]))
  if sampler in ('path_auxiliary', 'gwg'):
    rec.check(bool((h[-100:].max() <= n)), 'too-large', 'moves of %d of %d '
              'variables' % (h.max(), n))
  if sampler in ('path_auxiliary', 'gwg', 'randomwalk'):
    # the worse the target was, the longer the way back? It must not be
    worst = _hopeless(shape, c)
    x, st, a, h = _run(s, worst, {}, x * 0, 400, st, seed + 3)
    rec.event(len(a))
    _, st2, _, h2 = _run(s, m, flat, x, 60, st, seed + 4)
    _, _, _, h0 = _run(s, m, flat, x, 60, None, seed + 4)
    rec.event(120)
    got, fresh = h2[-10:].mean(), h0[-10:].mean()
    rec.seen(sampler, opts, c, 'recovery', round(got, 2), round(fresh, 2))
    rec.sample(hopeless_acc=a[-100:].mean(), recovered=got, fresh=fresh)
    rec.check(got >= 0.6 * fresh, 'no-recovery', '%s %s: 60 steps after a '
              'hopeless target the moves change %.2f variables, a fresh '
              'sampler reaches %.2f' % (sampler, opts, got, fresh))


def _hopeless(shape, c):
  """A target on which nearly every proposal is rejected."""
  import jax
  import jax.numpy as jnp

  class Model:
    def forward(self, params, x):
      # one state is far better than all others
      if c > 2 and x.ndim > len(shape) + 1:
        x = jnp.argmax(x, -1)
      s = jnp.sum(x.reshape(x.shape[0], -1).astype(jnp.float32), -1)
      return 30.0 * (jnp.round(s) == 0)

    def get_value_and_grad(self, params, x):
      # the gradient tells nothing
      return self.forward(params, x), jnp.zeros(x.shape, jnp.float32)

  return Model()


def fixed(rec, sampler, c, opts, seed):
  """With adaptation off, the size of the moves never drifts."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from scipy import stats as st_
  from vmon import smp
  m, p, x, shape = _model(c, seed)
  s = smp.build(sampler, shape, c, adaptive=False, **opts)
  flat = jax.tree_util.tree_map(jnp.zeros_like, p)
  x, st, a, h = _run(s, m, flat, x, 400, None, seed)
  rec.event(len(a))
  first, last = h[:100].ravel(), h[-100:].ravel()
  rec.seen(sampler, opts, c, round(first.mean(), 3), round(last.mean(), 3))
  rec.sample(first=first.mean(), last=last.mean())
  se = np.sqrt((first.var() + last.var()) / len(first)) + 1e-9
  rec.check(abs(first.mean() - last.mean()) / se < 7.5, 'drift',
            '%s %s: move size drifts from %.3f to %.3f variables although '
            'adaptation is off' % (sampler, opts, first.mean(), last.mean()))
  if sampler == 'path_auxiliary':
    rec.check(bool((h == opts['num_flips']).all()), 'flips',
              '%d flips configured, moves of %s variables seen' % (
                  opts['num_flips'], sorted(set(h.ravel().tolist()))))
  if sampler == 'gwg':
    rec.check(bool((h >= (1 if opts['num_flips'] == 1 else 0)).all() and
                   (h <= opts['num_flips']).all()), 'flips',
              '%d flips configured, moves of %s variables seen' % (
                  opts['num_flips'], sorted(set(h.ravel().tolist()))))
  if sampler == 'randomwalk':
    z = (h.mean() - 1.0) / np.sqrt(1.0 / h.size)
    rec.check(abs(z) < 8, 'flips', 'random walk proposes %.3f changes per '
              'step instead of one' % h.mean())
  if sampler == 'dlmc':
    lo, hi = opts['n'] * 0.6, opts['n'] * 1.2
    rec.check(lo < h.mean() < hi, 'flips', 'Langevin proposal changes %.2f '
              'variables, %.1f configured' % (h.mean(), opts['n']))
  # on a real target: still no drift, honest acceptance
  x, st, a, h = _run(s, m, p, x, 600, st, seed + 1)
  rec.event(len(a))
  _honest(rec, '%s %s' % (sampler, opts), sampler, c, opts, a, h)
