"""C06: step and likelihood-evaluation counts are honest."""

RULE = ('one evaluation = one sampler step whose reported counters are '
        'compared with the evaluations the model really received; distinct = '
        '(sampler, options, space, step, counts)')
ASSUMPTIONS = [
    'a gradient evaluation counts as two likelihood evaluations, as every '
    'sampler in the repository counts it',
    'an exact neighbourhood evaluation counts as the model declares']

from checks.c04 import VARIANTS


def cases(tier, seed):
  out = []
  spaces = {2: [(4,), (2, 3), (1,)], 3: [(3,), (2, 2)], 5: [(2,)]}
  for s, opts, cats in VARIANTS:
    cs = cats + ((5,) if 3 in cats else ())
    for c in cs:
      for shape in spaces[c]:
        size = shape[0] * (shape[1] if len(shape) > 1 else 1)
        o = {k: (min(v, size) if k in ('block_size', 'num_flips') else v)
             for k, v in opts.items()}
        for mode in ('jit', 'eager'):
          if mode == 'eager' and (shape != spaces[c][0] or s == 'hammingball'):
            continue
          out.append(dict(
              name='%s-%d-%s-%s-%s' % (s, c, 'x'.join(map(str, shape)),
                                       '_'.join('%s%s' % kv
                                                for kv in o.items()), mode),
              fn='count', args=dict(
                  sampler=s, opts=o, c=c, shape=shape, seed=seed, mode=mode,
                  steps=(25 if mode == 'jit' else 4) *
                  (1 if tier == 'quick' else 10))))
  for s in ('dlmc', 'dmala'):
    out.append(dict(name='%s-coopt' % s, fn='count', args=dict(
        sampler=s, opts=dict(adaptive=True), c=2, shape=(4,), seed=seed,
        mode='jit', steps=25, co_opt=True)))
  for b in (1, 3, 4):
    out.append(dict(name='blockgibbs-b%d' % b, fn='count', args=dict(
        sampler='blockgibbs', opts=dict(block_size=b), c=2, shape=(12,),
        seed=seed, mode='jit', steps=25)))
    out.append(dict(name='hammingball-b%d' % b, fn='count', args=dict(
        sampler='hammingball', opts=dict(block_size=b), c=3, shape=(4,),
        seed=seed, mode='jit', steps=25)))
  return out


def _counting(shape, c, declared):
  import jax
  import numpy as np
  from vmon import table

  class Counting(table.TableModel):
    """Counts, at run time, the states whose energy is really evaluated."""

    rows = 0
    grad_rows = 0
    exact_rows = 0

    def _add(self, what, n):
      def cb():
        setattr(self, what, getattr(self, what) + n)
      jax.debug.callback(cb)

    def forward(self, params, x):
      self._add('rows', int(x.shape[0]))
      return self._ll(params, x)

    def get_value_and_grad(self, params, x):
      self._add('grad_rows', int(x.shape[0]))
      return super().get_value_and_grad(params, x)

    def logratio_in_neighborhood(self, params, x):
      self._add('exact_rows', int(x.shape[0]))
      ll, r, _, f = super().logratio_in_neighborhood(params, x)
      return ll, r, declared, f

  return Counting(shape, c)


def count(rec, sampler, opts, c, shape, seed, mode, steps, co_opt=False):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import smp
  s = smp.build(sampler, shape, c, co_opt=co_opt, **opts)
  rs = np.random.RandomState(seed)
  for declared in (1, 6):
    model = _counting(shape, c, declared)
    params = {'table': jnp.array(
        smp.random_table(seed, model.n, c, 1.0), jnp.float32)}
    f = lambda k, x, st: s.step(model, k, x, params, dict(st))
    step = jax.jit(f) if mode == 'jit' else f
    for batch in (1, 4):
      st = s.make_init_state(jax.random.PRNGKey(seed))
      rec.check(int(st['num_ll_calls']) == 0 and int(st['steps']) == 0,
                'initial', 'counters start at %s' % st)
      x = jnp.array(rs.randint(0, c, size=(batch,) + tuple(shape)), jnp.int32)
      for t in range(steps if declared == 1 else min(steps, 4)):
        before = (int(st['num_ll_calls']), int(st['steps']))
        model.rows = model.grad_rows = model.exact_rows = 0
        x, st, _ = step(jax.random.fold_in(jax.random.PRNGKey(seed), t), x, st)
        jax.block_until_ready((x, st))
        jax.effects_barrier()
        real = (model.rows + 2 * model.grad_rows +
                declared * model.exact_rows) / batch
        d = (int(st['num_ll_calls']) - before[0], int(st['steps']) - before[1])
        rec.event(1)
        rec.seen(sampler, opts, c, shape, batch, t, declared, real, d)
        ok = rec.check(real > 0, 'no-evaluation', 'step %d of %s evaluated '
                       'nothing' % (t, sampler))
        ok = ok and rec.check(
            d[0] == real, 'evaluations',
            '%s %s: step %d reports %d likelihood evaluations per chain, the '
            'model received %s (%d energies, %d gradients, %d neighbourhoods '
            'for %d chains)' % (sampler, opts, t, d[0], real, model.rows,
                                model.grad_rows, model.exact_rows, batch))
        ok = ok and rec.check(d[1] == 1, 'steps', '%s %s: one step counted as '
                              '%d' % (sampler, opts, d[1]))
        if not ok:
          return
  rec.sample(sampler=sampler, opts=opts, per_step=d[0])
