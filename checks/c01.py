"""C01: conditional-resampling samplers follow the exact conditionals."""
from vmon import recorder  # noqa: F401

RULE = ('one evaluation = one observed sampler transition compared with the '
        'exact conditional; distinct = (configuration, scan position, start '
        'state, end state) actually observed')
ASSUMPTIONS = [
    'targets are arbitrary energy tables over <= 256 states and small RBMs',
    'transition frequencies are judged at p < 1e-11']


def cases(tier, seed):
  out = []
  spaces = [((4,), 2), ((2, 2), 2), ((5,), 2), ((3,), 3), ((2,), 4),
            ((1, 2), 5)]
  per = 3000 if tier == 'quick' else 20000
  tabs = 1 if tier == 'quick' else 4
  def add(s, shape, c, t, **opts):
    name = '%s-%s-%d-%s-t%d' % (s, 'x'.join(map(str, shape)), c,
                                '_'.join('%s%s' % kv for kv in opts.items()), t)
    fn = 'hamming' if s == 'hammingball' else 'scan'
    out.append(dict(name=name, fn=fn, cost=2 if s == 'hammingball' else 1,
                    args=dict(sampler=s, shape=shape, c=c, opts=opts,
                              per=per * (3 if s == 'hammingball' else 1),
                              seed=seed * 101 + t)))
  for t in range(tabs):
    for shape, c in spaces:
      n = 1
      for d in shape:
        n *= d
      add('gibbs', shape, c, t)
      for b in sorted({1, 2, 3, n}):
        if b <= n and c ** b <= 64:
          add('blockgibbs', shape, c, t, block_size=b)
      for b in sorted({1, 2, n}):
        if b <= n:
          add('hammingball', shape, c, t, block_size=b)
          out[-1]['args']['batch'] = 1
          if b == 2 or tier != 'quick':
            add('hammingball', shape, c, t, block_size=b)
            out[-1]['args']['batch'] = 4
            out[-1]['name'] += '-batch4'
    for nv, nh in [(3, 2), (4, 5)]:
      out.append(dict(name='rbm-%dx%d-t%d' % (nv, nh, t), fn='rbm',
                      args=dict(nv=nv, nh=nh, seed=seed * 31 + t,
                                per=per * 4)))
  return out


def _states(smp, jax, sampler, model, tab, count, seed):
  """Sampler states met along a run, one per scan position."""
  import jax.numpy as jnp
  params = {'table': jnp.array(tab, jnp.float32)}
  st = sampler.make_init_state(jax.random.PRNGKey(seed))
  x = model.get_init_samples(jax.random.PRNGKey(seed + 5), 4)
  step = jax.jit(lambda k, x, st: sampler.step(model, k, x, params, st)[:2])
  res = []
  for t in range(count):
    res.append(st)
    x, st = step(jax.random.PRNGKey(1000 + t), x, st)
  return res


def _exact_conditional(pi, states, U):
  """T[x, y] = pi(y) / sum pi over states agreeing with x outside U."""
  import numpy as np
  n = states.shape[1]
  rest = [i for i in range(n) if i not in U]
  same = np.all(states[:, None, rest] == states[None, :, rest], axis=-1)
  T = same * pi[None, :]
  return T / T.sum(1, keepdims=True)


def scan(rec, sampler, shape, c, opts, per, seed):
  import jax
  import numpy as np
  from vmon import smp, stats, table
  s = smp.build(sampler, shape, c, **opts)
  model = table.TableModel(shape, c)
  n = model.n
  size = opts.get('block_size', 1)
  tab = smp.random_table(seed, n, c, 1.2)
  pi = smp.softmax(tab)
  states = table.all_states(n, c)
  touched = []
  for pos, st in enumerate(_states(smp, jax, s, model, tab, 2 * n, seed)):
    M = smp.transitions(s, model, tab, st, per, 8, seed + pos)
    rec.event(M.sum())
    ii, jj = np.nonzero(M)
    for i, j in zip(ii, jj):
      rec.seen(sampler, shape, c, opts, pos, i, j)
    U = set(np.nonzero((states[ii] != states[jj]).any(0))[0].tolist())
    touched.append(U)
    rec.check(len(U) <= size, 'block-too-large',
              'step %d changed variables %s, more than the block size %d'
              % (pos, sorted(U), size))
    T = _exact_conditional(pi, states, U)
    for i in range(len(states)):
      p = stats.gof(M[i], T[i])
      if p < stats.P_MIN:
        rec.fail('conditional',
                 'step %d from state %s: new values of variables %s do not '
                 'follow the exact conditional (p=%.1e)'
                 % (pos, states[i].tolist(), sorted(U), p),
                 observed=M[i], expected=T[i] * M[i].sum(), table=tab)
        break
    rec.sample(position=pos, start=states[0], counts=M[0], exact=T[0])
  for a in range(n + 1):
    cover = set().union(*touched[a:a + n])
    rec.check(cover == set(range(n)), 'scan',
              'variables %s are never resampled in %d consecutive steps'
              % (sorted(set(range(n)) - cover), n), start=a)


def hamming(rec, sampler, shape, c, opts, per, seed, batch):
  """Reversible w.r.t. the target, inside the block, any two neighbours."""
  import jax
  import numpy as np
  from vmon import smp, stats, table
  s = smp.build(sampler, shape, c, **opts)
  model = table.TableModel(shape, c)
  n = model.n
  size = opts['block_size']
  tab = smp.random_table(seed, n, c, 1.2)
  pi = smp.softmax(tab)
  states = table.all_states(n, c)
  touched = []
  for pos, st in enumerate(_states(smp, jax, s, model, tab, n, seed)):
    M = smp.transitions(s, model, tab, st, per, batch, seed + pos)
    rec.event(M.sum())
    ii, jj = np.nonzero(M)
    for i, j in zip(ii, jj):
      rec.seen(sampler, shape, c, opts, pos, i, j)
    U = set(np.nonzero((states[ii] != states[jj]).any(0))[0].tolist())
    touched.append(U)
    rec.check(len(U) <= size, 'block-too-large',
              'step %d changed variables %s' % (pos, sorted(U)))
    db = stats.detailed_balance(M, pi)
    zs = stats.stationarity(M, pi)
    if batch > 1:
      # chains of a batch draw their radius together: at worst the batch is
      # one observation
      db['z'] = db['z'] / batch ** 0.5
      zs = zs / batch ** 0.5
      db['rare_p'] = 1.0
    worst = float(np.abs(db['z']).max()) if len(db['z']) else 0.0
    rec.sample(position=pos, pairs=len(db['z']), worst_z=worst,
               stationarity_z=float(np.abs(zs).max()))
    if (worst > stats.Z_MAX or stats.pvalue(db['z']) < stats.P_MIN
        or np.abs(zs).max() > stats.Z_MAX or db['rare_p'] < 1e-12):
      k = int(np.argmax(np.abs(db['z']))) if len(db['z']) else 0
      rec.fail('not-invariant',
               'scan position %d: flows between states %s and %s are not '
               'balanced (z=%.1f, overall p=%.1e, stationarity z=%.1f)' % (
                   pos, states[db['i'][k]].tolist(),
                   states[db['j'][k]].tolist(), worst,
                   stats.pvalue(db['z']), np.abs(zs).max()), table=tab)
  cover = set().union(*touched)
  rec.check(cover == set(range(n)), 'scan', 'variables %s never resampled'
            % sorted(set(range(n)) - cover))


def rbm(rec, nv, nh, seed, per):
  """Alternating hidden/visible sampling of the RBM, against its energies."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from ml_collections import config_dict
  from discs.models import rbm as rbm_lib
  from discs.samplers import blockgibbs
  from vmon import stats, table
  rs = np.random.RandomState(seed)
  cfg = config_dict.ConfigDict(dict(model=dict(
      shape=(nv,), num_visible=nv, num_hidden=nh, num_categories=2)))
  model = rbm_lib.build_model(cfg)
  w, bv, bh = rs.randn(nv, nh), rs.randn(nv), rs.randn(nh)
  params = dict(w=jnp.array(w, jnp.float32), b_v=jnp.array(bv, jnp.float32),
                b_h=jnp.array(bh, jnp.float32))
  s = blockgibbs.RBMBlockGibbsSampler(cfg)
  st = s.make_init_state(jax.random.PRNGKey(0))
  V, H = table.all_states(nv, 2), table.all_states(nh, 2)
  joint = V @ w @ H.T + (V @ bv)[:, None] + (H @ bh)[None]
  pj = np.exp(joint - joint.max())
  pj /= pj.sum()
  ph = pj / pj.sum(1, keepdims=True)          # p(h | v)
  pv = (pj / pj.sum(0, keepdims=True)).T      # p(v | h)
  T = ph @ pv
  pi = pj.sum(1)
  ll = np.asarray(model.forward(params, jnp.array(V, jnp.float32)))
  want = np.log(pi)
  gap = (ll - ll.max()) - (want - want.max())
  rec.check(np.abs(gap).max() < 1e-3, 'energy',
            'RBM energies differ from the marginal of the joint', gap=gap)
  start = np.repeat(np.arange(len(V)), per)
  y, st2 = jax.jit(lambda k, x: s.step(model, k, x, params, st))(
      jax.random.PRNGKey(seed), jnp.array(V[start], jnp.float32))
  y = np.asarray(y).astype(int)
  M = np.zeros((len(V), len(V)))
  np.add.at(M, (start, table.state_index(y, 2)), 1)
  rec.event(M.sum())
  for i in range(len(V)):
    for j in np.nonzero(M[i])[0]:
      rec.seen('rbm', nv, nh, i, j)
    p = stats.gof(M[i], T[i])
    rec.check(p >= stats.P_MIN, 'conditional',
              'RBM sweep from %s does not follow p(v|h)p(h|v) (p=%.1e)'
              % (V[i].tolist(), p), observed=M[i], expected=T[i] * per)
  rec.sample(start=V[0], counts=M[0], exact=T[0])
