"""C11: value-and-gradient agrees with the energy of every model."""

RULE = ('one evaluation = one partial derivative (or exact single-variable '
        'energy change) compared with what the model reports; distinct = '
        '(model, parameters, state) checked')
ASSUMPTIONS = [
    'derivatives are compared with central differences of the float32 energy '
    '(exact for polynomial energies of degree two)',
    'the gradient is required along the coordinates the samplers use: binary '
    'values, or one-hot coordinates']

QUADRATIC = ['bernoulli', 'bernoulli2d', 'categorical', 'ising', 'potts',
             'maxcut', 'mis', 'maxclique', 'normcut_quad']
# energy linear in each variable: gradient gives the exact change (the number
# of pairs in a clique is not)
MULTILINEAR = ['bernoulli', 'bernoulli2d', 'categorical', 'ising', 'potts',
               'maxcut', 'mis']
SMOOTH = ['rbm', 'rbm_categ', 'fhmm', 'fhmm_categ']


def cases(tier, seed):
  out = []
  reps = 3 if tier == 'quick' else 12
  for k in range(reps):
    for m in QUADRATIC + SMOOTH:
      for temp in ((1.0, 0.3) if m in ('maxcut', 'mis', 'maxclique',
                                       'normcut_quad') else (1.0,)):
        out.append(dict(name='%s-%g-%d' % (m, temp, k), fn='gradient',
                        args=dict(name=m, temp=temp, seed=seed * 43 + k)))
    out.append(dict(name='resnet-%d' % k, fn='resnet',
                    args=dict(seed=seed * 43 + k)))
    for c in (2, 3):
      out.append(dict(name='normcut-ratio-%d-%d' % (c, k), fn='ratio',
                      args=dict(c=c, seed=seed * 43 + k)))
  return out


def _grad_check(rec, name, model, params, x, c, h, tol, exact):
  """x integer states [B, ...]."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  enc = (jnp.array(x, jnp.float32) if c == 2 else
         jax.nn.one_hot(x, c, dtype=jnp.float32))
  val, grad = model.get_value_and_grad(params, enc)
  val, grad = np.asarray(val, np.float64), np.asarray(grad, np.float64)
  ll = np.asarray(model.forward(params, enc), np.float64)
  rec.check(grad.shape == enc.shape, 'shape', '%s: gradient of shape %s for '
            'states %s' % (name, grad.shape, enc.shape))
  scale = np.abs(ll).max() + 1
  rec.check(bool(np.abs(val - ll).max() <= 1e-4 * scale), 'value',
            '%s: value-and-gradient reports energy %s, forward %s' % (
                name, val[:3], ll[:3]))
  # integer states give the same information
  if c == 2:
    v2, g2 = model.get_value_and_grad(params, jnp.array(x, jnp.int32))
    rec.check(bool(np.allclose(g2, grad, rtol=1e-3, atol=1e-3 * (
        np.abs(grad).max() + 1))), 'int-gradient',
              '%s: gradient differs for integer states' % name)
  B = len(x)
  flat = np.asarray(enc).reshape(B, -1)
  D = flat.shape[1]
  big = np.repeat(flat, 2 * D, axis=0).reshape(B, D, 2, D)
  for d in range(D):
    big[:, d, 0, d] += h
    big[:, d, 1, d] -= h
  e = np.asarray(jax.jit(model.forward)(
      params, jnp.array(big.reshape((B * D * 2,) + enc.shape[1:]))),
                 np.float64).reshape(B, D, 2)
  fd = (e[:, :, 0] - e[:, :, 1]) / (2 * h)
  g = grad.reshape(B, D)
  gs = np.abs(fd).max() + 1
  err = np.abs(fd - g)
  rec.event(B * D)
  for i in range(B):
    rec.seen(name, x[i].tolist(), np.round(g[i], 3).tolist())
  k = np.unravel_index(np.argmax(err), err.shape)
  rec.check(bool(np.isfinite(g).all() and err.max() <= tol * gs + 2e-6 * scale
                 / h), 'gradient',
            '%s: derivative %d at %s reported %.6g, energy differences give '
            '%.6g' % (name, k[1], x[k[0]].tolist(), g[k], fd[k]))
  if not exact:
    return
  xf = x.reshape(B, -1)
  n = xf.shape[1]
  for i in range(min(B, 8)):
    for j in range(n):
      ys = []
      want = []
      for v in range(c):
        if v == xf[i, j]:
          continue
        y = xf[i].copy()
        y[j] = v
        ys.append(y)
        if c == 2:
          want.append((1 - 2 * xf[i, j]) * g[i, j])
        else:
          gg = g[i].reshape(n, c)
          want.append(gg[j, v] - gg[j, xf[i, j]])
      ys = np.array(ys).reshape((len(ys),) + x.shape[1:])
      z = (jnp.array(ys, jnp.float32) if c == 2 else
           jax.nn.one_hot(ys, c, dtype=jnp.float32))
      got = np.asarray(model.forward(params, z), np.float64) - ll[i]
      rec.event(len(got))
      if not rec.check(bool(np.abs(got - np.array(want)).max() <= 3e-4 * (
          scale + gs)), 'change', '%s: gradient predicts an energy change of '
                       '%s for variable %d of %s, the energies change by %s' %
                       (name, np.round(want, 5), j, x[i].tolist(),
                        np.round(got, 5))):
        return


def gradient(rec, name, temp, seed):
  import numpy as np
  from vmon import small
  m = small.small(name, seed, temp)
  rs = np.random.RandomState(seed)
  x = m['states'][rs.choice(len(m['states']), min(24, len(m['states'])),
                            replace=False)]
  quad = name in QUADRATIC
  exact = name in MULTILINEAR
  _grad_check(rec, name, m['model'], m['params'], x, m['c'],
              0.5 if quad else 0.02, 2e-3 if quad else 1.5e-2, exact)


def resnet(rec, seed):
  import jax
  import numpy as np
  from vmon import mdl
  rs = np.random.RandomState(seed)
  for mean in (None, rs.uniform(0.2, 0.8, 16)):
    model, _ = mdl.resnet(4, 4, mean)
    params = mdl.randomize(model.make_init_params(jax.random.PRNGKey(seed)),
                           seed, 0.3)
    x = rs.randint(0, 2, size=(6, 16)).astype(np.int32)
    _grad_check(rec, 'resnet', model, params, x, 2, 0.01, 3e-2, False)


def ratio(rec, c, seed):
  import jax.numpy as jnp
  import numpy as np
  from vmon import data, mdl
  rs = np.random.RandomState(seed)
  g = data.random_graph(rs, 8, 0.7, isolated=False)
  model, cfg, batch = mdl.graph_model('nets', [g], penalty=0.0,
                                      num_categories=c)
  p = dict(batch[0][1])
  p['temperature'] = jnp.float32(0.5)
  x = rs.randint(0, c, size=(12, 8))
  x[:, :c] = np.arange(c)
  ok = []
  for s in x:
    vol = np.zeros(c)
    for v in range(8):
      vol[s[v]] += g.degree(v)
    ok.append(vol.min() > 1)
  x = x[np.array(ok)]
  if len(x) == 0:
    return
  if c == 2:
    # two categories are still one-hot for this model
    _onehot2(rec, model, p, x)
  else:
    _grad_check(rec, 'normcut-ratio', model, p, x, c, 0.02, 2e-2, False)


def _onehot2(rec, model, p, x):
  import jax
  import jax.numpy as jnp
  import numpy as np
  z = jax.nn.one_hot(x, 2, dtype=jnp.float32)
  val, grad = model.get_value_and_grad(p, z)
  rec.check(bool(np.allclose(val, model.forward(p, jnp.array(x)), rtol=1e-3)),
            'value', 'normcut value differs')
  e = np.asarray(grad, np.float64)
  h = 0.02
  zz = np.asarray(z)
  for i in range(min(4, len(x))):
    for j in range(x.shape[1]):
      for v in range(2):
        a, b = zz[i:i + 1].copy(), zz[i:i + 1].copy()
        a[0, j, v] += h
        b[0, j, v] -= h
        fd = float(np.asarray(model.forward(p, a) - model.forward(p, b)
                              ).ravel()[0]) / (2 * h)
        rec.seen('normcut2', x[i].tolist(), j, v)
        if not rec.check(abs(fd - e[i, j, v]) < 2e-2 * (np.abs(e).max() + 1),
                         'gradient', 'normcut: derivative %.4g, differences '
                         '%.4g' % (e[i, j, v], fd)):
          return
