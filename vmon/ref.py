"""Reference energies in plain float64 numpy, from the definitions.

Each takes the model's parameters and integer states x [B, ...].
"""
import numpy as np


def _f(a):
  return np.asarray(a, np.float64)


def bernoulli(params, x):
  t = _f(params['params'])
  return np.array([(t * s).sum() for s in x])


def categorical(params, x):
  t = _f(params['params'])
  c = t.shape[-1]
  t = t.reshape(-1, c)
  return np.array([sum(t[i, v] for i, v in enumerate(s.reshape(-1)))
                   for s in x])


def ising(params, x):
  wh, wv, b = _f(params['params'])
  out = []
  for s in x:
    s = 2 * s - 1
    r, c = s.shape
    e = 0.0
    for i in range(r):
      for j in range(c):
        e += b[i, j] * s[i, j]
        if j + 1 < c:
          e += wh[i, j] * s[i, j] * s[i, j + 1]
        if i + 1 < r:
          e += wv[i, j] * s[i, j] * s[i + 1, j]
    out.append(-e)
  return np.array(out)


def potts(params, x):
  wh, wv, b = _f(params['params'])
  out = []
  for s in x:
    r, c = s.shape
    e = 0.0
    for i in range(r):
      for j in range(c):
        v = s[i, j]
        e += b[i, j, v]
        if j + 1 < c and s[i, j + 1] == v:
          e += wh[i, j, v]
        if i + 1 < r and s[i + 1, j] == v:
          e += wv[i, j, v]
    out.append(-e)
  return np.array(out)


def fhmm_binary(params, x, sigma, alpha, beta):
  w, b, y = _f(params['w']), _f(params['b']), _f(params['y'])
  out = []
  for s in x:
    L, K = s.shape
    ll = 0.0
    for k in range(K):
      ll += np.log(alpha) if s[0, k] else np.log(1 - alpha)
      for l in range(1, L):
        ll += np.log(beta) if s[l, k] == s[l - 1, k] else np.log(1 - beta)
    for l in range(L):
      m = sum(w[k, 0] * s[l, k] for k in range(K)) + b[0, 0]
      ll -= (y[l, 0] - m) ** 2 / (2 * sigma ** 2)
    out.append(ll)
  return np.array(out)


def fhmm_categ(params, x, sigma, alpha, beta, c):
  w, b, y = _f(params['w']), _f(params['b']), _f(params['y']).reshape(-1)
  a = _f(params['alpha'])
  out = []
  for s in x:
    L, K = s.shape
    ll = 0.0
    for k in range(K):
      ll += a[s[0, k]]
      for l in range(1, L):
        ll += (np.log(beta) if s[l, k] == s[l - 1, k]
               else np.log((1 - beta) / (c - 1)))
    for l in range(L):
      m = sum(w[k, s[l, k]] for k in range(K)) + b[0, 0]
      ll -= (y[l] - m) ** 2 / (2 * sigma ** 2)
    out.append(ll)
  return np.array(out)


def _softplus(z):
  return np.logaddexp(0.0, z)


def rbm_binary(params, x):
  w, bv, bh = _f(params['w']), _f(params['b_v']), _f(params['b_h'])
  return np.array([_softplus(s @ w + bh).sum() + (s * bv).sum() for s in x])


def rbm_categ(params, x):
  w, bv, bh = _f(params['w']), _f(params['b_v']), _f(params['b_h'])
  out = []
  for s in x:
    act = bh + sum(w[:, i, v] for i, v in enumerate(s))
    out.append(_softplus(act).sum() + sum(bv[i, v] for i, v in enumerate(s)))
  return np.array(out)


# --- combinatorial problems: from the networkx graph ---------------------


def maxcut(g, x):
  return np.array([sum(d['weight'] for u, v, d in g.edges(data=True)
                       if s[u] != s[v]) for s in x])


def mis(g, x, penalty):
  n = len(g)
  out = []
  for s in x:
    size = sum(int(s[v]) for v in range(n))
    bad = sum(1 for u, v in g.edges() if s[u] and s[v])
    out.append(size - penalty * bad)
  return np.array(out)


def maxclique(g, x, penalty):
  n = len(g)
  out = []
  for s in x:
    nodes = [v for v in range(n) if s[v]]
    missing = sum(1 for a in range(len(nodes)) for b in range(a)
                  if not g.has_edge(nodes[a], nodes[b]))
    out.append(len(nodes) - penalty * missing)
  return np.array(out)


def normcut(g, x, c, penalty, stype='quad', tolerance=0.0):
  """Objective to maximise (minus cost); x covers all (padded) positions."""
  n = len(g)
  out = []
  for s in x:
    cut = np.zeros(c)
    for u, v in g.edges():
      if s[u] != s[v]:
        cut[s[u]] += 1
        cut[s[v]] += 1
    sizes = np.bincount(s, minlength=c).astype(float)
    if penalty > 0:
      avg = len(s) / c
      if stype == 'quad':
        bal = ((sizes - avg) ** 2).sum()
      else:
        tol = tolerance * len(s)
        bal = (np.maximum(np.abs(sizes - avg) - tol, 0.0) ** 2).sum()
      out.append(-(cut.sum() + penalty * bal))
    else:
      vol = np.zeros(c)
      for v in range(n):
        vol[s[v]] += g.degree(v)
      if (vol == 0).any():
        out.append(np.nan)        # undefined: a part without edges
      else:
        out.append(-(cut / vol).sum())
  return np.array(out)


def _conv(x, p, k, stride, pad):
  """NHWC convolution; p holds kernel [k, k, in, out] and bias."""
  w, b = np.asarray(p['kernel'], np.float64), np.asarray(p['bias'], np.float64)
  x = np.pad(x, ((0, 0), (pad, pad), (pad, pad), (0, 0)))
  h = (x.shape[1] - k) // stride + 1
  v = (x.shape[2] - k) // stride + 1
  out = np.zeros((x.shape[0], h, v, w.shape[3])) + b
  for i in range(k):
    for j in range(k):
      out += x[:, i:i + (h - 1) * stride + 1:stride,
               j:j + (v - 1) * stride + 1:stride] @ w[i, j]
  return out


def resnet(params, x, side):
  """Binary image network: stem, two downsampling and six plain blocks."""
  swish = lambda z: z / (1 + np.exp(-z))
  try:
    h = np.asarray(x, np.float64).reshape(-1, side, side, 1)
    h = _conv(h, params['Conv_0'], 3, 1, 1)
    for b in range(8):
      p = params['BasicBlock_%d' % b]
      stride = 2 if b < 2 else 1
      o = swish(_conv(h, p['Conv_0'], 3, stride, 1))
      o = _conv(o, p['Conv_1'], 3, 1, 1)
      if stride == 2:
        # 1x1 'SAME' convolution: every second position
        o = o + _conv(h, p['shortcut_conv'], 1, 2, 0)
      else:
        o = o + h
      h = swish(o)
    h = h.mean((1, 2))
    d = params['Dense_0']
    return (h @ np.asarray(d['kernel'], np.float64) +
            np.asarray(d['bias'], np.float64))[:, 0]
  except KeyError:
    return None
