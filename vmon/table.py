"""Harness-owned target: an arbitrary energy table over a small discrete space.

The continuous extension (needed by gradient-informed samplers) is the
multilinear interpolation of the table, so integer, float and one-hot inputs
agree by construction and the gradient is a deliberately poor (but legal)
predictor of the true energy differences.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np


def all_states(n, c):
  """All states as an int array [c**n, n] in lexicographic order."""
  return np.array(list(itertools.product(range(c), repeat=n)), dtype=np.int32)


def state_index(x, c):
  """Inverse of all_states: x [..., n] -> index."""
  n = x.shape[-1]
  w = np.array([c ** (n - 1 - i) for i in range(n)], dtype=np.int64)
  return (np.asarray(x).astype(np.int64) * w).sum(-1)


class TableModel:
  """Duck-typed DISCS model with energies params['table'][state]."""

  def __init__(self, shape, num_categories):
    self.shape = tuple(shape)
    self.n = int(np.prod(shape))
    self.num_categories = num_categories
    self.states = jnp.array(all_states(self.n, num_categories))
    self.forward_calls = 0
    self.grad_calls = 0

  def _weights(self, x):
    c = self.num_categories
    if c == 2 and x.ndim == 1 + len(self.shape):
      x = x.reshape(x.shape[0], self.n).astype(jnp.float32)
      probs = jnp.stack([1 - x, x], -1)
    else:
      if x.ndim == 1 + len(self.shape):
        x = jax.nn.one_hot(x, c)
      probs = x.reshape(x.shape[0], self.n, c).astype(jnp.float32)
    w = jnp.ones((x.shape[0], self.states.shape[0]))
    for i in range(self.n):
      w = w * probs[:, i, :][:, self.states[:, i]]
    return w

  def _ll(self, params, x):
    return self._weights(x) @ params['table']

  def forward(self, params, x):
    self.forward_calls += 1
    return self._ll(params, x)

  def get_value_and_grad(self, params, x):
    self.grad_calls += 1
    x = x.astype(jnp.float32)

    def fun(z):
      ll = self._ll(params, z)
      return jnp.sum(ll), ll

    (_, ll), grad = jax.value_and_grad(fun, has_aux=True)(x)
    return ll, grad

  def logratio_in_neighborhood(self, params, x):
    """Exact log-ratios for every single-variable change."""
    self.forward_calls += 1
    x = x.astype(jnp.float32)
    ll = self._ll(params, x)
    c = self.num_categories
    if c == 2:
      xf = x.reshape(x.shape[0], self.n)
      cols = []
      for i in range(self.n):
        y = xf.at[:, i].set(1 - xf[:, i])
        cols.append(self._ll(params, y.reshape(x.shape)) - ll)
      return ll, jnp.stack(cols, 1).reshape(x.shape), 1, None
    xf = x.reshape(x.shape[0], self.n, c)
    rows = []
    for i in range(self.n):
      vals = []
      for v in range(c):
        y = xf.at[:, i].set(jax.nn.one_hot(jnp.full((x.shape[0],), v), c))
        vals.append(self._ll(params, y.reshape(x.shape)) - ll)
      rows.append(jnp.stack(vals, -1))
    return ll, jnp.stack(rows, 1).reshape(x.shape), 1, None

  def get_init_samples(self, rng, num_samples):
    return jax.random.randint(
        rng, (num_samples,) + self.shape, 0, self.num_categories,
        dtype=jnp.int32)

  def make_init_params(self, rng):
    return {'table': jax.random.normal(rng, (self.states.shape[0],))}
