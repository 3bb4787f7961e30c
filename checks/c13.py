"""C13: random selection draws the right items and reports their likelihood."""

RULE = ('one evaluation = one random draw (or one reported log-likelihood) '
        'observed; distinct = (primitive, distribution, size, outcome) seen')
ASSUMPTIONS = ['distributions over <= 7 items with probabilities above 1e-3 '
               'for the likelihood comparison', 'laws judged at p < 1e-11']


def cases(tier, seed):
  out = []
  reps = 1 if tier == 'quick' else 4
  draws = 40000 if tier == 'quick' else 400000
  for k in range(reps):
    for n in (2, 4, 6):
      for ns in range(1, n + 1):
        for const in (True, False):
          for repl in (True, False):
            for order in ((False, True) if not const and not repl else
                          (False,)):
              out.append(dict(
                  name='draw-%d-%d-c%d-r%d-o%d-%d' % (n, ns, const, repl,
                                                      order, k),
                  fn='draw', args=dict(n=n, ns=ns, const=const, repl=repl,
                                       order=order, draws=draws,
                                       seed=seed * 83 + k)))
    for bs in (2, 3):
      out.append(dict(name='chunked-%d-%d' % (bs, k), fn='chunked', args=dict(
          bs=bs, seed=seed * 83 + k, draws=draws)))
    out.append(dict(name='batched-%d' % k, fn='batched', args=dict(
        seed=seed * 83 + k)))
    out.append(dict(name='accept-%d' % k, fn='accept', args=dict(
        seed=seed * 83 + k, draws=draws)))
    out.append(dict(name='numeric-%d' % k, fn='numeric', args=dict(
        seed=seed * 83 + k)))
  return out


def _logp(rs, n):
  import numpy as np
  w = rs.uniform(-2, 2, size=n)
  return (w - np.log(np.exp(w).sum())).astype(np.float64)


def _pl(logp, order):
  """log-probability of picking `order` one after the other."""
  import numpy as np
  p = np.exp(logp)
  p = p / p.sum()
  left, out = 1.0, []
  for i in order:
    out.append(np.log(p[i] / left))
    left -= p[i]
  return np.array(out)


def draw(rec, n, ns, const, repl, order, draws, seed):
  import itertools
  import math as pm
  import jax
  import jax.numpy as jnp
  import numpy as np
  from discs.common import math_util as math
  from vmon import stats
  rs = np.random.RandomState(seed + 31 * n + ns)
  logp = _logp(rs, n)
  p = np.exp(logp)
  lp = jnp.array(logp, jnp.float32)[None]
  num = ns if const else jnp.int32(ns)

  def one(k, num):
    return math.multinomial(
        k, lp, ns if const else num, replacement=repl, is_nsample_const=const,
        return_ll=True, need_ordering_info=order)

  keys = jax.random.split(jax.random.PRNGKey(rs.randint(1 << 30)), draws)
  sel, ll = jax.jit(jax.vmap(one, in_axes=(0, None)))(keys, jnp.int32(ns))
  ll = np.asarray(ll, np.float64)[:, 0]
  tag = '%d of %d items, %s' % (ns, n, dict(const=const, repl=repl))
  if const:
    idx = np.asarray(sel)[:, 0]
    if not rec.check(idx.shape == (draws, ns) and ll.shape == (draws, ns) and
                     idx.min() >= 0 and idx.max() < n, 'shape',
                     '%s: %s' % (tag, idx.shape)):
      return
    if not repl:
      s = np.sort(idx, 1)
      if not rec.check(bool((s[:, 1:] != s[:, :-1]).all()), 'repeated',
                       '%s: item drawn twice without replacement' % tag):
        return
    seqs = [tuple(r) for r in idx.tolist()]
  else:
    cnt = np.asarray(sel['selected_mask'] if order else sel)[:, 0]
    if not rec.check(cnt.shape == (draws, n) and (cnt >= 0).all() and
                     (cnt.sum(1) == ns).all() and
                     (repl or cnt.max() <= 1), 'count',
                     '%s: %s items drawn' % (tag, sorted(set(
                         cnt.sum(1).tolist())))):
      return
    if order:
      pert = np.asarray(sel['perturbed_ll'])[:, 0]
      seqs = []
      for c, q in zip(cnt, pert):
        o = np.argsort(-q)[:ns]
        if set(o.tolist()) != set(np.nonzero(c)[0].tolist()):
          rec.fail('order', '%s: ordering information disagrees with the '
                   'selection' % tag)
          return
        seqs.append(tuple(o.tolist()))
    else:
      seqs = [tuple(r) for r in cnt.tolist()]
  rec.event(draws)
  for q in set(seqs):
    rec.seen(n, ns, const, repl, order, q)
  # law
  if const and repl:
    outcomes = list(itertools.product(range(n), repeat=ns)) if n ** ns <= 300 \
        else None
    if outcomes is None:
      for pos in range(ns):
        pv = stats.gof(np.bincount(idx[:, pos], minlength=n), p)
        rec.check(pv > stats.P_MIN, 'law', '%s: p=%.1e' % (tag, pv))
    else:
      pr = [np.prod(p[list(o)]) for o in outcomes]
      _law(rec, tag, seqs, outcomes, pr)
  elif repl:
    outcomes = [o for o in itertools.product(range(ns + 1), repeat=n)
                if sum(o) == ns] if (ns + 1) ** n < 200000 else []
    pr = [pm.factorial(ns) / np.prod([float(pm.factorial(v)) for v in o]) *
          np.prod(p ** np.array(o)) for o in outcomes]
    _law(rec, tag, seqs, outcomes, pr)
  else:
    perms = list(itertools.permutations(range(n), ns))
    pp = np.array([np.exp(_pl(logp, o).sum()) for o in perms])
    if const or order:
      _law(rec, tag, seqs, perms, pp)
    else:
      agg = {}
      for o, q in zip(perms, pp):
        m = tuple(1 if i in o else 0 for i in range(n))
        agg[m] = agg.get(m, 0) + q
      _law(rec, tag, seqs, list(agg), list(agg.values()))
  # likelihood
  for i in rs.choice(draws, 300):
    if const and repl:
      want = logp[list(seqs[i])]
      bad = np.abs(ll[i] - want).max()
    elif repl:
      want = np.array(seqs[i]) * logp
      bad = np.abs(ll[i] - want).max()
    elif const:
      want = _pl(logp, seqs[i])
      # the last of all items is certain: log 1 = 0
      bad = np.abs(ll[i] - want).max()
    elif order:
      want = np.zeros(n)
      want[list(seqs[i])] = _pl(logp, seqs[i])
      bad = np.abs(ll[i] - want).max()
    else:
      # order unknown: must be one of the orders of the selected set
      chosen = [j for j in range(n) if seqs[i][j]]
      opts = [_pl(logp, o).sum() for o in itertools.permutations(chosen)]
      bad = np.abs(np.array(opts) - ll[i].sum()).min()
      want = opts
    rec.event(1)
    if not rec.check(bool(bad < 5e-3), 'likelihood',
                     '%s: log-likelihood of %s reported as %s, is %s' % (
                         tag, seqs[i], np.round(ll[i], 4),
                         np.round(want, 4)), logp=logp):
      return


def _law(rec, tag, seqs, outcomes, pr):
  import numpy as np
  from vmon import stats
  pos = {o: i for i, o in enumerate(outcomes)}
  cnt = np.zeros(len(outcomes) + 1)
  for s in seqs:
    cnt[pos.get(s, len(outcomes))] += 1
  if cnt[-1]:
    rec.fail('law', '%s: impossible outcome' % tag)
    return
  pr = np.array(pr) / np.sum(pr)
  pv = stats.gof(cnt[:-1], pr)
  rec.sample(what=tag, p=pv, outcomes=len(outcomes))
  k = int(np.argmax(np.abs(cnt[:-1] / cnt.sum() - pr)))
  rec.check(pv > stats.P_MIN, 'law',
            '%s: outcome %s seen with frequency %.4f, probability %.4f '
            '(p=%.1e)' % (tag, outcomes[k], cnt[k] / cnt.sum(), pr[k], pv))


def chunked(rec, bs, seed, draws):
  """Drawing with replacement in chunks gives the same law and count."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from discs.common import math_util as math
  from vmon import stats
  rs = np.random.RandomState(seed)
  logp = _logp(rs, 4)
  lp = jnp.array(logp, jnp.float32)[None]
  f = jax.jit(jax.vmap(lambda k, m: math.multinomial(
      k, lp, m, replacement=True, is_nsample_const=False, batch_size=bs),
                       in_axes=(0, None)))
  keys = jax.random.split(jax.random.PRNGKey(seed), draws // 4)
  for ns in (1, 2, 3, 5, 6, 7):
    c = np.asarray(f(keys, jnp.int32(ns)))[:, 0]
    rec.event(len(c))
    for v in np.unique(c, axis=0):
      rec.seen('chunk', bs, ns, v.tolist())
    rec.check(bool((c.sum(1) == ns).all()), 'count', 'chunks of %d: %s items '
              'instead of %d' % (bs, sorted(set(c.sum(1).tolist())), ns))
    if ns > 1:
      # joint law through the number of times the first item is drawn
      from scipy import stats as st
      q = np.exp(logp[0])
      pv = stats.gof(np.bincount(c[:, 0], minlength=ns + 1),
                     st.binom.pmf(np.arange(ns + 1), ns, q))
    else:
      pv = stats.gof(c.sum(0), np.exp(logp))
    rec.check(pv > stats.P_MIN, 'law', 'chunks of %d, %d items: p=%.1e' % (
        bs, ns, pv))


def batched(rec, seed):
  """Rows of a batch follow their own distribution."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from discs.common import math_util as math
  rs = np.random.RandomState(seed)
  n = 5
  for shape in ((3,), (2, 2)):
    for const in (True, False):
      for repl in (True, False):
        lp = np.full(shape + (n,), -50.0)
        peak = {}
        for b in np.ndindex(*shape):
          two = rs.choice(n, 2, replace=False)
          lp[b][two] = np.log([0.5, 0.5])
          peak[b] = set(two.tolist())
        for r in range(25):
          sel = math.multinomial(
              jax.random.PRNGKey(rs.randint(1 << 30)), jnp.array(
                  lp, jnp.float32), 2 if const else jnp.int32(2),
              replacement=repl, is_nsample_const=const)
          sel = np.asarray(sel)
          for b in np.ndindex(*shape):
            got = (set(sel[b].tolist()) if const else
                   set(np.nonzero(sel[b])[0].tolist()))
            rec.event(1)
            rec.seen('rows', shape, const, repl, b, sorted(got))
            if not rec.check(got <= peak[b] and (repl or got == peak[b]),
                             'row', 'row %s of a batch drew %s, its '
                             'distribution only has %s' % (b, got, peak[b])):
              return


def accept(rec, seed, draws):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from discs.common import math_util as math
  logs = np.array([0.0, 0.5, 30.0, -0.01, -0.1, -0.7, -1.5, -3.0, -6.0, -80.0,
                   -np.inf, np.nan])
  cur = jnp.arange(len(logs) * 6).reshape(len(logs), 2, 3)
  new = cur + 1000
  f = jax.jit(jax.vmap(lambda k: math.mh_step(
      k, jnp.array(logs, jnp.float32), cur, new)))
  y, acc = f(jax.random.split(jax.random.PRNGKey(seed), draws))
  y, acc = np.asarray(y), np.asarray(acc)
  rec.event(draws * len(logs))
  took = (y == np.asarray(new)[None]).reshape(draws, len(logs), -1)
  kept = (y == np.asarray(cur)[None]).reshape(draws, len(logs), -1)
  rec.check(bool((took.all(-1) | kept.all(-1)).all()), 'mixed',
            'accept step mixed the two states of a chain')
  rec.check(bool((took.all(-1) == acc.astype(bool)).all()), 'flag',
            'accept flag disagrees with the state returned')
  rate = took.all(-1).mean(0)
  for i, l in enumerate(logs):
    p = 0.0 if np.isnan(l) else min(1.0, np.exp(l))
    rec.seen('accept', l, round(float(rate[i]), 4))
    sd = np.sqrt(max(p * (1 - p), 1e-12) / draws)
    rec.check(bool(abs(rate[i] - p) <= 7.5 * sd + 1e-5), 'rate',
              'log-probability %g accepted with frequency %.4f' % (l, rate[i]))
  # chains decide independently
  a = took.all(-1)[:, 5]
  b = took.all(-1)[:, 4]
  from scipy import stats as st
  t = np.array([[(a & b).sum(), (a & ~b).sum()], [(~a & b).sum(),
                                                  (~a & ~b).sum()]])
  pv = st.chi2_contingency(t, correction=False)[1]
  rec.check(pv > 1e-11, 'dependent', 'acceptance of two chains dependent '
            '(p=%.1e)' % pv)


def numeric(rec, seed):
  import math as pm
  import jax
  import jax.numpy as jnp
  import numpy as np
  from discs.common import math_util as math
  rs = np.random.RandomState(seed)
  # log(1 - e^-|x|)
  x = np.concatenate([10 ** rs.uniform(-6, 1.9, 400), [0.693, 0.6931, 0.6932]])
  x = np.concatenate([x, -x]).astype(np.float32)
  got = np.asarray(math.log1mexp(jnp.array(x)), np.float64)
  a = np.abs(x.astype(np.float64))
  want = np.where(a < 0.7, np.log(-np.expm1(-a)), np.log1p(-np.exp(-a)))
  rec.event(len(x))
  for v in x:
    rec.seen('log1mexp', float(v))
  err = np.abs(got - want) / (np.abs(want) + 1e-30)
  small = np.abs(want) < 1e-37
  err[small] = np.abs(got - want)[small]
  k = int(np.argmax(err))
  rec.check(bool(err[k] < 2e-5), 'log1mexp', 'log(1-exp(-|%g|)) = %g reported, '
            'is %g' % (x[k], got[k], want[k]))
  # sequential renormalisation
  for r in range(60):
    n = rs.randint(2, 7)
    lp = _logp(rs, n)
    m = rs.randint(1, n + 1)
    o = rs.permutation(n)[:m]
    want = _pl(lp, o)
    for axis in (-1, 0):
      z = jnp.array(lp[o], jnp.float32)
      z = z[None] if axis == -1 else z[:, None]
      got = np.asarray(math.noreplacement_sampling_renormalize(z, axis),
                       np.float64).ravel()
      rec.event(1)
      rec.seen('renorm', o.tolist(), np.round(lp, 3).tolist(), axis)
      rec.check(bool(np.abs(got - want).max() < 5e-3), 'renormalise',
                'picking %s one after the other has log-probabilities %s, '
                'reported %s' % (o, np.round(want, 4), np.round(got, 4)))
  # gumbel perturbation: arg max follows the distribution
  lp = _logp(rs, 5)
  from vmon import stats
  f = jax.jit(jax.vmap(lambda k: jnp.argmax(math.gumbel(
      k, jnp.array(lp, jnp.float32)))))
  idx = np.asarray(f(jax.random.split(jax.random.PRNGKey(seed), 40000)))
  pv = stats.gof(np.bincount(idx, minlength=5), np.exp(lp))
  rec.check(pv > stats.P_MIN, 'gumbel', 'perturbed maximum p=%.1e' % pv)
  for a in range(0, 15):
    for b in range(0, a + 1):
      rec.seen('comb', a, b)
      rec.check(math.comb(a, b) == pm.comb(a, b), 'comb',
                'comb(%d, %d) = %s' % (a, b, math.comb(a, b)))
  for dims in ((), (3,), (2, 3, 4), (5, 1)):
    rec.check(math.prod(dims) == int(np.prod(dims)), 'prod',
              'prod%s = %s' % (dims, math.prod(dims)))
