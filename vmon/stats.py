"""Verdicts on observed transition counts.

All thresholds are set so that a correct sampler trips them with probability
below about 1e-8 per check, whatever the seed.
"""
import numpy as np
from scipy import stats as st

Z_MAX = 7.5
P_MIN = 1e-11


def detailed_balance(M, pi, min_count=60):
  """z-scores of pi_i P_ij - pi_j P_ji for every pair with enough counts."""
  N = np.maximum(M.sum(1), 1)
  P = M / N[:, None]
  F = pi[:, None] * P
  Fp = (F + F.T) / 2
  Pp = np.minimum(Fp / pi[:, None], 1)          # pooled under the hypothesis
  V = pi[:, None] ** 2 * Pp * (1 - Pp) / N[:, None]
  V = V + V.T
  S = len(pi)
  iu = np.triu_indices(S, 1)
  # enough expected counts on both sides under the hypothesis
  exp = Pp * N[:, None]
  ok = np.minimum(exp, exp.T)[iu] >= min_count
  # the others: a | a + b is binomial with odds fixed by pi
  rare_p = 1.0
  rare = None
  tot = (M + M.T)[iu]
  for k in np.nonzero(~ok & (tot >= 25))[0]:
    i, j = iu[0][k], iu[1][k]
    wi, wj = N[i] / pi[i], N[j] / pi[j]
    p = st.binomtest(int(M[i, j]), int(tot[k]), wi / (wi + wj)).pvalue
    if p < rare_p:
      rare_p, rare = p, (int(i), int(j), int(M[i, j]), int(M[j, i]))
  z = (F - F.T)[iu] / np.sqrt(V[iu] + 1e-300)
  i, j = iu[0][ok], iu[1][ok]
  return dict(z=z[ok], i=i, j=j, flow=F[i, j], back=F[j, i],
              counts=(M + M.T)[iu][ok], rare_p=float(rare_p), rare=rare)


def stationarity(M, pi):
  N = np.maximum(M.sum(1), 1)
  P = M / N[:, None]
  # a transition never or rarely seen still contributes: four more counts
  Q = np.clip((M + 4) / N[:, None], 0, 1)
  v = (pi[:, None] ** 2 * np.maximum(Q * (1 - Q), P * (1 - P))
       / N[:, None]).sum(0)
  return (pi @ P - pi) / np.sqrt(v + 1e-300)


def pvalue(z):
  z = np.asarray(z, float)
  if len(z) == 0:
    return 1.0
  return float(st.chi2.sf((z ** 2).sum(), len(z)))


def gof(counts, probs):
  """Chi-square p-value of a count vector against probabilities.

  Cells expecting fewer than 8 are merged; a cell of probability zero with any
  count gives p = 0.
  """
  counts = np.asarray(counts, float)
  probs = np.asarray(probs, float)
  n = counts.sum()
  if n == 0:
    return 1.0
  if counts[probs <= 0].sum() > 0:
    return 0.0
  counts, probs = counts[probs > 0], probs[probs > 0]
  e = probs * n
  small = e < 8
  if small.any():
    sc, se = counts[small].sum(), e[small].sum()
    counts, e = counts[~small], e[~small]
    if se >= 8 or len(e) == 0:
      counts, e = np.append(counts, sc), np.append(e, se)
    elif st.poisson.sf(sc - 1, se) < P_MIN:
      return 0.0
    else:
      counts[np.argmax(e)] += sc
      e[np.argmax(e)] += se
  if len(e) < 2:
    return 1.0
  x2 = ((counts - e) ** 2 / e).sum()
  return float(st.chi2.sf(x2, len(e) - 1))


def homogeneity(a, b):
  """Chi-square p-value that two count vectors share a distribution."""
  a, b = np.asarray(a, float), np.asarray(b, float)
  tot = a + b
  keep = tot >= 20
  if (~keep).any():
    a = np.append(a[keep], a[~keep].sum())
    b = np.append(b[keep], b[~keep].sum())
    tot = a + b
    keep = tot >= 20
    a, b, tot = a[keep], b[keep], tot[keep]
  if len(a) < 2:
    return 1.0
  na, nb = a.sum(), b.sum()
  ea, eb = tot * na / (na + nb), tot * nb / (na + nb)
  x2 = ((a - ea) ** 2 / ea + (b - eb) ** 2 / eb).sum()
  return float(st.chi2.sf(x2, len(a) - 1))
