"""C24: text infilling scores and reports the sentences it sampled."""

RULE = ('one evaluation = one energy of an infilled sentence compared with the '
        'masked-language-model score of the reference BERT, or one reported '
        'sentence compared with the states observed; distinct = (checkpoint, '
        'task, tokens)')
ASSUMPTIONS = [
    'randomly initialised BERT checkpoints of one or two small layers with the '
    'vocabulary size of bert-base-uncased; the reference scores come from the '
    'BERT of the transformers library on the filled-in token ids',
    'names removed from current jax releases are provided to the customised '
    'BERT module before it is imported']


def cases(tier, seed):
  out = []
  for k in range(6 if tier == 'quick' else 40):
    out.append(dict(name='energy-%d' % k, fn='energy', cost=2, args=dict(
        seed=seed * 139 + k)))
  for k in range(10 if tier == 'quick' else 40):
    out.append(dict(name='run-%d' % k, fn='run', cost=4, args=dict(
        seed=seed * 149 + k, pick=k)))
  for k in range(2 if tier == 'quick' else 8):
    out.append(dict(name='init-%d' % k, fn='init', args=dict(
        seed=seed * 151 + k)))
  return out


def tasks(rs, count, masks):
  """[dict] as the dataset builder writes them; lengths may repeat."""
  from vmon import text
  out = []
  base = rs.randint(masks + 3, 12)
  for _ in range(count):
    n = base + rs.randint(0, 2)
    w = text.sentence(rs, n).split()
    gt = ' '.join(w)
    pos = sorted((rs.permutation(n - 2)[:masks] + 1).tolist())
    for p in pos:
      w[p] = '[MASK]'
    out.append(dict(gt_sentence=gt, sentence=' '.join(w),
                    infill_pos=[p + 1 for p in pos]))
  return out


def build(rs, seed, count, masks, **over):
  import json
  import os
  import tempfile
  from vmon import mdl, text
  text.shim()
  bert = text.make_bert(seed, layers=1 + seed % 2)
  root = tempfile.mkdtemp(dir=os.environ['VMON_SCRATCH'])
  ts = tasks(rs, count, masks)
  with open(os.path.join(root, 'infilling_task.json'), 'w') as f:
    json.dump(ts, f)
  for name in ('wiki103_remove_infill.5k.txt', 'tbc_remove_infill.5k.txt'):
    with open(os.path.join(root, name), 'w') as f:
      for _ in range(12):
        f.write(text.sentence(rs, rs.randint(4, 12)) + '\n')
  cfg = mdl.base_config('text_infilling', bert_model=bert, data_root=root,
                        num_categories=text.SIZE, shape=(masks,), **over)
  return cfg, ts, bert


class Reference:
  """Masked-LM scores from the library's own BERT."""

  def __init__(self, bert):
    from transformers import BertTokenizer, FlaxBertForMaskedLM
    self.model = FlaxBertForMaskedLM.from_pretrained(bert)
    self.tok = BertTokenizer.from_pretrained(bert)

  def logp(self, ids):
    import jax
    import numpy as np
    z = np.asarray(self.model(input_ids=ids).logits, np.float64)
    z = z - z.max(-1, keepdims=True)
    return z - np.log(np.exp(z).sum(-1, keepdims=True))

  def score(self, task, x):
    """Sum over the gaps of log p(token | everything else, gap masked)."""
    import numpy as np
    ids = np.array(self.tok(task['sentence'])['input_ids'])[None]
    ids = ids.copy()
    ids[0, task['infill_pos']] = x
    total = 0.0
    for i, p in enumerate(task['infill_pos']):
      one = ids.copy()
      one[0, p] = self.tok.mask_token_id
      total += self.logp(one)[0, p, x[i]]
    return total

  def fill(self, task, x):
    import numpy as np
    ids = np.array(self.tok(task['sentence'])['input_ids'])
    ids[task['infill_pos']] = x
    return self.tok.decode(ids[1:-1])


def quiet():
  import contextlib
  import io
  return contextlib.redirect_stdout(io.StringIO())


def energy(rec, seed):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from vmon import exp, text
  rs = np.random.RandomState(seed)
  masks = int(rs.randint(1, 4))
  cfg, ts, bert = build(rs, seed, 4, masks)
  ref = Reference(bert)
  with quiet():
    model = exp.module('models', 'text_infilling').build_model(cfg)
    for k, task in enumerate(ts):
      params = model.make_init_params(jax.random.PRNGKey(0))
      if not rec.check(params is not None, 'missing', 'task %d of %d not '
                       'given' % (k, len(ts))):
        return
      x = rs.randint(0, text.SIZE, (3, masks))
      x[0] = rs.randint(104, 200, masks)
      want = np.array([ref.score(task, r) for r in x])
      for how, f, v in (
          ('compiled', jax.jit(model.forward), jnp.array(x, jnp.int32)),
          ('plain', model.forward, jnp.array(x, jnp.int32)),
          ('one-hot', model.forward, jax.nn.one_hot(x, text.SIZE))):
        got = np.asarray(f(params, v), np.float64)
        rec.event(len(x), 'energies')
        if not rec.check(got.shape == want.shape and bool(np.allclose(
            got, want, rtol=2e-4, atol=2e-3)), 'energy', '%s energy of %r '
                         'filled with %s is %s, the masked language model '
                         'gives %s' % (how, task['sentence'], x.tolist(), got,
                                       want)):
          return
      for r in x:
        rec.seen('energy', seed, task['sentence'], r.tolist())
      oh = jax.nn.one_hot(x[:1], text.SIZE)
      ll, grad = model.get_value_and_grad(params, oh)
      rec.check(np.shape(grad) == np.shape(oh) and abs(float(ll[0]) - want[0])
                < 2e-3 + 2e-4 * abs(want[0]), 'gradient', 'value %s or shape '
                '%s of the gradient' % (ll, np.shape(grad)))
      # direction of a one-token change; one position makes it exact
      d = np.zeros(np.shape(oh), np.float32)
      i = rs.randint(masks)
      d[0, i, x[0, i]], d[0, i, x[1, i]] = -1.0, 1.0
      if x[0, i] != x[1, i]:
        eps = 2e-2
        up = float(model.forward(params, oh + eps * d)[0])
        dn = float(model.forward(params, oh - eps * d)[0])
        num, ana = (up - dn) / (2 * eps), float((np.asarray(grad) * d).sum())
        rec.check(abs(num - ana) < 0.05 * (abs(num) + 1), 'gradient',
                  'gradient along a token change is %g, differences give %g' %
                  (ana, num))
    rec.check(model.make_init_params(jax.random.PRNGKey(0)) is None, 'extra',
              'a task beyond the %d of the dataset' % len(ts))


def init(rec, seed):
  import jax
  import numpy as np
  from vmon import exp, text
  rs = np.random.RandomState(seed)
  for rand in (False, True):
    cfg, ts, bert = build(rs, seed, 1, 2, random_init_sample=rand)
    with quiet():
      model = exp.module('models', 'text_infilling').build_model(cfg)
      model.make_init_params(jax.random.PRNGKey(0))
      x = np.asarray(jax.vmap(lambda k: model.get_init_samples(k, 1))(
          jax.random.split(jax.random.PRNGKey(seed), 3000)))
    rec.event(len(x), 'initial samples')
    if not rec.check(x.shape == (3000, 1, 2) and x.min() >= 0 and
                     x.max() < text.SIZE, 'domain', 'initial samples of shape '
                     '%s in %d..%d' % (x.shape, x.min(), x.max())):
      return
    rec.seen('init', rand, x[:20].tolist())
    ref = Reference(bert)
    ids = np.array(ref.tok(ts[0]['sentence'])['input_ids'])[None]
    for i, p in enumerate(ts[0]['infill_pos']):
      lp = ref.logp(ids)[0, p]
      if rand:
        lp_s = np.full(text.SIZE, -np.log(text.SIZE))
        stat = np.arange(text.SIZE) / text.SIZE
      else:
        lp_s, stat = lp, lp
      pr = np.exp(lp_s)
      mean = (pr * stat).sum()
      sd = np.sqrt((pr * (stat - mean) ** 2).sum() / len(x))
      z = (stat[x[:, 0, i]].mean() - mean) / (sd + 1e-12)
      rec.check(abs(z) < 7, 'initial', '%s initial tokens are %g standard '
                'errors off' % ('uniform' if rand else 'model', z))


def run(rec, seed, pick):
  import numpy as np
  from vmon import exp, text
  rs = np.random.RandomState(seed)
  masks = int(rs.randint(1, 3))
  count = int(rs.randint(1, 4))
  cfg, ts, bert = build(rs, seed, count, masks)
  name, opts = [('path_auxiliary', {}), ('gwg', {}), ('dlmc', {}),
                ('dmala', {}), ('randomwalk', {})][pick % 5]
  exp.sampler_conf(cfg, name, **opts)
  resample = int(rs.choice([1, 3, 12])) if pick % 3 else 12
  topk = bool(rs.rand() < 0.7) or pick % 3 == 0
  k = int(rs.randint(1, 4))
  T = int(rs.choice([2, 5, 6]))
  exp.set_exp(cfg, name='Text_Infilling_Experiment', evaluator='lm_eval',
              batch_size=1, chain_length=T, max_n_grams=3,
              num_same_resample=resample, topk_num=k, use_topk=topk,
              run_parallel=False)
  trace, files = exp.run(cfg)
  ref = Reference(bert)
  dim = masks
  tag = 'infilling/%s' % name
  steps = list(trace.steps)                         # in order of arrival
  if not rec.check(len(steps) == count * resample * T, 'steps', '%s: %d steps '
                   'for %d tasks sampled %d times for %d steps' % (
                       tag, len(steps), count, resample, T)):
    return
  # chains: T consecutive steps, each continuing from the previous one
  chains = [steps[i:i + T] for i in range(0, len(steps), T)]
  finals = []
  for c in chains:
    ok = [s['t'] for s in c] == list(range(1, T + 1)) and all(
        np.array_equal(a['new_x'], b['x']) for a, b in zip(c, c[1:]))
    if not rec.check(ok, 'continuity', '%s: a chain does not run through its '
                     '%d steps' % (tag, T)):
      return
    finals.append(c[-1]['new_x'].reshape(-1).astype(int))
  rec.event(len(steps), 'sampler steps')
  keys = {}
  for i, s in enumerate(steps):
    keys.setdefault(i // (resample * T), []).append(s['rng'].tobytes())
  for v in keys.values():
    rec.check(len(set(v)) == len(v), 'randomness', '%s: %d steps of one task '
              'use %d random keys' % (tag, len(v), len(set(v))))
  res = files.get('results.pkl')
  if not rec.check(isinstance(res, dict), 'missing', '%s: no results' % tag):
    return
  want = [ref.fill(ts[i // resample], x) for i, x in enumerate(finals)]
  for w in want:
    rec.seen('sentence', seed, w)
  got = list(res['infill_sents'])
  if not rec.check(got == want, 'sentences', '%s: reported sentences %s, '
                   'sampled %s' % (tag, got[:2], want[:2])):
    return
  rec.check(('results_topk.pkl' in files) == topk, 'missing', '%s: top-k '
            'results %s' % (tag, 'results_topk.pkl' in files))
  if topk and 'results_topk.pkl' in files:
    got = list(files['results_topk.pkl']['infill_sents'])
    sc = [ref.score(ts[i // resample], x) for i, x in enumerate(finals)]
    kk = min(k, resample)
    if not rec.check(len(got) == count * kk, 'topk', '%s: %d sentences in the '
                     'top %d of %d tasks' % (tag, len(got), k, count)):
      return
    for i in range(count):
      part = got[i * kk:(i + 1) * kk]
      pool = list(zip(want, sc))[i * resample:(i + 1) * resample]
      floor = sorted((s for _, s in pool), reverse=True)[kk - 1]
      best = {}
      for w, s in pool:
        best[w] = max(best.get(w, -1e9), s)
      rec.check(all(w in best and best[w] >= floor - 5e-3 for w in part),
                'topk', '%s: the top %d of task %d are %s with scores %s, the '
                '%d-th best has %g' % (tag, k, i, part,
                                       [best.get(w) for w in part], kk, floor))
  rec.sample(sampler=name, tasks=count, resamples=resample, steps=T,
             sentence=want[0], score=ref.score(ts[0], finals[0]))
