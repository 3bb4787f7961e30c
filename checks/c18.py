"""C18: text infilling tasks and scores follow their definition."""

RULE = ('one evaluation = one infilling task compared with the corpus line it '
        'came from, or one score recomputed from its definition; distinct = '
        '(corpora, options, task) or (sentences, references)')
ASSUMPTIONS = [
    'corpora of up to 400 generated lines, every line terminated, tokenised '
    'with a WordPiece vocabulary of the size of bert-base-uncased',
    'scored sentences have at least as many words as the longest n-gram']


def cases(tier, seed):
  out = []
  for k in range(30 if tier == 'quick' else 200):
    out.append(dict(name='dataset-%d' % k, fn='dataset', args=dict(
        seed=seed * 131 + k)))
  for k in range(3 if tier == 'quick' else 20):
    out.append(dict(name='program-%d' % k, fn='dataset', args=dict(
        seed=seed * 149 + k, program=True)))
  for k in range(2 if tier == 'quick' else 8):
    out.append(dict(name='positions-%d' % k, fn='positions', cost=2, args=dict(
        seed=seed * 131 + k)))
  for k in range(30 if tier == 'quick' else 200):
    out.append(dict(name='scores-%d' % k, fn='scores', args=dict(
        seed=seed * 137 + k)))
  return out


def tokenizer():
  from transformers import BertTokenizer
  import os
  import tempfile
  from vmon import text
  d = tempfile.mkdtemp(dir=os.environ['VMON_SCRATCH'])
  with open(os.path.join(d, 'vocab.txt'), 'w') as f:
    f.write('\n'.join(text.vocab()) + '\n')
  return BertTokenizer(os.path.join(d, 'vocab.txt'), do_lower_case=True)


def _line(rs, n, which):
  from vmon import text
  w = list(rs.choice(text.WORDS, n))
  for _ in range(rs.randint(0, 3)):
    i = rs.randint(n)
    if which == 'tbc':
      w[i] = rs.choice(['``', "''", 'Walked', '.', 'zzyzx', 'The', "it's"])
    else:
      w[i] = rs.choice(['@@unknown@@', '@@UNKNOWN@@', 'old @-@ new', ',', '-',
                        'Qqq'])
  return ' '.join(w) + '\n'


def _clean(line, which):
  line = line.rstrip('\n')
  if which == 'tbc':
    return line.replace('``', '').replace("''", '')
  for a in ('@@unknown@@', '@@UNKNOWN@@'):
    line = line.replace(a, '[UNK]')
  return line.replace('@-@', '-')


def run_program(root, tok, per, masks, lo, hi):
  """The program that builds the tasks, its configuration pointed at root."""
  import os
  from discs.models.configs import text_infilling_config as conf
  from vmon import text
  text.shim()
  real = conf.get_config
  tok.save_pretrained(os.path.join(root, 'bert'))

  def get_config():
    c = real()
    with c.unlocked(), c.ignore_type():
      c.update(dict(shape=(masks,), bert_model=os.path.join(root, 'bert'),
                    data_root=root, num_of_sentences=per, min_sentence_len=lo,
                    max_sentence_len=hi))
    return c
  conf.get_config = get_config
  try:
    from discs.common import create_text_infilling_dataset as prog
    prog.main([])
  finally:
    conf.get_config = real


def build(rs, tok, per, masks, lo, hi, lines, np_seed, program=False):
  import contextlib
  import io
  import os
  import tempfile
  import numpy as np
  from discs.common import utils
  root = tempfile.mkdtemp(dir=os.environ['VMON_SCRATCH'])
  for name, which in (('tbc.5k.txt', 'tbc'), ('wiki103.5k.txt', 'wiki')):
    with open(os.path.join(root, name), 'w') as f:
      f.writelines(lines[which])
  np.random.seed(np_seed)
  with contextlib.redirect_stdout(io.StringIO()):
    if program:
      run_program(root, tok, per, masks, lo, hi)
    else:
      utils.create_infill_dataset(root, tok, masks, num_of_sentences=per,
                                  min_length=lo, max_length=hi)
  return root


def dataset(rec, seed, program=False):
  import collections
  import json
  import os
  import numpy as np
  rs = np.random.RandomState(seed)
  tok = tokenizer()
  per = int(rs.randint(1, 12))
  lo = int(rs.choice([6, 8, 10]))
  hi = lo + int(rs.randint(0, 8))
  masks = int(rs.randint(1, 5))
  lines = {}
  for which in ('tbc', 'wiki'):
    ls = [_line(rs, rs.randint(3, 30), which) for _ in range(rs.randint(30,
                                                                      120))]
    while sum(lo <= len(_clean(l, which).split(' ')) <= hi for l in ls) < per:
      ls.append(_line(rs, rs.randint(lo, hi + 1), which))
    ls += [ls[0]] * rs.randint(0, 3)          # repeated lines
    lines[which] = ls
  root = build(rs, tok, per, masks, lo, hi, lines, seed, program)
  with open(os.path.join(root, 'infilling_task.json')) as f:
    data = json.load(f)
  if not rec.check(len(data) == 2 * per, 'count', '%d tasks instead of %d per '
                   'corpus' % (len(data), per)):
    return
  rec.sample(task=data[0], per_corpus=per, masks=masks, words=[lo, hi])
  for which, part, name in (('tbc', data[:per], 'tbc_remove_infill.5k.txt'),
                            ('wiki', data[per:],
                             'wiki103_remove_infill.5k.txt')):
    with open(os.path.join(root, name)) as f:
      left = collections.Counter(f.readlines())
    src = collections.Counter(lines[which])
    removed = src - left
    if not rec.check(not (left - src) and sum(removed.values()) == per,
                     'conservation', '%s: %d lines of %d left for reference '
                     'with %d tasks taken out' % (
                         which, sum(left.values()), sum(src.values()), per)):
      return
    want = sorted(_clean(l, which) for l in removed.elements())
    got = sorted(d['gt_sentence'] for d in part)
    if not rec.check(want == got, 'conservation', '%s: tasks built from %s, '
                     'lines removed from the references are %s' % (
                         which, got[:2], want[:2])):
      return
    for d in part:
      gt, ms = d['gt_sentence'].split(' '), d['sentence'].split(' ')
      rec.seen(which, seed, d['sentence'])
      hid = [i for i, w in enumerate(ms) if w == '[MASK]']
      ok = (lo <= len(gt) <= hi and len(gt) == len(ms) and len(hid) == masks
            and 0 not in hid and len(gt) - 1 not in hid and
            all(a == b for i, (a, b) in enumerate(zip(gt, ms))
                if i not in hid))
      if not rec.check(ok, 'mask', '%s: %r masked as %r (%d words of %d to %d '
                       'to mask)' % (which, d['gt_sentence'], d['sentence'],
                                     masks, lo, hi)):
        return
      ids = tok(d['sentence'])['input_ids']
      want_pos = [i for i, t in enumerate(ids) if t == tok.mask_token_id]
      if not rec.check(sorted(d['infill_pos']) == want_pos, 'position',
                       '%r: infill positions %s, the masks are tokens %s' % (
                           d['sentence'], d['infill_pos'], want_pos)):
        return


def positions(rec, seed):
  """Every inner word can be masked, every eligible sentence picked."""
  import json
  import os
  import numpy as np
  from vmon import stats
  rs = np.random.RandomState(seed)
  tok = tokenizer()
  n, per = 9, 60
  counts = np.zeros(n)
  first = np.zeros(4)
  for r in range(10):
    lines = {w: [' '.join('w%d' % v for v in rs.randint(0, 999, n)) + '\n'
                 for _ in range(120)] for w in ('tbc', 'wiki')}
    root = build(rs, tok, per, 2, n, n, lines, seed * 100 + r)
    with open(os.path.join(root, 'infilling_task.json')) as f:
      data = json.load(f)
    for which, part in (('tbc', data[:per]), ('wiki', data[per:])):
      index = {l.strip(): i for i, l in enumerate(lines[which])}
      for d in part:
        i = index.get(d['gt_sentence'], 0)
        first[min(3, i * 4 // 120)] += 1
        for j, w in enumerate(d['sentence'].split(' ')):
          counts[j] += w == '[MASK]'
        rec.event(1, 'tasks')
  rec.seen('positions', counts.tolist())
  rec.check(counts[0] == counts[-1] == 0, 'mask', 'first or last word masked')
  p = stats.gof(counts[1:-1], np.ones(n - 2) / (n - 2))
  rec.check(p > 1e-11, 'uniform', 'masked words are not uniform: %s' % counts)
  # sampling without replacement: chi-square is conservative
  z = np.abs(first - first.mean()) / np.sqrt(first.mean())
  rec.check(bool(z.max() < 7), 'uniform', 'sentences picked by quarter of the '
            'corpus: %s' % first)


def bleu(refs_of, hyps, weights):
  """Corpus BLEU from its definition, without smoothing."""
  import collections
  import math
  num, den = [0] * len(weights), [0] * len(weights)
  hl = rl = 0
  for refs, h in zip(refs_of, hyps):
    for n in range(1, len(weights) + 1):
      c = collections.Counter(tuple(h[i:i + n]) for i in range(len(h) - n + 1))
      best = collections.Counter()
      for r in refs:
        best |= collections.Counter(tuple(r[i:i + n])
                                    for i in range(len(r) - n + 1))
      num[n - 1] += sum((c & best).values())
      den[n - 1] += max(1, len(h) - n + 1)
    hl += len(h)
    rl += min((len(r) for r in refs), key=lambda l: (abs(l - len(h)), l))
  if num[0] == 0:
    return 0.0
  if min(num) == 0:
    return 0.0
  bp = 1.0 if hl > rl else math.exp(1 - rl / hl)
  return bp * math.exp(sum(w * math.log(a / b)
                           for w, a, b in zip(weights, num, den)))


def scores(rec, seed):
  import collections
  import contextlib
  import io
  import os
  import tempfile
  import warnings
  import numpy as np
  from vmon import exp, mdl, text
  rs = np.random.RandomState(seed)
  root = tempfile.mkdtemp(dir=os.environ['VMON_SCRATCH'])
  few = list(rs.choice(text.WORDS, 8, replace=False))
  def sent(n, extra=()):
    w = list(rs.choice(few, n))
    for e in extra:
      if rs.rand() < 0.5:
        w[rs.randint(n)] = e
    return ' '.join(w)
  wiki = [sent(rs.randint(2, 15), ('@@unknown@@', 'The', few[0].upper(),
                                         'Mid-90s', "Don't"))
          for _ in range(rs.randint(2, 25))]
  tbc = [sent(rs.randint(2, 15), ('``', "''", few[1].capitalize(),
                                        'U.S.', "I'm"))
         for _ in range(rs.randint(2, 25))]
  with open(os.path.join(root, 'wiki103_remove_infill.5k.txt'), 'w') as f:
    f.write('\n'.join(wiki) + '\n')
  with open(os.path.join(root, 'tbc_remove_infill.5k.txt'), 'w') as f:
    f.write('\n'.join(tbc) + '\n')
  count = int(rs.choice([1, 2, 5, 9]))
  max_n = int(rs.choice([2, 3, 4]))
  sents = [sent(rs.randint(5, 12), ('[UNK]', '"', 'mid-90s', "don't",
                                       'u.s.', "i'm")) for _ in range(count)]
  if count > 1 and rs.rand() < 0.4:
    sents[1] = sents[0]
  cfg = mdl.base_config('bernoulli')
  exp.set_exp(cfg, max_n_grams=max_n)
  ev = exp.module('evaluators', 'lm_eval').build_evaluator(cfg)
  with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
    warnings.simplefilter('ignore')
    res = ev.evaluate(list(sents), root)
  rec.seen('scores', sents, wiki, tbc, max_n)
  hyps = [s.split() for s in sents]
  w_refs = [[{'@@unknown@@': '[UNK]'}.get(t, t) for t in l.lower().split()]
            for l in wiki]
  t_refs = [[{'``': '"', "''": '"'}.get(t, t) for t in l.lower().split()]
            for l in tbc]
  q = (0.25,) * 4
  want = dict(
      tbc_bleu=bleu([t_refs] * count, hyps, q),
      wiki_bleu=bleu([w_refs] * count, hyps, q),
      tbc_wiki_bleu=bleu([t_refs + w_refs] * count, hyps, q))
  if count > 1:
    want['self_bleu'] = bleu([[h for j, h in enumerate(hyps) if j != i]
                              for i in range(count)], hyps, q)
  for n in range(1, max_n + 1):
    def grams(ss):
      return collections.Counter(tuple(s[i:i + n]) for s in ss
                                 for i in range(len(s) - n + 1))
    g = grams(hyps)
    tot = sum(g.values())
    for name, refs in (('wiki', w_refs), ('tbc', t_refs)):
      r = grams(refs)
      want['unique_%s_%d_grams' % (name, n)] = sum(
          k not in r for k in g) / tot
    want['unique_self_%d_grams' % n] = sum(v == 1 for v in g.values()) / tot
  rec.check(res.get('infill_sents') == sents, 'sentences', 'scored sentences '
            'are not the ones given')
  for k, v in want.items():
    got = res.get(k)
    rec.check(got is not None and abs(float(got) - v) < 1e-6, 'score', '%s of '
              '%d sentences is %s, by definition %.6f' % (k, count, got, v))
  rec.check(('self_bleu' in res) == (count > 1), 'score', 'self BLEU of %d '
            'sentences' % count)
  rec.sample(sentences=sents[:2], scores={k: res.get(k) for k in want})
