"""A small BERT, tokenizer and corpus for the text infilling model."""
import json
import os
import tempfile

import numpy as np

WORDS = ('the a of to and in it was he she they on at with for not but his her '
         'had is as that by from old new red blue green man woman dog cat bird '
         'house tree river road stone light night day sun moon star sea wind '
         'rain snow fire water earth sky ran sat saw went came took gave made '
         'said told held kept left found lost knew felt heard walked looked '
         'small large long short high low fast slow warm cold dark bright '
         'never always often again there here now then once more most some '
         'many few').split()

SIZE = 30522


def shim():
  """Names that current releases of jax no longer export."""
  import jax
  import jaxlib.xla_extension as x
  if not hasattr(x, 'DeviceArray'):
    x.DeviceArray = jax.Array


def vocab():
  out = ['[PAD]'] + ['[unused%d]' % i for i in range(99)]
  out += ['[UNK]', '[CLS]', '[SEP]', '[MASK]', '.', ',', '-', '"', "'"]
  out += WORDS
  # the infilling BERT is written for the vocabulary of bert-base-uncased
  return out + ['w%d' % i for i in range(SIZE - len(out))]


def make_bert(seed, layers=1, hidden=8, scale=1.0, path=None):
  """Writes a random BERT checkpoint and tokenizer; returns its directory."""
  shim()
  import jax
  from transformers import BertConfig
  from transformers import FlaxBertForMaskedLM
  path = path or tempfile.mkdtemp(dir=os.environ.get('VMON_SCRATCH'))
  v = vocab()
  with open(os.path.join(path, 'vocab.txt'), 'w') as f:
    f.write('\n'.join(v) + '\n')
  with open(os.path.join(path, 'tokenizer_config.json'), 'w') as f:
    json.dump(dict(do_lower_case=True), f)
  cfg = BertConfig(vocab_size=len(v), hidden_size=hidden,
                   num_hidden_layers=layers, num_attention_heads=2,
                   intermediate_size=2 * hidden, max_position_embeddings=64)
  model = FlaxBertForMaskedLM(cfg, seed=seed)
  rs = np.random.RandomState(seed)
  model.params = jax.tree_util.tree_map(
      lambda a: np.asarray(a + scale * rs.randn(*a.shape) * 0.3, np.float32),
      jax.device_get(model.params))
  model.save_pretrained(path)
  return path


def sentence(rs, n):
  return ' '.join(rs.choice(WORDS, n))
