"""C26: training data arrives complete, unaltered and in the right split."""
import os
import pickle

import numpy as np

RULE = ('one evaluation = one example handed out by a real loader, traced '
        'back to the dataset written for the run; distinct = (loader, '
        'options, process, batch) observed')
ASSUMPTIONS = [
    'datasets are small files written in the published formats; torch and '
    'torchvision are stand-ins that only provide the MNIST arrays',
    'several processes are simulated by replacing jax.process_count and '
    'jax.process_index, several devices are XLA CPU devices',
    'batches that are not dropped although incomplete are only used where '
    'they divide evenly over the devices']


def cases(tier, seed):
  out = []
  reps = 6 if tier == 'quick' else 30
  for dev in (1, 2, 4):
    for k in range(reps):
      out.append(dict(name='stream-%d-%d' % (dev, k), fn='stream', devices=dev,
                      args=dict(pick=k, seed=seed * 211 + k)))
  for name in ('static_mnist', 'dynamic_mnist', 'omniglot', 'caltech',
               'histopathology', 'freyfaces'):
    for k in range(1 if tier == 'quick' else 4):
      out.append(dict(name='files-%s-%d' % (name, k), fn='files', cost=3,
                      args=dict(name=name, seed=seed * 223 + k)))
  for k in range(3 if tier == 'quick' else 12):
    out.append(dict(name='mean-%d' % k, fn='mean', args=dict(
        seed=seed * 227 + k)))
  return out


def stream(rec, pick, seed):
  """prepare_dataloader: exactly once per pass, shaped for the devices."""
  import jax
  import tensorflow as tf
  from ml_collections import config_dict
  from discs.common import data_loader
  rs = np.random.RandomState(seed)
  local = jax.local_device_count()
  procs = [1, 2, 3, 1, 4, 2][pick % 6]
  per = int(rs.randint(1, 5))
  bs = per * local * procs
  n = int(rs.randint(2 * bs, 6 * bs + 1))
  shuffle = [0, 0, 7, 1000, 3, 0][pick % 6]
  repeat = pick % 3 == 1
  drop = True
  if pick % 6 == 5:           # keep the rest: make it divide evenly
    drop = False
    n = n // bs * bs
  data = np.stack([np.arange(n), rs.randint(0, 255, n)], 1).astype(np.int32)
  key = (local, procs, per, n, shuffle, repeat, drop)
  over = {}
  how = int(rs.randint(2))
  if how:                      # options in the configuration win
    over = dict(repeat=repeat, drop_remainder=drop)
  cfg = config_dict.ConfigDict(dict(batch_size=bs, shuffle_buffer_size=shuffle,
                                    **over))
  real = jax.process_count, jax.process_index, jax.device_count
  taken = []
  try:
    for p in range(procs):
      jax.process_count = lambda *a, **k: procs
      jax.process_index = lambda *a, p=p, **k: p
      jax.device_count = lambda *a, **k: procs * local
      ds = tf.data.Dataset.from_tensor_slices(data)
      loader = data_loader.prepare_dataloader(
          ds, cfg, fn_preprocess=lambda x: tf.cast(x, tf.float32) * 2.0,
          drop_remainder=(not drop) if how else drop,
          repeat=(not repeat) if how else repeat)
      it = data_loader.numpy_iter(loader)
      share = len(range(p, n, procs))
      want = share // (per * local)
      total = 3 * max(1, want) + 1 if repeat else None
      got = []
      for b in it:
        b = np.array(b)
        rec.event(1)
        rec.seen(key, p, len(got))
        rec.check(b.shape == (local, per, 2), 'batch-shape',
                  '%s: process %d got a batch of shape %s instead of %s' % (
                      key, p, b.shape, (local, per, 2)))
        got.append(b)
        if total is not None and len(got) == total:
          break
        if len(got) > 4 * (n + 5):
          rec.fail('endless', '%s: the stream does not end' % (key,))
          return
      if not repeat:
        rec.check(len(got) == want, 'batches', '%s: process %d got %d batches '
                  'of its %d examples, not %d' % (key, p, len(got), share,
                                                  want))
      if not got:
        continue
      rows = np.concatenate([g.reshape(-1, 2) for g in got])
      ids = np.round(rows[:, 0] / 2).astype(int)
      ok = ((rows[:, 0] == 2 * ids) & (ids >= 0) & (ids < n)).all() and (
          rows[:, 1] == 2 * data[np.clip(ids, 0, n - 1), 1]).all()
      rec.event(len(rows))
      rec.check(bool(ok), 'altered', '%s: examples were altered on the way' % (
          key,))
      if repeat:
        counts = np.bincount(ids, minlength=n)
        own = np.nonzero(counts)[0]
        spread = counts[own].max() - counts[own].min()
        lo = len(rows) // share
        if not shuffle:
          rec.check(counts[own].max() <= lo + 1 and (
              lo == 0 or (len(own) == share and counts[own].min() >= lo)),
                    'passes', '%s: over repeated passes examples were handed '
                    'out between %d and %d times' % (
                        key, counts[own].min(), counts[own].max()))
        else:   # a shuffle buffer across passes may hold examples back
          m = min(shuffle, 10 ** 6)
          rec.check(counts[own].max() <= lo + 2 + m // share + 1, 'passes',
                    '%s: an example was handed out %d times in %d passes' % (
                        key, counts[own].max(), lo))
        del spread
        ids = own
      else:
        rec.check(len(set(ids.tolist())) == len(ids), 'repeated',
                  '%s: process %d got an example twice in one pass' % (key, p))
        if shuffle >= 7 and len(ids) >= 12:
          again = [np.round(np.array(b).reshape(-1, 2)[:, 0] / 2).astype(int)
                   for b in data_loader.numpy_iter(loader)]
          rec.check(not (np.diff(ids) > 0).all() or
                    not (np.diff(np.concatenate(again)) > 0).all(),
                    'not-shuffled', '%s: examples come in file order although '
                    'shuffling is on' % (key,))
        if not shuffle:
          rec.check(bool((np.diff(ids) > 0).all()), 'order',
                    '%s: examples are out of order without shuffling' % (key,))
      taken.append(set(int(i) for i in ids))
  finally:
    jax.process_count, jax.process_index, jax.device_count = real
  for a in range(len(taken)):
    for b in range(a):
      rec.check(not taken[a] & taken[b], 'overlap',
                '%s: processes %d and %d got the same examples' % (key, b, a))
  lost = n - len(set().union(*taken)) if taken else n
  if not repeat or not shuffle:
    allowed = 0
    for p in range(procs):
      share = len(range(p, n, procs))
      allowed += 0 if repeat and 3 * (share // (per * local)) + 1 else (
          share % (per * local))
    if not repeat:
      rec.check(lost <= allowed, 'lost', '%s: %d of %d examples reached no '
                'process (at most %d in incomplete batches)' % (
                    key, lost, n, allowed))
  rec.sample(devices=local, processes=procs, batch=bs, examples=n,
             shuffle=shuffle, repeat=repeat)


def _torch(train=None, test=None, targets=None):
  import sys
  import types

  def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m

  class Tensor:

    def __init__(self, a):
      self.a = a

    def float(self):
      return Tensor(self.a.astype(np.float32))

    def numpy(self):
      return np.array(self.a)

  class MNIST:

    def __init__(self, root, train=True, **k):
      a = MNIST.parts[0] if train else MNIST.parts[1]
      self.data = Tensor(a)
      self.targets = Tensor(np.arange(len(a)) % 10)
  MNIST.parts = (train, test)

  class DataLoader:

    def __init__(self, dataset, **k):
      self.dataset = dataset
  t = mod('torch')
  t.utils = mod('torch.utils')
  t.utils.data = mod('torch.utils.data', DataLoader=DataLoader)
  any_ = lambda *a, **k: None
  tr = mod('torchvision.transforms', Compose=any_, ToTensor=any_)
  ds = mod('torchvision.datasets', MNIST=MNIST)
  mod('torchvision', transforms=tr, datasets=ds)


def _images(rs, n, d=784, kind='binary'):
  """Images that can be told apart by their first pixels (a row number)."""
  if kind == 'binary':
    x = (rs.rand(n, d) < 0.3).astype(np.float32)
    bits = (np.arange(n)[:, None] >> np.arange(16)) & 1
    x[:, :16] = bits
    return x
  x = rs.rand(n, d).astype(np.float32)
  return x


def _match(rec, tag, got, want, what, order=False):
  """The rows of got are exactly the rows of want, once each."""
  rec.event(len(got))
  if not rec.check(got.shape == want.shape, 'split-size',
                   '%s: %s has shape %s instead of %s' % (
                       tag, what, got.shape, want.shape)):
    return
  g, w = np.asarray(got, np.float64), np.asarray(want, np.float64)
  if not order:
    r = np.random.RandomState(3).rand(g.shape[1], 3)
    g = g[np.lexsort((g @ r).round(6).T)]
    w = w[np.lexsort((w @ r).round(6).T)]
  rec.seen(tag, what)
  bad = np.nonzero(np.abs(g - w).max(1) > 2e-6)[0]
  rec.check(len(bad) == 0, 'split-content', '%s: %d of the %d examples of the '
            '%s split are not those of the file' % (
                tag, len(bad), len(got), what))


def _rows(a):
  return [r.tobytes() for r in np.asarray(a, np.float32).round(5) + 0.0]


def files(rec, name, seed):
  """The readers of the published image files."""
  import argparse
  import importlib
  import sys
  import tempfile
  import scipy.io
  rs = np.random.RandomState(seed)
  root = tempfile.mkdtemp(dir=os.environ['VMON_SCRATCH'])
  args = argparse.Namespace(dataset_name=name, data_dir=root)
  binary_eval = False
  shape = 784
  part = dict(train=None, valid=None, test=None)
  if name == 'static_mnist':
    os.makedirs(os.path.join(root, 'MNIST_static'))
    for p, n in [('train', 150), ('valid', 40), ('test', 60)]:
      x = _images(rs, n)
      part[p] = x
      np.savetxt(os.path.join(root, 'MNIST_static',
                              'binarized_mnist_%s.amat' % p), x, fmt='%d')
    _torch()
  elif name == 'dynamic_mnist':
    tr = rs.randint(0, 256, (60000, 28, 28)).astype(np.uint8)
    te = rs.randint(0, 256, (100, 28, 28)).astype(np.uint8)
    _torch(tr, te)
    f = lambda a: a.reshape(len(a), -1).astype(np.float32) / 255.
    part = dict(train=f(tr)[:50000], valid=f(tr)[50000:], test=f(te))
    binary_eval = True
  elif name == 'omniglot':
    os.makedirs(os.path.join(root, 'OMNIGLOT'))
    tr, te = _images(rs, 1500, kind='gray'), _images(rs, 90, kind='gray')
    scipy.io.savemat(os.path.join(root, 'OMNIGLOT', 'chardata.mat'),
                     dict(data=tr.T, testdata=te.T))
    f = lambda a: a.reshape(-1, 28, 28).transpose(0, 2, 1).reshape(-1, 784)
    part = dict(train=f(tr), valid=None, test=f(te))
    binary_eval = True
    _torch()
  elif name == 'caltech':
    os.makedirs(os.path.join(root, 'Caltech101Silhouettes'))
    parts = {p: _images(rs, n) for p, n in [('train', 120), ('val', 50),
                                           ('test', 70)]}
    scipy.io.savemat(os.path.join(
        root, 'Caltech101Silhouettes',
        'caltech101_silhouettes_28_split1.mat'),
                     {p + '_data': x.astype(np.uint8)
                      for p, x in parts.items()})
    f = lambda a: 1 - a.reshape(-1, 28, 28).transpose(0, 2, 1).reshape(-1, 784)
    part = dict(train=f(parts['train']), valid=f(parts['val']),
                test=f(parts['test']))
    _torch()
  elif name == 'histopathology':
    os.makedirs(os.path.join(root, 'HistopathologyGray'))
    parts = {p: rs.rand(n, 28, 28) for p, n in [
        ('training', 130), ('validation', 40), ('test', 50)]}
    parts['training'][0, 0, :5] = [0.0, 1.0, 0.001, 0.999, 0.5]
    with open(os.path.join(root, 'HistopathologyGray', 'histopathology.pkl'),
              'wb') as fh:
      pickle.dump({k: list(v) for k, v in parts.items()}, fh)
    f = lambda a: np.clip(a.reshape(-1, 784), 1 / 512., 1 - 1 / 512.)
    part = dict(train=f(parts['training']), valid=f(parts['validation']),
                test=f(parts['test']))
    _torch()
  else:
    os.makedirs(os.path.join(root, 'Freyfaces'))
    raw = rs.randint(0, 256, (1965, 560)).astype(np.uint8)
    scipy.io.savemat(os.path.join(root, 'Freyfaces', 'frey_rawface.mat'),
                     dict(ff=raw.T))
    shape = 560
    _torch()
  sys.modules.pop('discs.learning.raw_torch_dataset', None)
  reader = importlib.import_module('discs.learning.raw_torch_dataset')
  np.random.seed(seed)
  train, valid, test = reader.load_raw_dataset(args)
  tag = name
  rec.check(all(a.ndim == 2 and a.shape[1] == shape
                for a in (train, valid, test)), 'image-size',
            '%s: images of shape %s' % (tag, train.shape[1:]))
  if name == 'freyfaces':
    rec.check((len(train), len(valid), len(test)) == (1565, 200, 200),
              'split-size', '%s: splits of %d, %d and %d images' % (
                  tag, len(train), len(valid), len(test)))
    _match(rec, tag, np.concatenate([train, valid, test]), raw / 256.,
           'joint')
  elif name == 'omniglot':
    rec.check(len(valid) == 1345 and len(train) == 155, 'split-size',
              '%s: splits of %d and %d images' % (tag, len(train), len(valid)))
    have = _rows(part['train'])
    mine = _rows(train)
    rec.event(len(train))
    rec.check(set(mine) <= set(have) and len(set(mine)) == len(train),
              'split-content', '%s: training images are not those of the '
              'file, once each' % tag)
  else:
    _match(rec, tag, train, part['train'], 'train')
  if binary_eval:
    for what, got, want in [('valid', valid, part['valid']),
                            ('test', test, part['test'])]:
      rec.event(len(got))
      rec.check(bool(np.isin(got, [0, 1]).all()), 'binary',
                '%s: the %s split is not binary' % (tag, what))
      if want is None:
        # the complement of the training images
        used = set(_rows(train))
        want = np.stack([x for x, r in zip(part['train'],
                                           _rows(part['train']))
                         if r not in used])
        m, s = want.mean(0), np.sqrt((want * (1 - want)).sum(0)) / len(want)
        z = np.abs(got.mean(0) - m) / s
      else:
        if not rec.check(got.shape == want.shape, 'split-size',
                         '%s: %s split of shape %s' % (tag, what, got.shape)):
          continue
        # each image drawn from its own pixel probabilities
        s = np.sqrt((want * (1 - want)).sum(1))
        z = np.abs((got - want).sum(1)) / s
        c = ((got - want) * (want - 0.5)).sum() / np.sqrt(
            (want * (1 - want) * (want - 0.5) ** 2).sum())
        rec.check(abs(c) < 8, 'binarisation', '%s: pixels of the %s split are '
                  'not on with the probability of their gray value' % (
                      tag, what))
      rec.check(bool(z.max() < 8), 'binarisation', '%s: the %s split is not '
                'drawn from the gray values of its images' % (tag, what))
      rec.seen(tag, what, 'binary')
  elif name != 'freyfaces':
    _match(rec, tag, valid, part['valid'], 'valid')
    _match(rec, tag, test, part['test'], 'test')
  # through the entry point of training: the training split only
  sys.modules.pop('discs.learning.train', None)
  train_mod = importlib.import_module('discs.learning.train')
  np.random.seed(seed + 1)
  again = train_mod.load_numpyds(name, root)
  if name in ('freyfaces', 'omniglot'):
    rec.check(again.shape == train.shape, 'split-size', '%s: training gets '
              '%s images' % (tag, again.shape))
  else:
    _match(rec, tag, again, part['train'], 'training entry point')
  # the order is random, not that of the file
  if part['train'] is not None and len(train) == len(part['train']):
    rec.check(not np.allclose(train, part['train'], atol=1e-6),
              'not-shuffled', '%s: training images come in file order' % tag)
  rec.sample(dataset=name, train=len(train), valid=len(valid), test=len(test))


def mean(rec, seed):
  """Mean image of a dataset, as training computes it."""
  import importlib
  import sys
  import tensorflow as tf
  _torch()
  sys.modules.pop('discs.learning.raw_torch_dataset', None)
  train = importlib.import_module('discs.learning.train')
  rs = np.random.RandomState(seed)
  for n, side in [(1, 3), (7, 4), (50, 2), (300, 5)]:
    x = rs.randint(0, 256, (n, side, side, 1)).astype(np.uint8)
    x[:, 0, 0] = 0
    x[:, 1, 1] = 255
    got = np.array(train.get_data_mean(
        tf.data.Dataset.from_tensor_slices({'image': x})))
    want = np.clip(x.reshape(n, -1).mean(0) / 255., 0.01, 0.99)
    rec.event(n)
    rec.seen(n, side, seed)
    rec.check(got.shape == want.shape and np.abs(got - want).max() < 1e-5,
              'mean', 'the mean of %d images of %d pixels is off by %.3g' % (
                  n, side * side, np.abs(got.ravel()[:want.size] -
                                         want[:got.size]).max()))
