"""Runs a training script of the repository as a program, observed from outside.

python -m vmon.train_driver SPEC.pkl OUT.pkl

Packages that are not installed here (torch, torchvision, tensorflow_datasets)
are replaced by stand-ins before the script is imported.
Observed: batches handed out by the data loader, sampler steps, replay buffer
calls, scalars logged, figures drawn, files written.
"""
import importlib
import os
import pickle
import sys
import threading
import traceback
import types


def stand_ins(spec):
  def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m
  t = mod('torch')
  t.utils = mod('torch.utils')
  t.utils.data = mod('torch.utils.data')
  tv = mod('torchvision')
  tv.transforms = mod('torchvision.transforms')
  import numpy as np

  class Tensor:

    def __init__(self, a):
      self.a = a

    def numpy(self):
      return np.array(self.a)

    def detach(self):
      return self

    cpu = contiguous = float = detach

    def __array__(self, dtype=None, copy=None):
      return np.array(self.a, dtype)

  t.device = lambda name: name
  t.load = lambda path, **kw: {
      'ema_model': {k: Tensor(v) for k, v in spec['checkpoint'].items()}}

  import tensorflow as tf

  def load(name, split=None, **kw):
    del kw
    assert split == 'train' and name == spec.get('dataset', name)
    return tf.data.Dataset.from_tensor_slices({'image': spec['images']})
  mod('tensorflow_datasets', load=load)
  tf.config.list_physical_devices = lambda *a: ['gpu0', 'gpu1', 'gpu2', 'gpu3']
  tf.config.experimental.set_memory_growth = lambda *a: None


def rows_of(buf):
  """The rows a replay buffer holds, whatever it calls them."""
  import numpy as np
  held = [v for v in [getattr(buf, 'buffer', None)] + list(vars(buf).values())
          if hasattr(v, 'shape') and np.ndim(v) == 2]
  return np.array(max(held, key=lambda v: v.shape[0]))


def main():
  out = sys.argv[2]
  with open(sys.argv[1], 'rb') as f:
    spec = pickle.load(f)
  repo = os.environ.get('VERIF_REPO', '/repo')
  sys.path.insert(0, repo)
  stand_ins(spec)
  import jax
  import numpy as np
  lock = threading.Lock()
  log = dict(batches=[], steps=[], buffer=[], scalars=[], figures=[],
             init=None, error=None, states=[])
  try:
    from discs.common import data_loader
    from discs.common import utils
    try:
      plot = importlib.import_module('discs.plot_results.plot')
    except ImportError:
      plot = None                      # moved: the script will say
    if plot is not None and hasattr(plot, 'plot_shareded_image'):
      real_plot = plot.plot_shareded_image

      def drawn(name, samples, *a, **k):
        log['figures'].append((os.path.basename(name), np.array(samples)))
        n = int(np.prod(samples.shape[2:]))
        if a[:2] and a[0] * a[1] != n:   # the scripts assume 28 x 28 pixels
          a = (1, n) + tuple(a[2:])
        real_plot(name, samples, *a, **k)
      plot.plot_shareded_image = drawn

    real_iter = data_loader.numpy_iter

    def numpy_iter(*a, **k):
      for b in real_iter(*a, **k):
        log['batches'].append(np.array(b))
        yield b
    data_loader.numpy_iter = numpy_iter

    def watch(cls):
      real = cls.step

      def step(self, *a, **k):
        out = real(self, *a, **k)
        names = ['model', 'rng', 'x', 'model_param', 'state']
        kw = dict(zip(names, a))
        kw.update(k)

        def report(rng, x, new_x, params):
          with lock:
            log['steps'].append(dict(rng=np.array(rng), x=np.array(x),
                                     new_x=np.array(new_x),
                                     params=jax.tree_util.tree_map(np.array,
                                                                   params)))
        jax.debug.callback(report, kw['rng'], kw['x'], out[0],
                           kw['model_param'])
        return out
      cls.step = step

    real_setup = utils.setup_logging

    def setup_logging(*a, **k):
      writer = real_setup(*a, **k)
      real_write = writer.write_scalars

      def write_scalars(step, scalars):
        log['scalars'].append((int(step), {k: float(v)
                                           for k, v in scalars.items()}))
        return real_write(step, scalars)
      writer.write_scalars = write_scalars
      return writer
    utils.setup_logging = setup_logging

    if spec['script'] == 'rbm':
      from discs.samplers import blockgibbs
      watch(blockgibbs.RBMBlockGibbsSampler)
      script = importlib.import_module('discs.learning.rbm.main_rbm_training')
    elif spec['script'] == 'ebm':
      from discs.samplers import dlmc
      watch(dlmc.BinaryDLMC)
      np.random.seed(spec['seed'])
      from discs.learning import replay_buffer
      cls = replay_buffer.ReplayBuffer
      real_init, real_sample, real_update = cls.__init__, cls.sample, cls.update

      def init(self, *a, **k):
        real_init(self, *a, **k)
        x_train = k['x_train'] if 'x_train' in k else a[1]
        log['buffer'].append(('init', rows_of(self), np.array(x_train)))

      def sample(self, *a, **k):
        x, inds = real_sample(self, *a, **k)
        log['buffer'].append(('sample', np.array(x), np.array(inds)))
        return x, inds

      def update(self, *a, **k):
        real_update(self, *a, **k)
        x, inds = (list(a) + list(k.values()))[:2]
        log['buffer'].append(('update', np.array(x), np.array(inds),
                              rows_of(self)))
      cls.__init__, cls.sample, cls.update = init, sample, update
      from discs.learning import train
      train.load_numpyds = lambda *a, **k: np.array(spec['data'])
      script = importlib.import_module(
          'discs.learning.binary_ebm.main_binary_training')
    else:
      script = importlib.import_module('discs.learning.binary_ebm.pt2params')
    from absl import flags
    sys.argv = [spec['script']] + [v.replace('REPO', repo)
                                   for v in spec['argv']]
    flags.FLAGS(sys.argv)
    script.main([spec['script']])
    jax.effects_barrier()
  except BaseException as e:  # pylint: disable=broad-except
    inside = any(os.path.realpath(f.filename).startswith(
        os.path.realpath(repo) + '/discs/')
                 for f in traceback.extract_tb(e.__traceback__))
    log['error'] = (inside, '%s: %s' % (type(e).__name__, e),
                    ''.join(traceback.format_exception(e))[-3000:])
  with open(out, 'wb') as f:
    pickle.dump(log, f)


if __name__ == '__main__':
  main()
