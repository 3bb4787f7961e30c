"""C27: repeating a run reproduces its results."""

RULE = ('one evaluation = one sampler step, reported number or saved array of '
        'a real experiment compared with the same one of a repetition; '
        'distinct = (experiment, way of repeating, number)')
ASSUMPTIONS = [
    'experiments and their bounds as for C15, C16, C17 and C24, RBM training '
    'as for C20, on one or two devices of one machine',
    'states have to be equal, floating-point results agree to a relative 1e-5; '
    'measured times and what is divided by them are not compared']

KINDS = ['ba', 'er', 'ertest', 'er_density', 'rb', 'twitter', 'gap_rand']
MODELS = ['bernoulli', 'categorical', 'ising', 'potts', 'fhmm', 'fhmm_categ',
          'rbm', 'resnet']


def cases(tier, seed):
  out = []
  reps = 1 if tier == 'quick' else 8
  for k in range(reps):
    for i, kind in enumerate(KINDS):
      out.append(dict(name='co-%s-%d' % (kind, k), fn='co', cost=3, args=dict(
          kind=kind, pick=i + 3 * k, seed=seed * 191 + 10 * k + i)))
    for i, m in enumerate(MODELS):
      out.append(dict(name='classical-%s-%d' % (m, k), fn='classical', cost=3,
                      args=dict(model=m, pick=2 * i + 5 * k,
                                seed=seed * 193 + 10 * k + i)))
    for i in range(2):
      out.append(dict(name='ais-%d-%d' % (i, k), fn='ais', cost=3, args=dict(
          pick=(3 * i + k) % 8, seed=seed * 197 + 10 * k + i)))
    for i in range(2):
      out.append(dict(name='infilling-%d-%d' % (i, k), fn='infilling', cost=5,
                      args=dict(pick=i + 1 + 2 * k,
                                seed=seed * 199 + 10 * k + i)))
    for i in range(2):
      out.append(dict(name='rbm-training-%d-%d' % (i, k), fn='training', cost=3,
                      args=dict(pick=i + 6 * k, seed=seed * 211 + 10 * k + i)))
    out.append(dict(name='co-er-on-2-%d' % k, fn='co', cost=3, devices=2,
                    args=dict(kind='er', pick=k, seed=seed * 223 + k, models=2,
                              batch=2)))
    out.append(dict(name='classical-ising-on-2-%d' % k, fn='classical', cost=3,
                    devices=2, args=dict(model='ising', pick=k + 7, batch=4,
                                         seed=seed * 227 + k)))
  return out


class Captured(BaseException):
  """Carries the experiment a workload was about to run."""


def capture(target, name, fn):
  """The arguments fn passes to target.name, which is not called."""
  real = getattr(target, name)

  def stop(*a, **k):
    raise Captured(*a)
  setattr(target, name, stop)
  try:
    fn()
  except Captured as e:
    return e.args
  finally:
    setattr(target, name, real)
  raise RuntimeError('nothing was run')


def co(rec, kind, pick, seed, **kw):
  from checks import c15
  from vmon import exp, recorder
  other = ['er', 'rb', 'ertest'][seed % 3]

  def config(kind, pick, seed, **kw):
    return capture(exp, 'run', lambda: c15.run(
        recorder.Recorder(), kind, pick, seed, **kw))[0]
  again(rec, 'co/' + kind, config(kind, pick, seed, **kw),
        config(other, pick + 1, seed + 1, length=3, **kw))


def classical(rec, model, pick, seed, **kw):
  from checks import c16
  from vmon import exp, recorder

  def config(model, pick, seed):
    return capture(exp, 'run', lambda: c16.run(
        recorder.Recorder(), model, pick, seed, length=24 if seed % 2 else 13,
        **kw))[0]
  cfg = config(model, pick, seed)
  exp.set_exp(cfg, save_samples=True)
  # the same kind of model with another seed and sampler in between
  again(rec, 'classical/' + model, cfg, config(model, pick + 1, seed + 1))


def ais(rec, pick, seed):
  from checks import c17
  again(rec, 'ais', c17.setup(pick, seed, 3, 4, 8)[0],
        c17.setup((pick + 1) % 8, seed + 1, 3, 5, 3)[0])


def infilling(rec, pick, seed):
  from checks import c24
  from vmon import exp, recorder

  def config(pick, seed):
    return capture(exp, 'run', lambda: c24.run(
        recorder.Recorder(), seed, pick))[0]
  cfg, other = config(pick, seed), config(pick + 1, seed + 1)
  exp.set_exp(cfg, num_same_resample=3)
  exp.set_exp(other, num_same_resample=1)
  again(rec, 'infilling', cfg, other)


def variant(cfg):
  """The same model and sampler with other options."""
  import copy
  from vmon import exp
  cfg = copy.deepcopy(cfg)
  e = cfg.experiment
  exp.set_exp(cfg, chain_length=e.chain_length + 3)
  if 'text' not in cfg.model.name:
    exp.set_exp(cfg, batch_size=2 * e.batch_size)
  for key in ('init_temperature', 'final_temperature'):
    if key in e:
      exp.set_exp(cfg, **{key: 2.0 * e[key]})
  fn = cfg.sampler.get('balancing_fn_type', None)
  with cfg.unlocked():
    if fn is not None:
      cfg.sampler.balancing_fn_type = 'RATIO' if fn != 'RATIO' else 'SQRT'
  return cfg


def again(rec, tag, cfg, other):
  """Runs cfg, disturbs the process, runs it again, and in a new process."""
  import copy
  import os
  import pickle
  import subprocess
  import tempfile
  import jax
  from vmon import exp, repeat, run
  tag = '%s/%s' % (tag, cfg.sampler.name)
  # what another run of the model and sampler leaves behind must not matter
  _, where = repeat.results(variant(cfg))
  first, _ = repeat.results(copy.deepcopy(cfg))
  rec.event(len(first['steps']), 'sampler steps')
  if not rec.check(first['steps'] and first['files'], 'nothing', '%s: neither '
                   'steps nor results' % tag):
    return
  # in the same process, after another experiment, over older results
  exp.run(copy.deepcopy(other))
  with repeat.disturbed(5):
    second, _ = repeat.results(copy.deepcopy(cfg), where)
  compare(rec, tag, 'in the same process, in a folder with older results',
          first, second)
  # in a new process
  root = tempfile.mkdtemp(dir=os.environ['VMON_SCRATCH'])
  a, b = os.path.join(root, 'spec.pkl'), os.path.join(root, 'out.pkl')
  with open(a, 'wb') as f:
    pickle.dump(dict(cfg=cfg, seed=11), f)
  env = run.worker_env(jax.local_device_count(), os.environ['VMON_SCRATCH'])
  env['PYTHONHASHSEED'] = '77'
  p = subprocess.run([run.PYTHON, '-m', 'vmon.repeat', a, b], env=env,
                     cwd=root, capture_output=True, text=True, timeout=400,
                     check=False)
  if not os.path.exists(b):
    raise RuntimeError('no results: ' + p.stderr[-1000:])
  with open(b, 'rb') as f:
    third = pickle.load(f)
  if 'error' in third:
    inside, what = third['error']
    if inside:
      rec.fail('exception', '%s: in a new process: %s' % (tag, what[-1500:]))
      return
    raise RuntimeError(what)
  compare(rec, tag, 'in a new process', first, third)
  rec.sample(run=tag, steps=len(first['steps']), files=sorted(first['files']),
             results=str({k: str(v)[:80] for k, v in list(
                 first['files'].items())[:12]}))


def same(a, b):
  import numpy as np
  if isinstance(a, str) or isinstance(b, str):
    return a == b
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    return False
  if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
    return np.allclose(a, b, rtol=1e-5, atol=1e-7, equal_nan=True)
  return np.array_equal(a, b)


def compare(rec, tag, how, one, two):
  import numpy as np
  if not rec.check(len(one['steps']) == len(two['steps']), 'steps', '%s: %d '
                   'sampler steps, %d when repeated %s' % (
                       tag, len(one['steps']), len(two['steps']), how)):
    return
  for s, t in zip(one['steps'], two['steps']):
    rec.event(1)
    bad = [k for k in ('x', 'new_x') if not same(s[k], t[k])]
    if bad:
      rec.fail('states', '%s: step %d goes from %s to %s, but from %s to %s '
               'when the run is repeated %s' % (
                   tag, s['t'], *[np.asarray(v).reshape(-1)[:8].tolist()
                                  for v in (s['x'], s['new_x'], t['x'],
                                            t['new_x'])], how))
      return
  rec.seen(tag, how, 'states', len(one['steps']))
  extra = sorted(set(two['files']) - set(one['files']))
  rec.check(not extra, 'results', '%s: %s are also reported when the run is '
            'repeated %s' % (tag, extra[:3], how))
  for name, v in one['files'].items():
    if not rec.check(name in two['files'], 'results', '%s: %s is not reported '
                     'when the run is repeated %s' % (tag, name, how)):
      continue
    w = two['files'][name]
    rec.check(same(v, w), 'results', '%s: %s is %s, but %s when the run is '
              'repeated %s' % (tag, name, str(v)[:200], str(w)[:200], how))
    rec.seen(tag, how, name)


def training(rec, pick, seed):
  import os
  import pickle
  import numpy as np
  from checks import c20
  from vmon import recorder, repeat
  spec, devices = capture(c20, 'launch', lambda: c20.rbm(
      recorder.Recorder(), pick, seed))
  logs = []
  for k in range(2):
    os.environ['VMON_HASHSEED'] = str(17 * k)
    try:
      root, log = c20.launch(spec, devices)
    finally:
      del os.environ['VMON_HASHSEED']
    saved = {}
    for base, _, names in os.walk(root):
      if 'params.pkl' in names:
        with open(os.path.join(base, 'params.pkl'), 'rb') as f:
          saved.update(repeat.flat(pickle.load(f), 'params'))
    saved.update({'logged/%d/%s' % (t, k): v for t, d in log['scalars']
                  for k, v in d.items() if 'time' not in k.lower()
                  and 'per_sec' not in k.lower()})
    steps = sorted(log['steps'], key=lambda s: s['rng'].tobytes())
    logs.append(dict(steps=[dict(s, t=i) for i, s in enumerate(steps)],
                     files=saved))
  rec.event(len(logs[0]['steps']), 'sampler steps')
  if not rec.check(any(k.startswith('params') for k in logs[0]['files']),
                   'nothing', 'no parameters were saved'):
    return
  compare(rec, 'rbm training', 'with the same seed', *logs)
  rec.sample(devices=devices, seed=seed, numbers=len(logs[0]['files']),
             steps=len(logs[0]['steps']))
