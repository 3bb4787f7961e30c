"""C22: options of a launch reach the run, with the documented precedence."""
import importlib
import itertools
import os
import pickle

import numpy as np

from vmon import report
from vmon.recorder import REPO, Violation

RULE = ('main_sampling is run as a program with the arguments the launcher '
        'builds from the shipped sweeps (and random overrides of them); the '
        'model, sampler, evaluator, saver and experiment it builds are caught '
        'at the moment the experiment starts, and every option is compared '
        'with the layers it comes from; some small runs go on to the end and '
        'their result files are compared with the options. distinct = '
        '(configuration, work unit, option)')
ASSUMPTIONS = [
    'the layers are: common defaults, then (for graph problems) the '
    'optimisation defaults, the experiment file, the options given; for '
    'models: common defaults, the model file, the options given, the '
    'description of the graph dataset, the configuration saved with trained '
    'parameters',
    'values of the shipped configuration files are taken as they are',
    'trained parameters are small ones written for the run',
]
PRE = 'discs.experiment.main_sampling'


def _rng(*key):
  import zlib
  return np.random.default_rng([zlib.crc32(str(k).encode()) for k in key])


class Caught(Exception):
  pass


def _trained(root, name, categories, rng):
  """Writes parameters and configuration of a small trained model."""
  import jax
  import ml_collections
  os.makedirs(root, exist_ok=True)
  if name == 'rbm':
    m = dict(name='rbm', num_visible=4, num_hidden=3, num_categories=categories,
             shape=(4,))
  else:
    m = dict(name='resnet', image_shape=(2, 2), n_channels=2,
             num_categories=2, shape=(4,))
  cfg = ml_collections.ConfigDict(dict(model=m))
  mean = np.full((4,) if m['num_categories'] == 2 else (4, m['num_categories']),
                 1 / m['num_categories'], np.float32)
  params = {'marker': np.float32(rng.uniform()), 'data_mean': mean}
  with open(os.path.join(root, 'params.pkl'), 'wb') as f:
    pickle.dump(dict(params=params), f)
  with open(os.path.join(root, 'config.yaml'), 'w') as f:
    f.write(cfg.to_yaml())
  return m, params


def _graph_data(root, kind, rand, rng):
  """A small dataset where the loader of this graph type looks for it."""
  import shutil
  from vmon import data
  rs = np.random.RandomState(int(rng.integers(1 << 31)))
  shutil.rmtree(root, ignore_errors=True)
  if kind == 'satlib':
    data.write_cnf(os.path.join(root, 'satlib_test', 'u00.cnf'), 3, [[1, -2, 3]])
    return
  count = 1 if kind == 'nets' else 2
  graphs = [data.random_graph(rs, 5, 0.6, weighted=data.MODEL_OF[kind] == 'maxcut',
                              isolated=False) for _ in range(count)]
  token = data.write_dataset(root, kind, graphs, [2.0] * count)
  if not token or not rand:
    return
  for d, dirs, files in os.walk(root, topdown=False):
    for f in dirs + files:
      if token in f:
        os.renames(os.path.join(d, f), os.path.join(d, f.replace(token, rand)))


def argv_of(cfg, unit, save_root, extra=()):
  """The command line of a work unit, as the launcher builds it."""
  sampler = unit.get('sampler_config.name', cfg.sampler)
  d = os.path.join(REPO, 'discs')
  args = {'model_config': f'{d}/models/configs/{cfg.model}_config.py',
          'sampler_config': f'{d}/samplers/configs/{sampler}_config.py'}
  if cfg.get('graph_type', None):
    args['config'] = f'{d}/experiment/configs/{cfg.model}/{cfg.graph_type}.py'
    args['model_config.graph_type'] = cfg.graph_type
    args['model_config.data_root'] = os.path.abspath('data')
  elif cfg.model == 'text_infilling':
    args['config'] = f'{d}/experiment/configs/lm_experiment.py'
  else:
    args['config'] = f'{d}/common/configs.py'
  args['config.experiment.save_root'] = save_root
  args.update(unit)
  args.update(extra)
  return args


def program(args, catch=True):
  """Runs main_sampling with the arguments; returns what it built."""
  import sys
  import runpy
  from absl import flags
  for f in list(flags.FLAGS):
    if f in ('config', 'model_config', 'sampler_config', 'run_local') or f.split('.')[0] in (
        'config', 'model_config', 'sampler_config'):
      try:
        delattr(flags.FLAGS, f)
      except AttributeError:
        pass
  sys.modules.pop(PRE, None)
  sampling = importlib.import_module('discs.experiment.sampling')
  built = {}
  saved = []
  if catch:
    for n in ('Experiment', 'Sampling_Experiment', 'CO_Experiment', 'Text_Infilling_Experiment',
              'EBM_Experiment'):
      c = getattr(sampling, n, None)
      if c is not None and 'get_results' in vars(c):
        saved.append((c, c.get_results))

        def get_results(self, model, sampler, evaluator, saver, *a, **k):
          built.update(experiment=self, model=model, sampler=sampler,
                       evaluator=evaluator, saver=saver)
          raise Caught()
        c.get_results = get_results
    name = args.get('sampler_config.name') or os.path.basename(args['sampler_config'])[:-10]
    smod = importlib.import_module('discs.samplers.' + name)
    real = smod.build_sampler

    def build_sampler(config):
      built['sampler_config'] = config.sampler
      return real(config)
    smod.build_sampler = build_sampler
  old = sys.argv
  sys.argv = [PRE] + [f'--{k}={v}' for k, v in args.items()]
  out, err = sys.stdout, sys.stderr
  sys.stdout = open(os.devnull, 'w')
  sys.stderr = open(os.devnull, 'w')
  try:
    flags.FLAGS.unparse_flags()
    runpy.run_module(PRE, run_name='__main__')
  except Caught:
    pass
  except SystemExit as e:
    if e.code not in (None, 0):
      raise Violation('exit', f'main_sampling exited with {e.code} for {args}')
  finally:
    sys.stdout.close()
    sys.stderr.close()
    sys.stdout, sys.stderr = out, err
    sys.argv = old
    for c, f in saved:
      c.get_results = f
    if catch:
      smod.build_sampler = real
  if catch and not built:
    raise RuntimeError('no experiment was started')
  return built


def plain(v):
  import ml_collections
  if isinstance(v, ml_collections.ConfigDict):
    return {k: plain(x) for k, x in v.items()}
  if isinstance(v, dict):
    return {k: plain(x) for k, x in v.items()}
  if isinstance(v, (list, tuple)):
    return tuple(plain(x) for x in v)
  return v


def cast(v, like):
  """A command line value as the type of the option it sets."""
  import ast
  if isinstance(like, bool):
    return v if isinstance(v, bool) else str(v).lower() in ('true', '1')
  if isinstance(like, (tuple, list)):
    return plain(ast.literal_eval(str(v)))
  if isinstance(like, int):
    return int(v)
  if isinstance(like, float):
    return float(v)
  return v


def expected(cfg, args, yaml_model=None):
  """The configuration the run has to have."""
  from discs.common import configs as common
  load = lambda path: _load(path).get_config()
  base = plain(common.get_config())
  sampler = dict(base['sampler'])
  sampler.update(plain(load(args['sampler_config'])))
  model = dict(base['model'])
  model.update(plain(load(args['model_config'])))
  expf = plain(load(args['config']))
  experiment = dict(base['experiment'])
  graph = 'graph_type' in model
  if graph:
    experiment.update(evaluator='co_eval', name='CO_Experiment', co_opt_prob=True)
  experiment.update(expf.get('experiment', {}))
  for k, v in args.items():
    if k.startswith('config.experiment.'):
      k = k[len('config.experiment.'):]
      experiment[k] = cast(v, experiment.get(k))
    elif k.startswith('model_config.'):
      k = k[len('model_config.'):]
      model[k] = cast(v, model.get(k))
    elif k.startswith('sampler_config.'):
      k = k[len('sampler_config.'):]
      sampler[k] = cast(v, sampler.get(k))
  if graph:
    g = importlib.import_module('discs.models.configs.%s.%s' % (model['name'], model['graph_type']))
    model.update(plain(g.get_model_config(model['cfg_str'])))
    experiment['num_models'] = model['num_models']
  if yaml_model is not None:
    model.update(plain(yaml_model))
  return dict(sampler=sampler, model=model, experiment=experiment)


_FILES = {}


def _load(path):
  import importlib.util
  if path not in _FILES:
    spec = importlib.util.spec_from_file_location('cfg_%d' % len(_FILES), path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    _FILES[path] = m
  return _FILES[path]


def same(a, b):
  if isinstance(a, dict) and isinstance(b, dict):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, tuple) and isinstance(b, tuple):
    return len(a) == len(b) and all(map(same, a, b))
  try:
    return bool(a == b)
  except Exception:
    return False


def judge(rec, tag, built, want, save_root, params=None):
  import yaml
  got = dict(sampler=plain(built['sampler_config']),
             experiment=plain(built['experiment'].config),
             model=plain(built['experiment'].config_model))
  graph = 'graph_type' in want['model']
  for part, g in got.items():
    w = dict(want[part])
    for k in set(w) | set(g):
      if k in ('fig_folder', 'params') or graph and k in (
          'max_num_nodes', 'max_num_edges', 'shape'):   # from the data (C14)
        continue
      rec.event(1, 'options')
      if k not in g:
        rec.fail('option-missing', f'{tag}: {part} option {k}={w[k]!r} did not reach the run')
      elif k not in w:
        rec.fail('option-extra', f'{tag}: {part} option {k}={g[k]!r} is in no layer')
      elif not same(g[k], w[k]):
        rec.fail('option', f'{tag}: {part} option {k} is {g[k]!r} in the run, {w[k]!r} was asked for')
      rec.seen(part, k, str(w.get(k)))
  s = built['sampler']
  name = want['sampler']['name']
  rec.check(type(s).__module__ == f'discs.samplers.{name}', 'sampler',
            f'{tag}: sampler {name} asked for, {type(s)} runs')
  m = built['model']
  rec.check(type(m).__module__ == f'discs.models.{want["model"]["name"]}', 'model',
            f'{tag}: model {want["model"]["name"]} asked for, {type(m)} runs')
  rec.check(type(built['evaluator']).__module__ == f'discs.evaluators.{want["experiment"]["evaluator"]}',
            'evaluator', f'{tag}: evaluator {want["experiment"]["evaluator"]}, got {type(built["evaluator"])}')
  rec.check(type(built['experiment']).__name__ == want['experiment']['name'], 'experiment',
            f'{tag}: experiment {want["experiment"]["name"]}, got {type(built["experiment"])}')
  path = os.path.join(save_root, 'config.yaml')
  rec.check(os.path.exists(path), 'recorded', f'{tag}: no config.yaml in the results folder')
  with open(path) as f:
    y = plain(yaml.unsafe_load(f))
  for part in ('sampler', 'experiment'):
    for k, v in want[part].items():
      if k == 'fig_folder':
        continue
      rec.check(k in y[part] and same(plain(y[part][k]), v), 'recorded',
                f'{tag}: config.yaml has {part} {k}={y[part].get(k)!r}, the run was asked {v!r}')


def sweep(rec, rel, seed, count):
  """Work units of a shipped sweep."""
  os.chdir(os.environ['VMON_SCRATCH'])
  rng = _rng('sweep', rel, seed)
  cfg, sweeps = report.shipped(rel)
  units = [u for s in sweeps for u in s]
  idx = rng.permutation(len(units))[:count]
  bert = None
  for j, i in enumerate(idx):
    u = dict(units[int(i)])
    save = os.path.abspath(os.path.join('res', rel[:-3].replace('/', '-'), str(seed), report.folder(i, u)[:120]))
    if os.path.isdir(save):
      import shutil
      shutil.rmtree(save)
    yaml_model = params = None
    extra = {}
    if 'model_config.data_path' in u:
      cats = 2
      for part in str(u['model_config.data_path']).split('-'):
        if part.isdigit():
          cats = int(part)
          break
      p = os.path.abspath(os.path.join('trained', str(u['model_config.data_path']).strip('/').replace('/', '_')))
      yaml_model, params = _trained(p, cfg.model, cats, rng)
      extra['model_config.data_path'] = p
    elif cfg.model in ('rbm', 'resnet'):
      p = os.path.abspath('trained/default')
      yaml_model, params = _trained(p, cfg.model, 2, rng)
      extra['model_config.data_path'] = p
    if cfg.model == 'text_infilling':
      from vmon import text
      text.shim()
      if bert is None:
        bert = os.path.abspath('bert')
        os.makedirs(bert, exist_ok=True)
        with open(os.path.join(bert, 'infilling_task.json'), 'w') as f:
          f.write('[]')
        for n in ('wiki103_remove_infill.5k.txt', 'tbc_remove_infill.5k.txt'):
          with open(os.path.join(bert, n), 'w') as f:
            f.write('a b c d\n')
        text.make_bert(1, path=bert)
      extra['model_config.bert_model'] = bert
      extra['model_config.data_root'] = os.path.abspath('bert')
    # options a user adds on top of the sweep.
    if rng.integers(2):
      extra['config.experiment.chain_length'] = int(rng.integers(10, 10**6))
    if rng.integers(2):
      extra['config.experiment.batch_size'] = int(rng.integers(1, 64))
    if rng.integers(3) == 0 and not cfg.get('graph_type', None) and cfg.model != 'text_infilling':
      extra['config.experiment.get_additional_metrics'] = bool(rng.integers(2))
      extra['config.experiment.run_parallel'] = bool(rng.integers(2))
    if cfg.get('graph_type', None) and rng.integers(3) == 0:
      extra['config.experiment.t_schedule'] = str(rng.choice(['constant', 'linear', 'exp_decay']))
      extra['config.experiment.init_temperature'] = 2
    args = argv_of(cfg, u, save, extra)
    if cfg.get('graph_type', None):
      g = importlib.import_module('discs.models.configs.%s.%s' % (cfg.model, cfg.graph_type))
      cs = args.get('model_config.cfg_str') or _load(args['model_config']).get_config().cfg_str
      _graph_data(os.path.abspath('data'), cfg.graph_type,
                  g.get_model_config(cs).get('rand_type', ''), rng)
    built = program(args)
    want = expected(cfg, args, yaml_model)
    judge(rec, f'{rel} {report.folder(i, u)}', built, want, save, params)
    if params is not None:
      got = built['experiment'].config_model.get('params')
      rec.check(got is not None and 'marker' in got and got['marker'] == params['marker'], 'trained',
                f'{rel}: the trained parameters of {args["model_config.data_path"]} were not loaded')
    rec.event(1, 'launches')
  rec.sample(config=rel, work_units=len(units), launched=len(idx))


def launch(rec, rel, seed):
  """The launcher itself: the jobs it sends out for a shipped sweep."""
  from collections import Counter
  from vmon import launcher
  rng = _rng('launch', rel, seed)
  cfg, sweeps = report.shipped(rel)
  units = [u for s in sweeps for u in s]
  number = int(rng.integers(1, 1000))
  titles, jobs = launcher.launch(rel, number, save_folder_pattern='/out/{exp_name}_{exp_id}')
  rec.event(len(jobs), 'jobs')
  rec.check(len(jobs) == len(units), 'jobs',
            f'{rel}: the sweep describes {len(units)} runs, {len(jobs)} were launched')
  title = 'discs-' + rel.split('/')[-2] + '-' + rel.split('/')[-1][:-3]
  rec.check(titles == [title], 'title', f'{rel}: experiment {titles}')
  text = lambda args: str(sorted((k, repr(plain(v))) for k, v in args.items()))
  want = Counter()
  for u in units:
    a = argv_of(cfg, u, 'ROOT')
    if cfg.get('graph_type', None):
      a['model_config.data_root'] = 'DATA'
    a.update(u)
    a = {k: v.replace(os.path.join(REPO, 'discs'), '/workdir/discs')
         if isinstance(v, str) else v for k, v in a.items()}
    want[text(a)] += 1
  got = Counter()
  roots = set()
  for n, (wid, a) in enumerate(jobs):
    a = dict(a)
    root = a['config.experiment.save_root']
    roots.add(root)
    u = units[n] if n < len(units) else {}
    base = f'/out/{title}_{number}/'
    rec.check(root.startswith(base) and '/' not in root[len(base):], 'folder',
              f'{rel}: results of job {wid} go to {root}')
    rec.check(root == base + report.folder(wid, {k: plain(v) for k, v in u.items()}) or
              root == base + report.folder(wid, u), 'folder-name',
              f'{rel}: the folder of job {wid} is {root[len(base):]}, its options are {u}')
    a['config.experiment.save_root'] = 'ROOT'
    if cfg.get('graph_type', None) and 'model_config.data_root' not in u:
      a['model_config.data_root'] = 'DATA' if a.get('model_config.data_root') else None
    got[text(a)] += 1
    rec.seen('job', rel, wid)
  rec.check(len(roots) == len(jobs), 'folder-shared', f'{rel}: {len(jobs)} jobs share {len(roots)} folders')
  for k in (want - got):
    rec.fail('job-missing', f'{rel}: no job was launched with {k}')
  for k in (got - want):
    rec.fail('job-extra', f'{rel}: a job was launched with {k}, which the sweep does not describe')
  rec.sample(config=rel, jobs=len(jobs), title=title)


TINY = {
    'bernoulli': {'model_config.shape': '(3,)'},
    'categorical': {'model_config.shape': '(3,)', 'model_config.num_categories': 3},
    'ising': {'model_config.shape': '(2, 3)'},
    'potts': {'model_config.shape': '(2, 2)', 'model_config.num_categories': 3},
    'fhmm': {'model_config.shape': '(3, 2)', 'model_config.num_categories': 2},
}
SAMPLERS = ['randomwalk', 'blockgibbs', 'hammingball', 'gwg', 'path_auxiliary', 'dmala', 'dlmc', 'gibbs']


def whole(rec, model, sampler, seed):
  """A small run from the command line to the result file."""
  import csv
  import ml_collections
  os.chdir(os.environ['VMON_SCRATCH'])
  rng = _rng('whole', model, sampler, seed)
  save = os.path.abspath(f'whole-{model}-{sampler}-{seed}')
  cfg = ml_collections.ConfigDict(dict(model=model, sampler=sampler))
  extra = dict(TINY[model])
  length, batch = int(rng.integers(10, 30)), int(rng.integers(4, 9))
  extra.update({'config.experiment.chain_length': length,
                'config.experiment.batch_size': batch,
                'config.experiment.run_parallel': False})
  unit = {'sampler_config.name': sampler}
  if sampler == 'hammingball':
    unit['sampler_config.block_size'] = 2
  args = argv_of(cfg, unit, save, extra)
  program(args, catch=False)
  with open(os.path.join(save, 'results.csv')) as f:
    rows = list(csv.DictReader(f))
  rec.check(len(rows) == 1, 'results', f'{len(rows)} rows in results.csv')
  r = rows[0]
  rec.check(r['model'] == model and sampler in r['sampler'], 'results', f'row {r}')
  rec.check(int(r['chain_length']) == length and int(r['batch_size']) == batch, 'results',
            f'chain_length {length} batch_size {batch} but the row says {r}')
  e, es = [float(v) for v in r['ESS'].strip('[] ').split()]
  m, _ = [float(v) for v in r['ESS_M-H'].strip('[] ').split()]
  rec.check(abs(m * length * 0.5 - e) < 1e-3 * e + 1e-4, 'results',
            f'ESS {e} of a chain of {length} steps but {m} per step')
  rec.seen('whole', model, sampler, length, batch)
  rec.event(length * batch, 'chain states')
  rec.sample(model=model, sampler=sampler, chain_length=length, batch=batch, ess=e)


def cases(tier, seed):
  out = []
  rels = report.all_shipped()
  quick = tier == 'quick'
  for rel in rels:
    out.append(dict(name='sweep.' + rel[:-3].replace('/', '.'), fn='sweep', cost=3,
                    args=dict(rel=rel, seed=seed, count=4 if quick else 60)))
    out.append(dict(name='launch.' + rel[:-3].replace('/', '.'), fn='launch',
                    args=dict(rel=rel, seed=seed)))
  pairs = list(itertools.product(TINY, SAMPLERS))
  rng = _rng('pairs', seed)
  pick = rng.permutation(len(pairs))[:5 if quick else len(pairs)]
  for i in pick:
    m, s = pairs[int(i)]
    out.append(dict(name=f'whole.{m}.{s}', fn='whole', cost=4, args=dict(model=m, sampler=s, seed=seed)))
  return out
