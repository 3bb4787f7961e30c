"""C21: reports show every finished experiment's own numbers."""
import ast
import os
import pickle
import re

import numpy as np

from vmon import report
from vmon.recorder import Violation

RULE = ('Experiment folders named as the launcher names them, for the sweeps of '
        'the shipped run configs and random variations of them, filled by the '
        'real Saver with random results, are given to the reporting scripts run '
        'as programs; tables and figures are read back (bars, lines, ticks in '
        'data coordinates) and compared with the results that were saved.')
ASSUMPTIONS = [
    'figures are observed when they are saved (matplotlib Figure.savefig is replaced by a recorder; nothing is rendered)',
    'sweeps shown against a key other than the sampler name have a folder for every value of the key',
    'values in results.csv are only as exact as the printed numbers (8 decimals)',
    'the running time in reports is twice the recorded one by design of the authors and is not judged',
]

ESS_KEYS = {
    'chain_length_sweep': 'chain_length', 'chian_length_sweep': 'chain_length',
    'lbf_sweep': 'balancing_fn_type', 'model_config_sweep': 'name',
    'shape_sweep': 'shape', 'num_categories_sweep': 'num_categories',
    'binary_sweep': 'name', 'categ_sweep': 'name', 'sampler_sweep': 'name',
}
PLOT = 'discs.plot_results.'


def _rng(*key):
  import zlib
  return np.random.default_rng([zlib.crc32(str(k).encode()) for k in key])


def _scratch():
  d = os.path.join(os.environ['VMON_SCRATCH'], 'rep')
  os.makedirs(d, exist_ok=True)
  os.chdir(d)
  return d


def _units(rel, rng, vary):
  """Work units of a shipped sweep, possibly with other values and samplers."""
  cfg, sweeps = report.shipped(rel)
  if vary:
    # the same values are replaced in every sub-sweep, so that clusters match.
    repl = {}
    for s in sweeps:
      for u in s:
        for k, v in u.items():
          if k.startswith('sampler_config') or (k, str(v)) in repl:
            continue
          if k.endswith('chain_length'):
            new = int(v) + 2 * int(rng.integers(0, 50))
          elif k.endswith('shape'):
            t = ast.literal_eval(str(v))
            new = str(tuple(int(x) + int(rng.integers(0, 4)) for x in t))
          elif k.endswith('num_categories'):
            new = int(v) + int(rng.integers(0, 3))
          else:
            new = v
          if new in repl.values() or str(new) == str(v):
            new = v
          repl[(k, str(v))] = new
    vals = list(repl.items())
    # keep values of a key distinct.
    for k in {k for (k, _), _ in vals}:
      seen = {}
      for (kk, old), new in vals:
        if kk == k:
          head = str(new).split(',')[0]
          if head in seen:
            repl = {key: (key[1] if key[0] == k and False else val) for key, val in repl.items()}
            for (k2, o2), _ in vals:
              if k2 == k:
                repl.pop((k2, o2), None)
            break
          seen[head] = 1
    keep = []
    for s in sweeps:
      for u in s:
        keep.append({k: repl.get((k, str(v)), v) for k, v in u.items()})
    # drop some samplers altogether.
    labels = sorted({report.label(u) for u in keep})
    if len(labels) > 3 and 'lbf' not in rel:
      out = set(rng.choice(labels, size=int(rng.integers(0, len(labels) // 2)), replace=False))
      keep = [u for u in keep if report.label(u) not in out]
    units = keep
  else:
    units = [u for s in sweeps for u in s]
  return cfg, units


def _saver(path, **kw):
  import ml_collections
  from discs.common import experiment_saver
  cfg = ml_collections.ConfigDict(dict(
      experiment=dict(save_root=path, evaluator='ess_eval', batch_size=4,
                      chain_length=10, ess_ratio=0.5, get_additional_metrics=False),
      model=dict(name='m', num_categories=2, shape=(3,)),
      sampler=dict(name='s')))
  return experiment_saver.build_saver(cfg)


def _place(cfg, units, rng, name):
  """Makes a results folder; returns its path and the folder of each unit."""
  root = f'./discs-{cfg.model}-{name}_{int(rng.integers(1e7, 9e7))}'
  ids = list(rng.permutation(len(units)) + 1)
  paths = [os.path.join(root, report.folder(i, u)) for i, u in zip(ids, units)]
  return root, paths


def _groups(units, drop=()):
  g = {}
  for i, u in enumerate(units):
    g.setdefault(report.setting(u, drop), []).append(i)
  return g


# ------------------------------------------------------------------ ESS bars

def ess_bars(rec, rel, seed, vary, incomplete=False):
  import jax.numpy as jnp
  _scratch()
  rng = _rng('ess', rel, seed)
  cfg, units = _units(rel, rng, vary)
  base = os.path.basename(rel)[:-3]
  key = ESS_KEYS[base]
  if incomplete and key not in ('name',):
    # not finished: the folder exists, the results do not.
    missing = set(rng.choice(len(units), size=max(1, len(units) // 6), replace=False))
  elif incomplete:
    missing = set(rng.choice(len(units), size=2, replace=False))
  else:
    missing = set()
  root, paths = _place(cfg, units, rng, base)
  want = []
  for i, (u, p) in enumerate(zip(units, paths)):
    sv = _saver(p)
    ee, es, tt, ts = 10.0 ** rng.uniform(-4, 0, size=4)
    ts *= 1000
    pair = (lambda a, b: jnp.array([a, b])) if rng.integers(2) else (lambda a, b: jnp.array([[a, b]]))
    scale = None
    for k, v in u.items():
      if k.endswith('chain_length'):
        scale = int(v) // 2
    scale = 50000 if scale is None else scale
    want.append(dict(ess_ee=(ee * scale, es * scale, 1e-8 * scale),
                     ess_clock=(tt, ts, 1e-8)))
    if i not in missing:
      sv.save_results([], [], [pair(1.5, .5), pair(.1, .01), pair(tt, ts), pair(ee, es)], 1.0)
    rec.event(1, 'experiments')
  figs = report.program(PLOT + 'plot_results', gcs_results_path=root,
                        evaluation_type='ess', key=key)
  drop = ('name',) if key == 'name' else (key,)
  groups = _groups(units, drop)
  tick_of = lambda u: None
  if key == 'balancing_fn_type':
    names = dict(SQRT='$\\sqrt{t}$', RATIO='$\\frac{t}{t+1}$', MIN='1 \u2227 t', MAX='1 \u2228 t')
    tick_of = lambda u: names[u['sampler_config.balancing_fn_type']]
  elif key != 'name':
    def tick_of(u):
      v = [v for k, v in u.items() if k.split('.')[-1] == key][0]
      if key == 'shape':
        v = ast.literal_eval(str(v))[0]
        if cfg.model in ('ising', 'potts'):
          return f'{v}x{v}'
      return str(v)
  def label_of(u):
    l = report.label(u)
    return l[:l.find('(')] if key == 'balancing_fn_type' else report.shown(l)
  for metric in ('ess_ee', 'ess_clock'):
    mine = {}
    for f in figs:
      if f.name.startswith(metric):
        mine.setdefault(f.name.rsplit('.', 1)[0], []).append(f)
    if len(mine) != len(groups):
      raise Violation('figures', f'{rel}: {len(groups)} settings of {len(units)} experiments '
                      f'but {len(mine)} {metric} figures by {key}: {sorted(mine)[:4]}')
    placed = {}
    for stem, fs in mine.items():
      got = {}
      f = fs[0]
      for lbl, rows in f.bars:
        for x, h, e in rows:
          t = None
          if key != 'name':
            t = min(f.ticks, key=lambda q: abs(q[0] - x))[1]
          if (lbl, t) in got:
            raise Violation('bar-twice', f'{rel}: figure {stem} has two bars for {lbl} at {t}')
          got[lbl, t] = (h, e)
          rec.event(1, 'bars')
      placed[stem] = got
    for setting, idx in groups.items():
      exp = {}
      for i in idx:
        exp[label_of(units[i]), tick_of(units[i])] = i
      live = [i for i in idx if i not in missing]
      # the figure of this setting is the one with the value of its first live experiment.
      hit = []
      for stem, got in placed.items():
        for lt, i in exp.items():
          if i in missing or lt not in got:
            continue
          v, s, tol = want[i][metric]
          if abs(got[lt][0] - v) <= 1e-5 * v + tol:
            hit.append(stem)
            break
      if len(set(hit)) != 1:
        raise Violation('figure-values', f'{rel}: setting {setting} of {len(live)} finished experiments '
                        f'has its values on {len(set(hit))} {metric} figures')
      got = placed[hit[0]]
      for lt, i in exp.items():
        v, s, tol = want[i][metric]
        if i in missing:
          if lt in got and got[lt][0] != 0:
            rec.fail('bar-unfinished', f'{rel}: {lt} has not finished but {metric} shows {got[lt][0]}')
          rec.seen(rel, metric, lt, 'unfinished')
          continue
        if lt not in got:
          rec.fail('bar-missing', f'{rel}: no {metric} bar for {lt} on {hit[0]}')
          continue
        h, e = got[lt]
        rec.check(abs(h - v) <= 1e-5 * v + tol, 'bar-height',
                  f'{rel} by {key}: {metric} of {lt} is {v} but the bar shows {h}')
        rec.check(e is None or abs(e - s) <= 1e-5 * s + tol, 'bar-error',
                  f'{rel} by {key}: {metric} of {lt} has std {s} but the bar shows {e}')
        if e is None:
          rec.doubt('error bar not readable') if hasattr(rec, 'doubt') else None
        rec.seen(rel, metric, lt, key)
      extra = set(got) - set(exp)
      extra = {x for x in extra if got[x][0] != 0}
      rec.check(not extra, 'bar-extra', f'{rel}: bars of no experiment on {hit[0]}: {sorted(map(str, extra))}')
  rec.sample(config=rel, key=key, experiments=len(units), figures=len(figs),
             unfinished=len(missing))


# ------------------------------------------------------------------ CO tables

def _co_fill(rng, paths, graphs=5, points=7):
  out = []
  for p in paths:
    sv = _saver(p)
    trs, brs, times, best = [], [], [], []
    for _ in range(int(rng.integers(1, 4))):
      n = int(rng.integers(1, graphs + 1))
      tr = rng.uniform(-0.3, 1.2, size=(points, n))
      br = tr.max(0)
      t = float(rng.uniform(1, 50))
      bs = rng.integers(0, 3, size=(n, 4))
      sv.save_co_resuts(list(tr), list(br), t, list(bs))
      trs.append(tr), brs.append(br), times.append(t)
    out.append(dict(traj=np.concatenate(trs, 1), best=np.concatenate(brs), time=sum(times)))
  return out


def _num(s):
  s = re.sub(r'(np\.)?float\d*\(([^()]*)\)', r'\2', str(s)).strip('[] ')
  return float(s)


def _table(rec, rel, units, rows_of, want, tag):
  """Each experiment has its own row, with its own values, next to its setting."""
  groups = _groups(units)
  if len(rows_of) != len(groups):
    raise Violation('tables', f'{rel}: {len(groups)} settings but {len(rows_of)} tables: {sorted(rows_of)[:4]}')
  for fname, rows in rows_of.items():
    for r in rows:
      rec.event(1, 'rows')
  used = set()
  for setting, idx in groups.items():
    hits = set()
    for i in idx:
      lbl = report.label(units[i])
      for fname, rows in rows_of.items():
        for n, r in enumerate(rows):
          if r['sampler'] == lbl and all(
              abs(_num(r[k]) - v) <= 1e-6 * abs(v) + 1e-9 for k, v in want[i].items()):
            hits.add(fname)
            used.add((fname, n))
            rec.seen(tag, rel, lbl, setting)
            break
        else:
          continue
        break
      else:
        near = [r for rows in rows_of.values() for r in rows if r['sampler'] == lbl][:3]
        rec.fail('row', f'{rel}: no row for {lbl} under {setting} with {want[i]}; rows of that sampler: {near}')
    rec.check(len(hits) <= 1, 'split', f'{rel}: experiments of one setting {setting} are in {len(hits)} tables')
  total = {(f, n) for f, rows in rows_of.items() for n in range(len(rows))}
  rec.check(used == total, 'extra-row', f'{rel}: {len(total - used)} rows belong to no experiment')


def co_table(rec, rel, seed, vary):
  _scratch()
  rng = _rng('co', rel, seed)
  cfg, units = _units(rel, rng, vary)
  root, paths = _place(cfg, units, rng, os.path.basename(rel)[:-3])
  data = _co_fill(rng, paths)
  want = [dict(best_ratio_mean=d['best'].mean(), best_ratio_std=d['traj'][-1].std()) for d in data]
  report.program(PLOT + 'plot_results', gcs_results_path=root, evaluation_type='co', key='name')
  rows = report.read_csvs(os.path.join('co_csv', root[2:]))
  _table(rec, rel, units, rows, want, 'co')
  rec.sample(config=rel, experiments=len(units), tables=len(rows))


def lm_table(rec, rel, seed):
  _scratch()
  rng = _rng('lm', rel, seed)
  cfg, units = _units(rel, rng, False)
  root, paths = _place(cfg, units, rng, os.path.basename(rel)[:-3])
  want = []
  for p in paths:
    sv = _saver(p)
    topk = {m: float(rng.uniform(0, 100)) for m in
            ('self_bleu', 'wt_bleu', 'tbc_bleu', 'unique_bleu_2', 'self_unique_3')}
    res = {m: float(rng.uniform(0, 100)) for m in topk}
    topk['infill_sents'] = ['a b', 'c d']
    res['infill_sents'] = ['e f']
    sv.save_lm_results(res, topk)
    want.append({k: v for k, v in topk.items() if k != 'infill_sents'})
  report.program(PLOT + 'plot_results', gcs_results_path=root, evaluation_type='lm', key='name')
  rows = report.read_csvs(os.path.join('lm_csv', root[2:]))
  _table(rec, rel, units, rows, want, 'lm')
  rec.sample(config=rel, experiments=len(units), tables=len(rows))


# ------------------------------------------------------- CO through time lines

def co_lines(rec, rel, seed, vary, points):
  _scratch()
  rng = _rng('line', rel, seed, points)
  cfg, units = _units(rel, rng, vary)
  if len(units) > 40:
    settings = sorted(_groups(units))
    keep = set(rng.permutation(len(settings))[:3])
    units = [u for u in units if settings.index(report.setting(u)) in keep]
  root, paths = _place(cfg, units, rng, os.path.basename(rel)[:-3])
  data = _co_fill(rng, paths, points=points)
  unfinished = set()
  if len(units) > 3:
    unfinished = {int(rng.integers(len(units)))}
    for i in unfinished:
      os.remove(os.path.join(paths[i], 'results.pkl'))
  figs = report.program(PLOT + 'plot_co_through_time', gcs_results_path=root,
                        graphtype=cfg.model)
  groups = _groups(units)
  for xlabel in ('Steps', 'Time (s)'):
    mine = {}
    for f in figs:
      if f.name.startswith(xlabel):
        mine.setdefault(f.name.rsplit('.', 1)[0], f)
    live = {g: [i for i in idx if i not in unfinished] for g, idx in groups.items()}
    live = {g: v for g, v in live.items() if v}
    if len(mine) != len(live):
      raise Violation('figures', f'{rel}: {len(live)} settings but {len(mine)} figures over {xlabel}')
    lines = [(s, l, x, y, f) for s, f in mine.items() for l, x, y in f.lines
             if not l.startswith('_')]
    n_live = sum(map(len, live.values()))
    rec.check(len(lines) == n_live, 'lines',
              f'{rel}: {n_live} finished experiments but {len(lines)} lines over {xlabel}')
    for g, idx in live.items():
      on = set()
      for i in idx:
        lbl = report.label(units[i])
        mean = data[i]['traj'].mean(-1)
        std = np.clip(data[i]['traj'], 0, None).std(-1)
        hit = [q for q in lines if q[1] == lbl and len(q[3]) == len(mean)
               and np.allclose(q[3], mean, rtol=1e-6, atol=1e-9)]
        if len(hit) != 1:
          rec.fail('line', f'{rel}: {len(hit)} lines show the trajectory of {lbl} under {g} over {xlabel}')
          continue
        stem, _, x, y, f = hit[0]
        on.add(stem)
        every = 1000
        for k, v in units[i].items():
          if k.endswith('log_every_steps'):
            every = int(v)
        if xlabel == 'Steps':
          xs = 1 + np.arange(len(mean)) * every
          rec.check(len(x) == len(xs) and np.allclose(x, xs), 'line-x',
                    f'{rel}: steps of {lbl} are {x[:3]}.. instead of {xs[:3]}..')
        else:
          xs = np.arange(len(mean)) / len(mean)
          k = x[-1] / (xs[-1] or 1)
          rec.check(len(x) == len(mean) and np.allclose(x, xs * k, rtol=1e-6, atol=1e-9)
                    and k > 0, 'line-time',
                    f'{rel}: times of {lbl} are not evenly spread: {x[:4]}')
          ratio = k / data[i]['time']
          rec.check(any(abs(ratio - c) < 1e-6 for c in (1.0, 2.0)), 'line-time',
                    f'{rel}: the line of {lbl} ends at {x[-1]} s of a run of {data[i]["time"]} s')
        lo, hi = mean - std, mean + std
        band = False
        for polys in f.bands:
          v = np.concatenate(polys)
          have = {(round(float(a), 6), round(float(b), 6)) for a, b in v}
          pts = {(round(float(a), 6), round(float(b), 6)) for a, b in zip(np.r_[x, x], np.r_[lo, hi])}
          if len(pts - have) <= 0.02 * len(pts):
            band = True
            break
        rec.check(band, 'band', f'{rel}: no band of one standard deviation around {lbl}')
        rec.check(any(t.endswith('=' + lbl) for t in f.legend), 'legend',
                  f'{rel}: {lbl} is not in the legend {f.legend}')
        rec.seen('line', rel, g, lbl, xlabel, points)
        rec.event(len(x), 'points')
      rec.check(len(on) <= 1, 'split', f'{rel}: experiments of one setting are on {len(on)} figures')
  rec.sample(config=rel, experiments=len(units), figures=len(figs), points=points)


# ------------------------------------------------------- ESS over temperatures

def ising_lines(rec, rel, seed, vary, incomplete):
  """plot_ising_temp: one line per sampler, one point per coupling."""
  import jax.numpy as jnp
  _scratch()
  rng = _rng('ising', rel, seed)
  cfg, sweeps = report.shipped(rel)
  units = [u for s in sweeps for u in s]
  key = 'model_config.lambdaa'
  old = sorted({u[key] for u in units})
  new = old
  if vary:
    new = sorted(set(np.round(rng.uniform(0.05, 1.2, size=len(old)), 4)))[:int(
        rng.integers(2, len(old)))]
  units = [dict(u, **{key: float(new[old.index(u[key])])}) for u in units
           if old.index(u[key]) < len(new)]
  missing = set(rng.choice(len(units), size=3, replace=False)) if incomplete else set()
  root, paths = _place(cfg, units, rng, os.path.basename(rel)[:-3])
  names = dict(report.NAMES, randomwalk='rmw')
  want = {}
  for i, (u, p) in enumerate(zip(units, paths)):
    sv = _saver(p)
    ee, es, tt, ts = 10.0 ** rng.uniform(-4, 0, size=4)
    tt *= 300
    pair = (lambda a, b: jnp.array([a, b])) if rng.integers(2) else (lambda a, b: jnp.array([[a, b]]))
    scale = int(u['config.experiment.chain_length']) // 2
    if i not in missing:
      sv.save_results([], [], [pair(1.5, .5), pair(.1, .01), pair(tt, ts), pair(ee, es)], 1.0)
    lbl = report.shown(report.label(u, names))
    want[lbl, u[key]] = dict(ess_ee=(ee * scale, 1e-8 * scale), ess_clock=(tt, 1e-8)) \
        if i not in missing else None
    rec.event(1, 'experiments')
  figs = report.program(PLOT + 'plot_ising_temp', gcs_results_path=root, key='name')
  shown = {l for l, _ in want} - {'hb-10-1', 'bg-2', 'rmw'}
  for metric in ('ess_ee', 'ess_clock'):
    f = [f for f in figs if f.name.startswith(metric)]
    if not f:
      raise Violation('figures', f'{rel}: no {metric} figure over the couplings')
    lines = {l: (x, y) for l, x, y in f[0].lines}
    rec.check(set(lines) == shown and len(f[0].lines) == len(shown), 'lines',
              f'{rel}: lines of {sorted(lines)} but experiments of {sorted(shown)}')
    for lbl in shown & set(lines):
      x, y = lines[lbl]
      rec.check(np.allclose(np.sort(x), new), 'line-x',
                f'{rel}: points of {lbl} at {x} but the couplings are {new}')
      for a, b in zip(x, y):
        w = [v for (l, q), v in want.items() if l == lbl and abs(q - a) < 1e-9]
        if not w:
          continue
        rec.seen('ising', rel, metric, lbl, a)
        if w[0] is None:
          rec.check(b == 0, 'point-unfinished', f'{rel}: {lbl} at {a} has not finished but shows {b}')
        else:
          v, tol = w[0][metric]
          rec.check(abs(b - v) <= 1e-5 * v + tol, 'point',
                    f'{rel}: {metric} of {lbl} at {a} is {v} but the line shows {b}')
  rec.sample(config=rel, experiments=len(units), couplings=len(new), unfinished=len(missing))


# ------------------------------------------------------------------ log Z lines

def ais_lines(rec, seed):
  rel = 'ebm/binray_ebm/logz.py'
  _scratch()
  rng = _rng('ais', seed)
  cfg, units = _units(rel, rng, False)
  if seed % 2:
    labels = sorted({report.label(u) for u in units})
    out = set(rng.choice(labels, size=3, replace=False))
    units = [u for u in units if report.label(u) not in out]
  root, paths = _place(cfg, units, rng, 'logz')
  data = []
  for p in paths:
    y = np.cumsum(rng.normal(size=int(rng.integers(2, 60))))
    _saver(p).save_logz(y if rng.integers(2) else list(y))
    data.append(y)
  figs = report.program(PLOT + 'plot_ais', gcs_results_path=root)
  mine = {}
  for f in figs:
    mine.setdefault(f.name.rsplit('.', 1)[0], f)
  groups = _groups(units)
  rec.check(len(mine) == len(groups), 'figures', f'{len(groups)} settings but {len(mine)} figures')
  names = dict(report.NAMES, randomwalk='rmw')
  for g, idx in groups.items():
    on = set()
    for i in idx:
      lbl = report.shown(report.label(units[i], names))
      hit = [s for s, f in mine.items() for l, x, y in f.lines
             if l == lbl and len(y) == len(data[i]) and np.allclose(y, data[i], atol=1e-6)
             and np.array_equal(x, np.arange(len(y)))]
      rec.check(len(hit) == 1, 'line', f'{len(hit)} lines show log Z of {lbl} under {g}')
      on.update(hit)
      rec.seen('ais', g, lbl)
    rec.check(len(on) == 1, 'split', f'experiments of one setting are on {len(on)} figures')
  n = sum(len(f.lines) for f in mine.values())
  rec.check(n == len(units), 'lines', f'{len(units)} experiments but {n} lines')
  rec.sample(experiments=len(units), figures=len(mine))


# --------------------------------------------------------------- Bernoulli error

def _ber(rng, n, steps, chains):
  import ml_collections
  from discs.models import bernoulli
  cfg = ml_collections.ConfigDict(dict(shape=(n,), init_sigma=1.0, num_categories=2,
                                       name='bernoulli'))
  model = bernoulli.build_model(ml_collections.ConfigDict(dict(model=cfg)))
  import jax
  params = model.make_init_params(jax.random.PRNGKey(int(rng.integers(1 << 30))))
  x = rng.integers(0, 2, size=(steps, chains, n))
  return model, params, x


def _p(params):
  th = np.asarray(params['params'] if isinstance(params, dict) else params, np.float64)
  return th


def _errors(x, p):
  x = np.asarray(x, np.float64)
  m = x.mean(0)
  v = x.var(0, ddof=1) if len(x) > 1 else np.full(m.shape, np.nan)
  q = p * (1 - p)
  return (((m - p) ** 2).mean(), ((m - p) ** 2).max(),
          ((v - q) ** 2).mean(), ((v - q) ** 2).max())


def bernoulli_errors(rec, seed):
  import jax
  import ml_collections
  from discs.common import configs
  from discs.evaluators import bernoulli_eval
  rng = _rng('ber', seed)
  config = configs.get_config()
  ev = bernoulli_eval.build_evaluator(config)
  for _ in range(6):
    n, steps, chains = int(rng.integers(1, 7)), int(rng.integers(2, 40)), int(rng.integers(2, 9))
    model, params, x = _ber(rng, n, steps, chains)
    # the marginals, from the energy alone.
    p = np.zeros(n)
    for i in range(n):
      a = np.zeros((2, n), np.float32)
      a[1, i] = 1
      e = np.asarray(model.forward(params, jax.numpy.array(a)), np.float64)
      p[i] = 1 / (1 + np.exp(e[0] - e[1]))
    got_p = np.asarray(model.get_expected_val(params), np.float64)
    got_v = np.asarray(model.get_var(params), np.float64)
    rec.check(np.allclose(got_p, p, atol=1e-5), 'mean', f'expected value {got_p} but the energies give {p}')
    rec.check(np.allclose(got_v, p * (1 - p), atol=1e-5), 'variance',
              f'variance {got_v} but the energies give {p * (1 - p)}')
    got = [float(v) for v in ev.evaluate(jax.numpy.array(x), model, params)]
    want = list(_errors(x, p))
    last = x[-1]                         # [chains, n]: the last state of all chains
    m = last.mean(0)
    v = last.var(0, ddof=1)
    want += [((m - p) ** 2).mean(), ((v - p * (1 - p)) ** 2).mean()]
    names = ['mean error', 'max mean error', 'variance error', 'max variance error',
             'mean error of last samples', 'variance error of last samples']
    for g, w, nm in zip(got, want, names):
      rec.check(abs(g - w) <= 1e-4 * max(w, 1e-2), 'error-value',
                f'{nm}: {g} but {w} for {steps} steps of {chains} chains', n=n)
    rec.seen('ber', n, steps, chains)


def estimation_error(rec, seed):
  """plot_estimation_error: one line per experiment, error of each window."""
  import jax
  from discs.common import configs
  _scratch()
  rng = _rng('ee', seed)
  rel = 'classical_models/bernoulli/estimation_error.py'
  cfg, units = _units(rel, rng, False)
  pick = rng.permutation(len(units))[:5]
  units = [units[i] for i in pick]
  base = configs.get_config()
  size, stride = base.experiment.window_size, base.experiment.window_stride
  root, paths = _place(cfg, units, rng, 'estimation_error')
  want = []
  for k, p_ in enumerate(paths):
    steps = [size, size + stride, size + 3 * stride - 1, size + 2 * stride + 1,
             max(2, size - 1)][k % 5]
    if steps > 4000:
      steps = min(steps, size + stride)
    model, params, x = _ber(rng, int(rng.integers(1, 4)), steps, 2)
    sv = _saver(p_)
    sv.dump_samples(list(x))
    sv.dump_params(params)
    p = np.asarray(model.get_expected_val(params), np.float64)
    w = [_errors(x[s:s + size], p)[0] for s in range(0, steps, stride) if s + size <= steps]
    want.append(w)
  figs = report.program(PLOT + 'plot_estimation_error', gcs_results_path=root)
  rec.check(len(figs) >= 1, 'figures', 'no figure saved')
  names = dict(report.NAMES, randomwalk='rmw', path_auxiliary='pafs')
  f = figs[-1]
  rec.check(len(f.lines) == len(units), 'lines', f'{len(units)} experiments, {len(f.lines)} lines')
  pool = list(f.lines)
  for u, w in zip(units, want):
    g = {k.split('.')[-1]: v for k, v in u.items()}
    lbl = names.get(g['name'], g['name']) + ('f' if g.get('solver') == 'euler_forward' else '')
    lbl += dict(SQRT='$\\sqrt{t}$', RATIO='$\\frac{t}{t+1}$', MIN='(min)', MAX='(max)').get(g.get('balancing_fn_type'), '')
    hit = [l for l in pool if l[0] == lbl and len(l[2]) == len(w)
           and np.allclose(l[2], w, rtol=1e-3, atol=1e-6)]
    rec.check(len(hit) >= 1, 'line', f'no line shows the {len(w)} window errors of {lbl}: '
              f'{[(l[0], len(l[2])) for l in pool]}')
    for l in hit[:1]:
      rec.check(np.array_equal(l[1], 1 + np.arange(len(w))), 'line-x', f'x of {lbl}: {l[1][:4]}')
    rec.seen('ee', lbl, len(w))
    rec.event(len(w), 'windows')
  rec.sample(experiments=len(units), windows=[len(w) for w in want])


def saver_error_plot(rec, seed):
  """Saver.plot_estimation_error, as called at the end of a run."""
  import ml_collections
  from discs.common import configs, experiment_saver
  import matplotlib
  matplotlib.use('Agg')
  import matplotlib.figure
  import matplotlib.pyplot as plt
  _scratch()
  rng = _rng('sep', seed)
  for _ in range(3):
    config = configs.get_config()
    size, stride = int(rng.integers(2, 9)), int(rng.integers(1, 7))
    config.experiment.window_size = size
    config.experiment.window_stride = stride
    config.experiment.save_root = os.path.abspath(f'ee{int(rng.integers(1e6))}')
    sv = experiment_saver.build_saver(config)
    steps = int(rng.integers(2, 30))
    model, params, x = _ber(rng, int(rng.integers(1, 5)), steps, int(rng.integers(1, 4)))
    figs = []
    real = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = lambda self, fname, *a, **k: figs.append(report.Figure(self, fname))
    try:
      sv.plot_estimation_error(model, params, np.asarray(x))
    finally:
      matplotlib.figure.Figure.savefig = real
      plt.close('all')
    p = np.asarray(model.get_expected_val(params), np.float64)
    w = [_errors(x[s:s + size], p)[0] for s in range(0, steps, stride) if s + size <= steps]
    rec.check(len(figs) == 1 and len(figs[0].lines) == 1, 'figures', f'{len(figs)} figures')
    y = figs[0].lines[0][2]
    rec.check(len(y) == len(w) and np.allclose(y, w, rtol=1e-3, atol=1e-6), 'line',
              f'windows of {size} every {stride} of {steps} steps: {y[:4]} but {w[:4]}')
    rec.check(os.path.dirname(os.path.abspath(figs[0].path)) == config.experiment.save_root, 'place',
              f'figure saved at {figs[0].path}')
    rec.seen('sep', size, stride, steps)


# ----------------------------------------------------------------- normcut table

def normcut_table(rec, seed):
  import networkx as nx
  _scratch()
  rng = _rng('nc', seed)
  rel = ['co/normcut/vgg.py', 'co/normcut/mnist.py'][seed % 2]
  cfg, units = _units(rel, rng, False)
  n = int(rng.integers(6, 30))
  g = nx.gnp_random_graph(n, 0.3, seed=int(rng.integers(1 << 30)))
  if seed % 2:
    order = list(rng.permutation(n))
    h = nx.Graph()
    h.add_nodes_from(int(v) for v in order)
    h.add_edges_from(g.edges())
    g = h
  else:
    order = list(range(n))
  with open('g.pkl', 'wb') as f:
    pickle.dump(g, f)
  root, paths = _place(cfg, units, rng, 'vgg')
  adj = nx.to_numpy_array(g)
  want = []
  for p in paths:
    x = rng.permutation(np.r_[[0, 1, 2], rng.integers(0, 3, size=n - 3)])
    if rng.integers(4) == 0:
      x = rng.permutation(np.r_[[0, 1], rng.integers(0, 2, size=n - 2)])
    _saver(p).save_co_resuts([[0.5]], [0.5], 1.0, [x.astype(np.float32)])
    cut = sum(x[i] != x[j] for i in range(n) for j in range(n) if adj[i, j] == 1)
    sizes = [int((x == k).sum()) for k in range(3)]
    bal = sum(a * b for i, a in enumerate(sizes) for j, b in enumerate(sizes) if i != j) * 3 / (2 * n * n)
    want.append((cut / adj.sum(), bal))
    rec.event(n, 'nodes')
  report.program('discs.common.normcut_evaluator', gcs_results_path=root, graph_file='./g.pkl')
  rows = []
  for name, r in report.read_csvs('discs/common/normcut_csv').items():
    if os.path.dirname(name) == root[2:]:
      rows += r
  rec.check(len(rows) == len(units), 'rows', f'{len(units)} experiments but {len(rows)} rows')
  for u, (cut, bal) in zip(units, want):
    lbl = report.label(u, report.NAMES_OLD)
    hit = [r for r in rows if r['sampler'] == lbl and abs(float(r['cut ratio']) - cut) < 1e-6
           and abs(float(r['balanceness']) - bal) < 1e-6]
    rec.check(len(hit) == 1, 'row', f'{len(hit)} rows for {lbl} with cut ratio {cut} and balance {bal}: '
              f'{[r for r in rows if r["sampler"] == lbl]}')
    rec.seen('nc', lbl, n)
  rec.sample(nodes=n, experiments=len(units))


# --------------------------------------------------------------------- pictures

def pictures(rec, seed):
  from discs.plot_results import plot
  import PIL.Image
  d = _scratch()
  rng = _rng('pic', seed)
  for _ in range(12):
    n, h, w = int(rng.integers(1, 20)), int(rng.integers(1, 7)), int(rng.integers(1, 7))
    c, pad, pv = [1, 3][int(rng.integers(2))], int(rng.integers(0, 3)), int(rng.integers(0, 256))
    cols = [0] + [k for k in range(1, n + 1) if n % k == 0]
    col = int(rng.choice(cols))
    imgs = rng.integers(0, 256, size=(n, h, w, c)).astype(np.uint8)
    out = np.asarray(plot.np_tile_imgs(imgs, pad_pixels=pad, pad_val=pv, num_col=col))
    nc = col or int(np.ceil(np.sqrt(n)))
    nr = n // col if col else nc
    H, W = h + 2 * pad, w + 2 * pad
    full = np.full((nr * H, nc * W, c), pv, np.uint8)
    for i in range(n):
      a, b = (i // nc) * H + pad, (i % nc) * W + pad
      full[a:a + h, b:b + w] = imgs[i]
    if pad:
      full = full[pad:-pad, pad:-pad]
    full = full[..., 0] if c == 1 else full
    rec.check(out.shape == full.shape and np.array_equal(out, full), 'tiles',
              f'{n} images of {h}x{w}x{c}, pad {pad}, {col} columns: tiling differs')
    rec.seen('tile', n, h, w, c, pad, col)
  # a batch spread over devices, as training saves it.
  import jax
  D = jax.local_device_count()
  for _ in range(3):
    per, h, w = int(rng.integers(1, 5)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
    x = rng.integers(0, 2, size=(D, per, h * w)).astype(np.float32)
    mx = int(rng.choice([64, max(1, D * per - 1)]))
    f = os.path.join(d, 'im.png')
    plot.plot_shareded_image(f, jax.numpy.array(x), h, w, 1, rescale=255.0, max_num_plot=mx)
    got = np.asarray(PIL.Image.open(f))
    rows = x.reshape(-1, h, w)[:mx]
    k = int(np.ceil(np.sqrt(len(rows))))
    missing = 0
    for i, r in enumerate(rows):
      a, b = (i // k) * (h + 2), (i % k) * (w + 2)
      if not np.array_equal(got[a:a + h, b:b + w], (r * 255).astype(np.uint8)):
        missing += 1
    rec.check(missing == 0, 'picture', f'{missing} of {len(rows)} samples not on the picture of {D}x{per}')
    rec.seen('pic', D, per, h, w, mx)


def sample_images(rec, seed):
  """Saver.dump_samples: the trajectory and one picture per step and chain."""
  import PIL.Image
  import matplotlib
  matplotlib.use('Agg')
  d = _scratch()
  rng = _rng('img', seed)
  for t in range(3):
    steps, chains, s = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(2, 9))
    x = rng.integers(0, 2, size=(steps, chains, s * s))
    for a in range(steps):
      for b in range(chains):
        x[a, b, :2] = [0, 1]             # both colours on every picture
    out = os.path.join(d, f'smp{seed}_{t}')
    vis = bool(t)
    _saver(out).dump_samples([np.asarray(v) for v in x], visualize=vis)
    with open(os.path.join(out, 'samples.pkl'), 'rb') as f:
      got = np.asarray(pickle.load(f)['trajectory'])
    rec.check(np.array_equal(got, x), 'trajectory', 'saved trajectory differs from the samples')
    files = [f for f in os.listdir(out) if f.endswith('.jpeg')]
    rec.check(len(files) == (steps * chains if vis else 0), 'images',
              f'{steps} steps of {chains} chains: {len(files)} pictures')
    if not vis:
      continue
    for a in range(steps):
      for b in range(chains):
        im = np.asarray(PIL.Image.open(os.path.join(out, f'sample_{a}_of_chain_{b}.jpeg')).convert('L'), float)
        bits = (im > 127).astype(int)
        bad = (bits != x[a, b].reshape(s, s)).mean()
        rec.check(im.shape == (s, s) and bad < 0.2, 'image',
                  f'picture of step {a}, chain {b} shows another sample ({bad:.0%} of pixels differ)')
        rec.seen('img', steps, chains, s, a, b)


ESS_RELS = [r for r in (
    'classical_models/bernoulli/chain_length_sweep.py', 'classical_models/bernoulli/lbf_sweep.py',
    'classical_models/bernoulli/model_config_sweep.py', 'classical_models/bernoulli/shape_sweep.py',
    'classical_models/categorical/chain_length_sweep.py', 'classical_models/categorical/lbf_sweep.py',
    'classical_models/categorical/model_config_sweep.py',
    'classical_models/categorical/num_categories_sweep.py', 'classical_models/categorical/shape_sweep.py',
    'classical_models/fhmm/binary_sweep.py', 'classical_models/fhmm/categ_sweep.py',
    'classical_models/ising/chian_length_sweep.py', 'classical_models/ising/lbf_sweep.py',
    'classical_models/ising/model_config_sweep.py', 'classical_models/ising/shape_sweep.py',
    'classical_models/potts/chain_length_sweep.py', 'classical_models/potts/lbf_sweep.py',
    'classical_models/potts/model_config_sweep.py', 'classical_models/potts/num_categories_sweep.py',
    'classical_models/potts/shape_sweep.py', 'ebm/rbm/sampler_sweep.py')]
CO_RELS = ['co/maxclique/rb_sampler_sweep.py', 'co/maxclique/twitter_sampler_sweep.py',
           'co/maxcut/ba_sampler_sweep.py', 'co/maxcut/er_sampler_sweep.py',
           'co/maxcut/optsicom_sampler_sweep.py', 'co/mis/er_800_015_penalty.py',
           'co/mis/er_density_penalty.py', 'co/mis/er_density_sampler_sweep.py',
           'co/mis/ertest_sampler_sweep.py', 'co/mis/satlib_sampler_sweep.py',
           'co/normcut/gap_rand_sampler_sweep.py', 'co/normcut/vgg.py']
LINE_RELS = [r for r in CO_RELS if 'normcut' not in r]
LM_RELS = ['ebm/lm/base_bert_sampler_sweep.py', 'ebm/lm/large_bert_sampler_sweep.py']


def cases(tier, seed):
  out = []
  reps = 1 if tier == 'quick' else 6
  def add(name, fn, cost=1, devices=1, **args):
    out.append(dict(name=name, fn=fn, args=args, cost=cost, devices=devices))
  for r in range(reps):
    s = seed * 100 + r
    for rel in ESS_RELS:
      tag = rel[:-3].replace('/', '.')
      add(f'ess.{tag}.{s}', 'ess_bars', rel=rel, seed=s, vary=bool(r % 2), cost=2)
      if tier != 'quick' or 'bernoulli' in rel or 'ising' in rel:
        add(f'ess-vary.{tag}.{s}', 'ess_bars', rel=rel, seed=s, vary=True, cost=2)
      if tier != 'quick' or 'potts' in rel or 'fhmm' in rel:
        add(f'ess-unfinished.{tag}.{s}', 'ess_bars', rel=rel, seed=s, vary=False,
            incomplete=True, cost=2)
    for rel in CO_RELS:
      tag = rel[:-3].replace('/', '.')
      add(f'co.{tag}.{s}', 'co_table', rel=rel, seed=s, vary=bool(s % 2))
    for i, rel in enumerate(LINE_RELS):
      tag = rel[:-3].replace('/', '.')
      pts = [1, 2, 49, 98, 103, 10, 107, 161, 100, 7][(i + s) % 10]
      add(f'time.{tag}.{s}', 'co_lines', rel=rel, seed=s, vary=bool((s + i) % 2), points=max(2, pts), cost=2)
    for rel in LM_RELS:
      add(f'lm.{os.path.basename(rel)[:-3]}.{s}', 'lm_table', rel=rel, seed=s)
    for k in range(2):
      add(f'ais.{s}.{k}', 'ais_lines', seed=s * 2 + k)
      add(f'normcut.{s}.{k}', 'normcut_table', seed=s * 2 + k)
    for i, (rel, v, inc) in enumerate([('small', 0, 0), ('bigger', 1, 0), ('small', 0, 1)]):
      add(f'ising.{rel}.{s}.{i}', 'ising_lines', seed=s, vary=bool(v), incomplete=bool(inc),
          rel=f'classical_models/ising/lamdasweep_{rel}.py', cost=2)
    add(f'bernoulli-errors.{s}', 'bernoulli_errors', seed=s)
    add(f'estimation-error.{s}', 'estimation_error', seed=s)
    add(f'saver-error-plot.{s}', 'saver_error_plot', seed=s)
    for dv in (1, 4):
      add(f'pictures.{s}.{dv}', 'pictures', seed=s, devices=dv)
    add(f'sample-images.{s}', 'sample_images', seed=s)
  return out
