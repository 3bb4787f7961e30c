"""Mutation campaign: which small changes of the code do the checks notice?

python tools/mutate.py list  FILES...            count of mutants per file
python tools/mutate.py run OUT.jsonl N SEED FILES...   N random mutants of the
    files, each in a scratch copy of /repo, against the checks whose properties
    name the file (cheapest first) until one reports a violation.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
REPO = os.environ.get('VERIF_REPO', '/repo')
COST = dict(C01=42, C02=120, C03=86, C04=61, C05=28, C06=82, C07=70, C08=44,
            C09=18, C10=18, C11=21, C12=32, C13=17, C14=9, C15=51, C16=51,
            C17=58, C18=12, C19=49, C20=42, C21=12, C22=14, C23=32, C24=76,
            C25=80, C26=15)
EXTRA = {'discs/common/utils.py': ['C14', 'C15', 'C16', 'C18', 'C19', 'C20', 'C22', 'C26'],
         'discs/common/math_util.py': ['C13', 'C02', 'C08', 'C05'],
         'discs/models/abstractmodel.py': ['C11', 'C25'],
         'discs/plot_results/plot_utils.py': ['C21']}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '=='}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '+', ast.Mod: '//', ast.MatMult: None, ast.Pow: '*'}
CALLS = dict(sum='mean', mean='sum', max='min', min='max', argmax='argmin',
             minimum='maximum', maximum='minimum', exp='square', log='abs',
             ceil='floor', floor='ceil', round='floor', zeros='ones',
             ones='zeros', zeros_like='ones_like', ones_like='zeros_like',
             sqrt='abs', relu='abs', sigmoid='tanh', log_softmax='softmax',
             softmax='sigmoid', any='all', all='any', sorted='list',
             categorical='categorical', logsumexp='max', append='insert_none',
             clip=None, softplus='relu', concatenate=None)


def spans(src):
  off = [0]
  for line in src.splitlines(True):
    off.append(off[-1] + len(line.encode()))
  return off


def mutants(path):
  src = open(path).read()
  data = src.encode()
  off = spans(src)
  tree = ast.parse(src)
  pos = lambda n: (off[n.lineno - 1] + n.col_offset,
                   off[n.end_lineno - 1] + n.end_col_offset)
  text = lambda n: data[pos(n)[0]:pos(n)[1]].decode()
  out = []

  def put(n, new, what):
    if new is not None and new != text(n):
      a, b = pos(n)
      out.append((n.lineno, a, b, new, what))

  skip = set()
  for n in ast.walk(tree):
    if isinstance(n, ast.Call):
      f = n.func
      name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
      base = ast.unparse(f)
      if name in ('print', 'info', 'set_trace', 'DEFINE_string',
                  'DEFINE_integer', 'DEFINE_bool', 'DEFINE_config_file',
                  'UsageError', 'ValueError', 'tight_layout', 'figure',
                  'subplots', 'set_fontsize', 'set_size_inches', 'grid',
                  'rcParams', 'subplots_adjust'):
        for m in ast.walk(n):
          skip.add(id(m))
      del base
    if isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert, ast.Raise)):
      for m in ast.walk(n):
        skip.add(id(m))
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
      for m in ast.walk(n):
        skip.add(id(m))
    if isinstance(n, ast.If) and ast.unparse(n.test).startswith('__name__'):
      for m in ast.walk(n):
        skip.add(id(m))
  names = {}
  for n in ast.walk(tree):
    if isinstance(n, ast.FunctionDef):
      for a in ast.walk(n):
        if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Tuple):
          ids = [t.id for t in a.targets[0].elts if isinstance(t, ast.Name)]
          for i in range(len(ids) - 1):
            names[ids[i]] = ids[i + 1]
          if len(ids) > 1:
            names[ids[-1]] = ids[0]
  for n in ast.walk(tree):
    if id(n) in skip:
      continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      op = CMP.get(type(n.ops[0]))
      if op:
        put(n, '%s %s %s' % (text(n.left), op, text(n.comparators[0])), 'cmp')
    elif isinstance(n, ast.BinOp):
      op = BIN.get(type(n.op))
      if op:
        put(n, '(%s %s %s)' % (text(n.left), op, text(n.right)), 'bin')
      put(n, '(%s)' % text(n.left), 'left')
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
      put(n, '(%s)' % text(n.operand), 'unary')
    elif isinstance(n, ast.Constant) and n.value is not None:
      v = n.value
      if isinstance(v, bool):
        put(n, str(not v), 'bool')
      elif isinstance(v, int):
        put(n, str(v + 1), 'int')
        if v == 1:
          put(n, '0', 'int')
      elif isinstance(v, float):
        put(n, repr(v * 1.5 + (0.1 if v == 0 else 0)), 'float')
    elif isinstance(n, ast.Call):
      f = n.func
      name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
      new = CALLS.get(name)
      if new and isinstance(f, ast.Attribute):
        put(f, text(f.value) + '.' + new, 'call')
      if name == 'where' and len(n.args) == 3:
        put(n, '%s(%s, %s, %s)' % (text(f), text(n.args[0]), text(n.args[2]),
                                   text(n.args[1])), 'swap')
      elif len(n.args) == 1 and not n.keywords and name in (
          'abs', 'expand_dims', 'log', 'exp', 'round', 'log_softmax', 'clip'):
        put(n, '(%s)' % text(n.args[0]), 'drop')
      if name == 'clip' and n.args:
        put(n, '(%s)' % text(n.args[0]), 'drop')
    elif isinstance(n, ast.If):
      put(n.test, 'not (%s)' % text(n.test), 'negate')
    elif isinstance(n, ast.IfExp):
      put(n, '(%s if %s else %s)' % (text(n.orelse), text(n.test),
                                     text(n.body)), 'swap')
    elif isinstance(n, ast.AugAssign):
      op = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/='}.get(type(n.op))
      if op:
        put(n, '%s %s %s' % (text(n.target), op, text(n.value)), 'aug')
      put(n, 'pass', 'delete')
    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
      t = n.targets[0]
      if isinstance(t, (ast.Subscript, ast.Attribute)) or (
          isinstance(t, ast.Name) and t.id in [
              m.id for m in ast.walk(n.value) if isinstance(m, ast.Name)]):
        put(n, 'pass', 'delete')
    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
        n.id in names:
      put(n, names[n.id], 'name')
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
      put(n, 'pass', 'delete')
  good = []
  for m in out:
    new = data[:m[1]] + m[3].encode() + data[m[2]:]
    try:
      ast.parse(new.decode())
    except (SyntaxError, ValueError):
      continue
    good.append(m)
  return data, good


def checks_of(rel):
  import props
  ids = [p['id'] for p in props.PROPS if rel in p['files']]
  ids += [c for c in EXTRA.get(rel, []) if c not in ids]
  return sorted(set(ids), key=lambda c: COST.get(c, 60))


def main():
  if sys.argv[1] == 'list':
    for f in sys.argv[2:]:
      print(f, len(mutants(os.path.join(REPO, f))[1]), checks_of(f))
    return
  out, count, seed, files = (sys.argv[2], int(sys.argv[3]), int(sys.argv[4]),
                             sys.argv[5:])
  jobs = os.environ.get('JOBS', '4')
  limit = int(os.environ.get('MAXCHECKS', '9'))
  rng = random.Random(seed)
  pool = []
  for f in files:
    data, ms = mutants(os.path.join(REPO, f))
    rng.shuffle(ms)
    pool += [(f, data) + m for m in ms[:count]]
  work = tempfile.mkdtemp(dir='/tmp', prefix='mut-')
  tree = os.path.join(work, 'repo')
  subprocess.run(['git', 'clone', '-q', REPO, tree], check=True)
  done = set()
  if os.path.exists(out):
    for l in open(out):
      d = json.loads(l)
      done.add((d['file'], d['line'], d['new'], d['old']))
  for f, data, line, a, b, new, what in pool:
    old = data[a:b].decode()
    if (f, line, new, old) in done:
      continue
    path = os.path.join(tree, f)
    open(path, 'wb').write(data[:a] + new.encode() + data[b:])
    caught = None
    notes = []
    for c in checks_of(f)[:limit]:
      p = subprocess.run(['/opt/venv/bin/python', '-m', 'vmon.run', c, '--jobs', jobs],
                         cwd=HERE, env=dict(os.environ, VERIF_REPO=tree),
                         capture_output=True, text=True)
      notes.append('%s:%d' % (c, p.returncode))
      if p.returncode == 1:
        caught = c
        kind = [l for l in p.stdout.splitlines() if l.startswith('  ')][:1]
        notes += kind
        break
    open(path, 'wb').write(data)
    with open(out, 'a') as h:
      h.write(json.dumps(dict(file=f, line=line, what=what, old=old, new=new,
                              caught=caught, notes=notes)) + '\n')
  shutil.rmtree(work)


if __name__ == '__main__':
  main()
