"""Worker process: reads cases (one JSON per line), writes results."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def main():
  out = os.fdopen(os.dup(1), 'w')
  devnull = os.open(os.devnull, os.O_WRONLY)
  os.dup2(devnull, 1)           # whatever the code under test prints
  sys.stdout = os.fdopen(1, 'w', closefd=False)
  if not os.environ.get('VMON_DEBUG'):
    os.dup2(devnull, 2)
  warnings.filterwarnings('ignore')
  from vmon import recorder
  sys.path.insert(0, recorder.REPO)
  os.chdir(os.environ['VMON_SCRATCH'])
  import logging
  logging.disable(logging.WARNING)
  for line in sys.stdin:
    msg = json.loads(line)
    rec = recorder.Recorder()
    t0 = time.time()
    error = None
    try:
      mod = importlib.import_module('checks.' + msg['module'])
      if msg['case'].get('devices', 1) > 1:
        import jax
        if jax.local_device_count() != msg['case']['devices']:
          raise RuntimeError('%d devices' % jax.local_device_count())
      getattr(mod, msg['case']['fn'])(rec, **msg['case'].get('args', {}))
    except recorder.StopCase:
      pass
    except recorder.Violation as e:
      try:
        rec.fail(e.kind, str(e))
      except recorder.StopCase:
        pass
    except MemoryError:
      error = 'MemoryError'
    except BaseException as e:  # pylint: disable=broad-except
      tb = ''.join(traceback.format_exception(e))[-3000:]
      if recorder.exception_in_repo(e):
        try:
          rec.fail('exception', '%s: %s' % (type(e).__name__, e), traceback=tb)
        except recorder.StopCase:
          pass
      else:
        error = tb
    try:
      import jax
      jax.clear_caches()
    except Exception:  # pylint: disable=broad-except
      pass
    res = rec.result()
    res['error'] = error
    res['wall'] = time.time() - t0
    out.write(json.dumps(res, default=str) + '\n')
    out.flush()


if __name__ == '__main__':
  main()
