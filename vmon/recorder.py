"""What a monitored workload observed, and what it found."""
import hashlib
import json
import os
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


class StopCase(Exception):
  """Raised by a monitor to end a case early once it has enough failures."""


class Violation(Exception):
  """Raised by shared monitoring code that has no recorder at hand."""

  def __init__(self, kind, message):
    super().__init__(message)
    self.kind = kind


class Recorder:
  """Collects events, distinct observations, samples and failures of a case."""

  MAX_FAILURES = 3

  def __init__(self):
    self.events = 0
    self.keys = set()
    self.samples = []
    self.failures = []
    self.counters = {}
    self.inconclusive = []

  def event(self, n=1, name=None):
    self.events += int(n)
    if name is not None:
      self.counters[name] = self.counters.get(name, 0) + int(n)

  def seen(self, *key):
    """Registers a distinct non-trivial observation."""
    s = json.dumps([str(k) for k in key])
    self.keys.add(hashlib.sha1(s.encode()).hexdigest()[:14])

  def sample(self, **kw):
    if len(self.samples) < 2:
      self.samples.append({k: _plain(v) for k, v in kw.items()})

  def fail(self, kind, message, **detail):
    self.failures.append(dict(
        kind=kind, message=str(message)[:2000],
        detail={k: _plain(v) for k, v in detail.items()}))
    if len(self.failures) >= self.MAX_FAILURES:
      raise StopCase()

  def check(self, ok, kind, message, **detail):
    self.event(1)
    if not ok:
      self.fail(kind, message, **detail)
    return ok

  def doubt(self, message):
    """The monitor could not decide (not enough observed)."""
    self.inconclusive.append(str(message))

  def result(self):
    return dict(events=self.events, keys=sorted(self.keys),
                samples=self.samples, failures=self.failures,
                counters=self.counters, inconclusive=self.inconclusive)


def _plain(v):
  import numpy as np
  if isinstance(v, (str, int, float, bool)) or v is None:
    return v
  if isinstance(v, dict):
    return {str(k): _plain(x) for k, x in v.items()}
  if isinstance(v, (list, tuple)):
    return [_plain(x) for x in list(v)[:64]]
  try:
    a = np.asarray(v)
    if a.size <= 64:
      return a.tolist()
    return 'array%s starting %s' % (a.shape, a.reshape(-1)[:16].tolist())
  except Exception:  # pylint: disable=broad-except
    return repr(v)[:200]


def exception_in_repo(exc):
  """True if the exception passed through a frame of the code under test."""
  root = os.path.realpath(os.path.join(REPO, 'discs')) + os.sep
  seen = set()
  while exc is not None and id(exc) not in seen:
    seen.add(id(exc))
    for frame in traceback.extract_tb(exc.__traceback__):
      if os.path.realpath(frame.filename).startswith(root):
        return True
    exc = exc.__cause__ or exc.__context__
  return False
