"""Faults and interleavings injected before a symbolic step."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from symx import fakeio, stepfs


class Crash(BaseException):
  """The process dies here."""


class Injected(OSError):
  """An I/O error."""


class Fault:
  """Fires once, before step number `at` of the steps that can change files.

  kind: crash (nothing runs afterwards), torn (a write stops half way, then
  as crash), error (an OSError is raised), call (fn is called, then the step
  goes on).
  """

  WRITES = ("create_dir", "open_output", "write", "move", "copy", "delete",
            "parquet_open", "parquet_write", "parquet_close", "record_open",
            "record_write", "record_close")

  def __init__(self, w, kind, at, fn=None, reads=False, where=None):
    self.w, self.kind, self.at, self.fn = w, kind, at, fn
    self.reads, self.where = reads, where
    self.n = 0
    self.fired = None
    self.dead = False

  def __call__(self, kind, path):
    if self.dead:
      raise Crash()
    if kind not in self.WRITES and not self.reads:
      return
    if self.where is not None and not self.where(kind, path):
      return
    i = self.n
    self.n += 1
    if self.fired is not None or not bool(self.at == i):
      return
    self.fired = (kind, os.path.basename(str(path)))
    if self.kind == "call":
      self.fn()
    elif self.kind == "crash":
      self.dead = True
      raise Crash()
    elif self.kind == "torn":
      self.dead = True
      raise stepfs.Torn(Crash())
    else:
      raise Injected("injected")

  def __enter__(self):
    fakeio.STEP_HOOK[0] = self
    return self

  def __exit__(self, *a):
    fakeio.STEP_HOOK[0] = None
    return False
