"""Step hooks around every file-visible operation, in both execution modes.

The hook is called before each step; a scenario uses it to inject a crash or an
I/O error, or to run another writer at that point.
"""
from __future__ import annotations
import builtins
import io
import os
import shutil
import types

import pyarrow.fs as rfs

from symx import fakeio

# Directory under which plain os/builtin operations are steps too.
SCRATCH = [None]
_IN_HOOK = [False]


class Torn(BaseException):
  """Raised by a hook to ask for a half-finished write before its exception."""

  def __init__(self, exc):
    super().__init__()
    self.exc = exc


def step(kind, path):
  if fakeio.STEP_HOOK[0] is None or _IN_HOOK[0]:
    return
  _IN_HOOK[0] = True
  try:
    fakeio.STEP_HOOK[0](kind, path)
  finally:
    _IN_HOOK[0] = False


fakeio.step = lambda kind, path, fh=None: _plain_step(kind, path)


def _plain_step(kind, path):
  try:
    step(kind, path)
  except Torn as t:
    raise t.exc from None


class StepOut:
  """Output stream whose writes can be torn."""

  def __init__(self, raw, path):
    self._raw, self._path = raw, path

  def write(self, data):
    try:
      step("write", self._path)
    except Torn as t:
      half = data if isinstance(data, (str, bytes)) else bytes(data)
      self._raw.write(half[:len(half) // 2])
      self._raw.flush()
      raise t.exc from None
    return self._raw.write(data)

  def close(self):
    return self._raw.close()

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self._raw.close()
    return False

  def __iter__(self):
    return iter(self._raw)

  def __getattr__(self, n):
    return getattr(self._raw, n)


rfs_Local = rfs.LocalFileSystem


class StepFS(rfs_Local):
  """LocalFileSystem with step hooks."""

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    self._raw = rfs_Local(*a, **k)

  def create_dir(self, path, **k):
    _plain_step("create_dir", path)
    return self._raw.create_dir(path, **k)

  def open_output_stream(self, path, *a, **k):
    _plain_step("open_output", path)
    return StepOut(self._raw.open_output_stream(path, *a, **k), path)

  def open_append_stream(self, path, *a, **k):
    _plain_step("open_output", path)
    return StepOut(self._raw.open_append_stream(path, *a, **k), path)

  def open_input_file(self, path):
    _plain_step("read", path)
    return self._raw.open_input_file(path)

  def open_input_stream(self, path, *a, **k):
    _plain_step("read", path)
    return self._raw.open_input_stream(path, *a, **k)

  def move(self, a, b):
    _plain_step("move", b)
    return self._raw.move(a, b)

  def copy_file(self, a, b):
    _plain_step("copy", b)
    return self._raw.copy_file(a, b)

  def delete_file(self, p):
    _plain_step("delete", p)
    return self._raw.delete_file(p)

  def delete_dir(self, p):
    _plain_step("delete", p)
    return self._raw.delete_dir(p)


def make_fs_module():
  m = types.ModuleType("pyarrow.fs")
  m.LocalFileSystem = StepFS
  m.__getattr__ = lambda name: getattr(rfs, name)
  return m


def _under(path):
  try:
    p = os.fspath(path)
  except TypeError:
    return False
  return (SCRATCH[0] is not None and isinstance(p, str) and
          os.path.abspath(p).startswith(SCRATCH[0]))


def patch_os():
  """Make plain os operations below the scratch directory steps too."""

  def wrap(mod, name, argi, kind):
    orig = getattr(mod, name)

    def f(*a, **k):
      if fakeio.STEP_HOOK[0] is not None and len(a) > argi and _under(a[argi]):
        _plain_step(kind, a[argi])
      return orig(*a, **k)

    setattr(mod, name, f)

  wrap(os, "replace", 1, "move")
  wrap(os, "rename", 1, "move")
  wrap(os, "remove", 0, "delete")
  wrap(os, "unlink", 0, "delete")
  wrap(os, "link", 1, "move")
  wrap(os, "symlink", 1, "move")
  wrap(os, "mkdir", 0, "create_dir")
  wrap(os, "makedirs", 0, "create_dir")
  wrap(os, "rmdir", 0, "delete")
  wrap(shutil, "move", 1, "move")
  wrap(shutil, "rmtree", 0, "delete")


  orig_open = builtins.open

  def open_(file, mode="r", *a, **k):
    if (fakeio.STEP_HOOK[0] is None or _IN_HOOK[0] or
        not set(mode) & set("wax+") or not _under(file)):
      return orig_open(file, mode, *a, **k)
    _plain_step("open_output", file)
    return StepOut(orig_open(file, mode, *a, **k), file)

  builtins.open = io.open = open_


def step_writers_concrete(pq, ar):
  """Step hooks on the real data file writers."""
  real_pw, real_aw = pq.ParquetWriter, ar.ArrayRecordWriter

  class ParquetWriter(real_pw):

    def __init__(self, where, *a, **k):
      if isinstance(where, str):
        _plain_step("parquet_open", where)
      self._step_path = where
      super().__init__(where, *a, **k)

    def write_table(self, *a, **k):
      _plain_step("parquet_write", self._step_path)
      super().write_table(*a, **k)

    def close(self):
      if self.is_open:
        _plain_step("parquet_close", self._step_path)
      super().close()

    def __del__(self):
      pass

  class ArrayRecordWriter:

    def __init__(self, path, *a, **k):
      _plain_step("record_open", path)
      self._p = path
      self._w = real_aw(path, *a, **k)

    def write(self, *a):
      _plain_step("record_write", self._p)
      return self._w.write(*a)

    def close(self):
      if self._w.is_open():
        _plain_step("record_close", self._p)
      return self._w.close()

    def __getattr__(self, n):
      return getattr(self._w, n)

  pq.ParquetWriter = ParquetWriter
  ar.ArrayRecordWriter = ArrayRecordWriter
