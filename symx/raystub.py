"""A sequential stand-in for the parts of Ray 2.9 the code under test uses.

Ray itself is not installed; this stub is the environment in both execution
modes (symbolic and concrete).  Remote tasks and actor calls run at the call;
their exception is raised by ray.get, as Ray does.
"""
from __future__ import annotations
import copy
import functools
import importlib.machinery
import sys
import types

import numpy as np


class StubUnmodelled(BaseException):
  """The code uses a part of Ray that the stand-in does not have."""


def missing(name):
  raise StubUnmodelled(f"ray: {name} is not modelled")


class Strict:
  """Attributes that are not modelled give no verdict, not an error."""

  def __getattr__(self, name):
    if name.startswith("_"):
      raise AttributeError(name)
    return missing(f"{type(self).__name__}.{name}")


class _MissingMeta(type):

  def __getattr__(cls, name):
    if name.startswith("_"):
      raise AttributeError(name)
    return _missing_type(f"{cls.__name__}.{name}")


def _missing_type(name):

  def new(cls, *_, **__):
    return missing(cls.__name__)

  return _MissingMeta(name, (), {"__new__": new})


class StubModule(types.ModuleType):

  def __getattr__(self, name):
    if name.startswith("_"):
      raise AttributeError(name)
    return _missing_type(f"{self.__name__}.{name}")


class _Finder:
  """Modules of Ray that are not modelled can be imported, not used."""

  def find_spec(self, name, path=None, target=None):
    if name.split(".")[0] != "ray":
      return None
    return importlib.machinery.ModuleSpec(name, self, is_package=True)

  def create_module(self, spec):
    return StubModule(spec.name)

  def exec_module(self, module):
    pass


class ObjectRef(Strict):

  def __init__(self, value=None, exc=None):
    self._value, self._exc = value, exc

  def get(self):
    if self._exc is not None:
      raise self._exc
    return self._value

  def __class_getitem__(cls, _):
    return cls


def _resolve(a):
  return a.get() if isinstance(a, ObjectRef) else a


def _isolate(a):
  """Arguments are copied to the worker: messages are not shared."""
  if hasattr(a, "CopyFrom") and hasattr(a, "SerializeToString"):
    b = type(a)()
    b.CopyFrom(a)
    return b
  return a


def _call(fn, a, k):
  try:
    return ObjectRef(
        fn(*[_isolate(_resolve(x)) for x in a],
           **{n: _isolate(_resolve(x)) for n, x in k.items()}))
  except Exception as e:  # pylint: disable=broad-except
    return ObjectRef(exc=e)


class RemoteFn(Strict):

  def __init__(self, fn):
    self._fn = fn
    functools.update_wrapper(self, fn)

  def options(self, num_returns=1, **_):
    # More than one result needs another stand-in.
    assert num_returns == 1, f"num_returns={num_returns} is not modelled"
    return self

  def remote(self, *a, **k):
    return _call(self._fn, a, k)


class _Method(Strict):

  def __init__(self, obj, exc, name):
    self._obj, self._exc, self._name = obj, exc, name

  def options(self, num_returns=1, **_):
    # More than one result needs another stand-in.
    assert num_returns == 1, f"num_returns={num_returns} is not modelled"
    return self

  def remote(self, *a, **k):
    if self._exc is not None:
      return ObjectRef(exc=self._exc)
    return _call(getattr(self._obj, self._name), a, k)


class Actor:

  def __init__(self, cls, a, k):
    self._obj, self._exc = None, None
    r = _call(cls, a, k)
    try:
      self._obj = r.get()
    except Exception as e:  # pylint: disable=broad-except
      self._exc = e

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    return _Method(self._obj, self._exc, name)


class RemoteCls(Strict):

  def __init__(self, cls):
    self._cls = cls
    self.__name__ = cls.__name__

  def options(self, num_returns=1, **_):
    # More than one result needs another stand-in.
    assert num_returns == 1, f"num_returns={num_returns} is not modelled"
    return self

  def remote(self, *a, **k):
    return Actor(self._cls, a, k)


def remote(*a, **_):
  if len(a) == 1 and callable(a[0]):
    return RemoteCls(a[0]) if isinstance(a[0], type) else RemoteFn(a[0])
  return remote


def get(refs, **_):
  if isinstance(refs, (list, tuple)):
    return [_resolve(r) for r in refs]
  return _resolve(refs)


def wait(refs, num_returns=1, **_):
  return list(refs[:num_returns]), list(refs[num_returns:])


# -- data ----------------------------------------------------------------------
class BlockMetadata:

  def __init__(self, num_rows=None, size_bytes=None, schema=None,
               input_files=None, exec_stats=None, **_):
    self.num_rows, self.size_bytes, self.schema = num_rows, size_bytes, schema
    self.input_files, self.exec_stats = input_files, exec_stats


class ReadTask:

  def __init__(self, read_fn, metadata):
    self._read_fn = read_fn
    self._metadata = metadata

  def get_metadata(self):
    return self._metadata

  def __call__(self):
    yield from self._read_fn()


class Datasource:

  def create_reader(self, **k):
    raise NotImplementedError

  def get_name(self):
    return type(self).__name__


class Reader:

  def estimate_inmemory_data_size(self):
    return None

  def get_read_tasks(self, parallelism):
    raise NotImplementedError


def _pa():
  return sys.modules["pyarrow"]


def _concat(tables):
  tables = list(tables)
  if len(tables) == 1:
    return tables[0]
  return _pa().concat_tables(tables)


def _np_col(col):
  vals = col.to_pylist()
  if any(v is None for v in vals) or any(
      isinstance(v, (dict, list)) for v in vals):
    out = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
      out[i] = v
    return out
  a = col.combine_chunks() if hasattr(col, "combine_chunks") else col
  return a.to_numpy(zero_copy_only=False)


def _to_block(batch, like):
  pa = _pa()
  if isinstance(batch, pa.Table):
    return batch
  names = list(batch)
  arrays = []
  for n in names:
    v = batch[n]
    v = v.tolist() if isinstance(v, np.ndarray) else list(v)
    t = like.schema.field(n).type if like is not None and \
        n in like.schema.names else None
    if any(x is None for x in v) and t is not None:
      arrays.append(pa.array(v, t))
    else:
      arrays.append(pa.array(v))
  return pa.Table.from_arrays(arrays, names)


class Dataset(Strict):

  def __init__(self, thunks, counts=None):
    self._thunks = thunks  # each returns a list of tables (one block each)
    self._counts = counts

  def _blocks(self):
    for t in self._thunks:
      yield from t()

  def _then(self, fn):

    def make(t):
      return lambda: [fn(b) for b in t()]

    return Dataset([make(t) for t in self._thunks])

  def materialize(self):
    blocks = list(self._blocks())
    return Dataset([lambda b=b: [b] for b in blocks])

  def count(self):
    if self._counts is not None and all(c is not None for c in self._counts):
      return sum(self._counts)
    return sum(b.num_rows for b in self._blocks())

  def repartition(self, num_blocks, **_):

    def run():
      blocks = [b for b in self._blocks()]
      if not blocks:
        return []
      t = _concat(blocks)
      n, k = t.num_rows, max(int(num_blocks), 1)
      return [
          t.slice(n * i // k, n * (i + 1) // k - n * i // k) for i in range(k)
      ]

    return Dataset([run])

  def select_columns(self, cols, **_):
    cols = list(cols)
    return self._then(lambda b: b.select(cols))

  def drop_columns(self, cols, **_):
    return self._then(lambda b: b.drop(list(cols)))

  def map_batches(self, fn, *, batch_size="default", batch_format="default",
                  **_):
    size = 1024 if batch_size == "default" else batch_size

    def apply(b):
      out = []
      n = b.num_rows
      step = n if size is None else size
      for a in range(0, n, max(step, 1)):
        part = b.slice(a, min(step, n - a))
        if batch_format == "pyarrow":
          arg = part
        elif batch_format in ("default", "numpy"):
          arg = {c: _np_col(part.column(c)) for c in part.column_names}
        else:
          missing(f"batch_format {batch_format}")
        out.append(_to_block(fn(arg), part))
      return out

    def make(t):

      def run():
        res = [x for b in t() for x in apply(b)]
        return [_concat(res)] if res else []

      return run

    return Dataset([make(t) for t in self._thunks])

  def filter(self, fn, **_):

    def apply(b):
      rows = b.to_pylist()
      return b.filter([bool(fn(r)) for r in rows]) if rows else b

    return self._then(apply)

  def map(self, fn, **_):
    return self._then(
        lambda b: _pa().Table.from_pylist([fn(r) for r in b.to_pylist()]))

  def union(self, *others):
    return Dataset(self._thunks + [t for o in others for t in o._thunks])

  def limit(self, n):

    def run():
      t = _concat(list(self._blocks()))
      return [t.slice(0, n)]

    return Dataset([run])

  def iter_batches(self, *, batch_size=256, batch_format="default",
                   drop_last=False, **_):
    for b in self._blocks():
      if batch_size is None:
        yield self._fmt(b, batch_format)
      else:
        for x in b.to_batches(batch_size):
          yield self._fmt(_pa().table(x), batch_format)

  def _fmt(self, b, fmt):
    if fmt == "pyarrow":
      return b
    return {c: _np_col(b.column(c)) for c in b.column_names}

  def iter_rows(self, **_):
    for b in self._blocks():
      yield from b.to_pylist()

  def take_all(self, *_):
    return list(self.iter_rows())

  def take(self, n=20):
    return self.take_all()[:n]

  def to_arrow_refs(self):
    return [ObjectRef(b) for b in self._blocks()]

  def num_blocks(self):
    return len(list(self._blocks()))

  def schema(self):
    for b in self._blocks():
      return b.schema
    return None


def read_datasource(datasource, *, parallelism=-1, **read_args):
  read_args.pop("ray_remote_args", None)
  reader = datasource.create_reader(**read_args)
  tasks = reader.get_read_tasks(parallelism)

  def make(t):

    def run():
      tables = list(t())
      return [_concat(tables)] if tables else []

    return run

  return Dataset([make(t) for t in tasks],
                 [t.get_metadata().num_rows for t in tasks])


def from_arrow_refs(refs):
  if isinstance(refs, ObjectRef):
    refs = [refs]
  tables = get(list(refs))
  for t in tables:
    if isinstance(t, Dataset) or not hasattr(t, "num_rows"):
      raise TypeError(f"Not a block type: {t} ({type(t)})")
  return Dataset([lambda t=t: [t] for t in tables],
                 [t.num_rows for t in tables])


def from_arrow(tables):
  if not isinstance(tables, list):
    tables = [tables]
  return from_arrow_refs([ObjectRef(t) for t in tables])


def install():
  """Put the stub in sys.modules."""
  ray = StubModule("ray")
  ray.__path__ = []
  ray.__version__ = "2.9.1"
  ray.remote, ray.get, ray.wait = remote, get, wait
  ray.put = ObjectRef
  ray.init = lambda *a, **k: None
  ray.is_initialized = lambda: True
  ray.shutdown = lambda *a, **k: None
  ray.ObjectRef = ObjectRef
  data = StubModule("ray.data")
  data.__path__ = []
  data.Dataset = Dataset
  data.read_datasource = read_datasource
  data.from_arrow_refs = from_arrow_refs
  data.from_arrow = from_arrow
  block = StubModule("ray.data.block")
  block.Block = object
  block.BlockMetadata = BlockMetadata
  dsp = StubModule("ray.data.datasource")
  dsp.__path__ = []
  ds = StubModule("ray.data.datasource.datasource")
  for o in (Datasource, Reader, ReadTask):
    setattr(ds, o.__name__, o)
    setattr(dsp, o.__name__, o)
  ds.WriteResult = dsp.WriteResult = object
  rtypes = StubModule("ray.types")
  rtypes.ObjectRef = ObjectRef
  ray.data, ray.types = data, rtypes
  data.block, data.datasource, dsp.datasource = block, dsp, ds
  data.Datasource = Datasource
  for m in (ray, data, block, dsp, ds, rtypes):
    sys.modules[m.__name__] = m
  sys.meta_path.append(_Finder())


_ = copy
