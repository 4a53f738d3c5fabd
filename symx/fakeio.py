"""Models of the storage libraries: Parquet, ArrayRecord, Substrait export.

Files are real files in the scenario's scratch directory, holding a token that
names the modelled content; operating-system operations on them (rename, copy,
delete, glob) therefore work unchanged.
"""
from __future__ import annotations
import os
import types
from typing import Any, Dict, List

import pyarrow as rpa
import pyarrow.compute as rpc
import pyarrow.parquet as rpq
import pyarrow.substrait as rps
import numpy as np

from symx import fakepa as F
from symx import logic
from symx.engine import PathLimit, Sym, SymStr, Unmodelled, concretize, cur, ite

_open = open  # the data writers below have step hooks of their own

T = rpa.types

# Content of the files of the current path: token -> data.
FILES: Dict[str, Any] = {}
# Hooks called before each file-visible step (crash injection, op schedules).
STEP_HOOK = [None]


def step(kind, path, fh=None):
  if STEP_HOOK[0] is not None:
    STEP_HOOK[0](kind, path)


def reset_files():
  FILES.clear()


def _token(kind, data) -> bytes:
  tok = f"\u00a7{kind}:{len(FILES):08d}"
  FILES[tok] = data
  return tok.encode()


def _load(path, kind):
  with open(path, "rb") as f:
    raw = f.read()
  try:
    tok = raw.decode()
  except UnicodeDecodeError:
    tok = ""
  if tok.startswith(f"\u00a7{kind}:"):
    return FILES[tok]
  return None


# -- Parquet -------------------------------------------------------------------
_ROUNDTRIP: Dict[bytes, rpa.Schema] = {}
_COUNT_SCHEMA: Dict[bytes, Any] = {}


def _roundtrip(schema: rpa.Schema):
  """What reading back a Parquet file written with this schema yields."""
  key = schema.serialize().to_pybytes()
  if key not in _ROUNDTRIP:
    sink = rpa.BufferOutputStream()
    w = rpq.ParquetWriter(sink, schema)
    w.close()
    buf = sink.getvalue()
    _ROUNDTRIP[key] = rpq.read_table(rpa.BufferReader(buf)).schema
    md = rpq.ParquetFile(rpa.BufferReader(buf))
    _COUNT_SCHEMA[key] = md.metadata.schema
  return _ROUNDTRIP[key], _COUNT_SCHEMA[key]


class PFile:
  """A Parquet file: schema as written, schema as read, row groups."""

  def __init__(self, schema, groups, stats=True):
    self.schema = schema
    self.stats = stats
    self.read_schema, self.pq_schema = _roundtrip(schema)
    self.groups: List[F.FTable] = groups
    self.meta = FileMetaData(self)

  def table(self):
    groups = [g for g in self.groups if g.num_rows > 0]
    cols = []
    for i, f in enumerate(self.read_schema):
      chunks = []
      for g in groups:
        chunks.append(F.FArray.make(f.type, [
            _restruct(v, f.type) for v in g.columns[i].values]))
      if not chunks:
        chunks = [F.FArray.make(f.type, [])]
      cols.append(F.FChunked(f.type, chunks))
    return F.FTable(self.read_schema, cols)


def _restruct(v, t):
  return v


def _leaves(field, values, out):
  """Depth-first leaf columns: (type, flat leaf values)."""
  t = F.storage_type(field.type)
  if T.is_struct(t):
    for i in range(t.num_fields):
      sf = t.field(i)
      _leaves(sf, [None if v is None else v[sf.name] for v in values], out)
  elif T.is_list(t) or T.is_large_list(t):
    flat = []
    for v in values:
      if v is None or len(v) == 0:
        flat.append(None)
      else:
        flat.extend(v)
    _leaves(t.value_field, flat, out)
  else:
    out.append((t, values))


class Statistics:

  LONGEST = 4096

  def __init__(self, t, values):
    ok = [v for v in values if v is not None and
          not (isinstance(v, float) and v != v)]
    self.null_count = sum(v is None for v in values)
    self.num_values = len(values) - self.null_count
    self.has_null_count = True
    self.has_distinct_count = False
    self.distinct_count = None
    self.has_min_max = bool(ok)
    self.min = self.max = None
    if ok:
      # Known values first keeps the terms small.
      ok.sort(key=lambda v: isinstance(v, Sym))
      lo = hi = ok[0]
      for v in ok[1:]:
        lo = ite(v < lo, v, lo)
        hi = ite(v > hi, v, hi)
      # Bounds of over 4096 bytes are not stored; one alone is read as empty.
      gone = [self._long(lo), self._long(hi)]
      if all(gone):
        self.has_min_max = False
      else:
        self.min = type(lo)() if gone[0] else lo
        self.max = type(hi)() if gone[1] else hi
    self.min_raw, self.max_raw = self.min, self.max


  def _long(self, v):
    if isinstance(v, str):
      v = v.encode()
    return isinstance(v, bytes) and len(v) > self.LONGEST


class ColumnMeta:

  def __init__(self, name, t, values, rg, ci, nrows, stats=True):
    self.path_in_schema = name
    self.num_values = len(values)
    stats = bool(nrows) and (stats if isinstance(stats, bool) else
                             name.split(".")[0] in stats)
    self.statistics = Statistics(t, values) if stats else None
    self.is_stats_set = stats
    # Distinct, concrete stand-ins for the encoded sizes.
    self.total_compressed_size = 40 + 7 * len(values) + 13 * ci + 101 * rg
    self.total_uncompressed_size = 61 + 11 * len(values) + 17 * ci + 103 * rg
    self.physical_type = None
    self.file_path = ""


class RowGroupMeta:

  def __init__(self, pf, gi):
    g = pf.groups[gi]
    self.num_rows = g.num_rows
    leaves = []
    for f, c in zip(g.schema, g.columns):
      _leaves(f, c.values, leaves)
    self._cols = [
        ColumnMeta(pf.pq_schema.column(i).path, t, v, gi, i, g.num_rows,
                   pf.stats)
        for i, (t, v) in enumerate(leaves)
    ]
    self.num_columns = len(self._cols)
    self.total_byte_size = sum(c.total_uncompressed_size for c in self._cols)

  def column(self, i):
    i = int(i)
    if i < 0 or i >= len(self._cols):
      raise IndexError(f"{i} out of bounds")
    return self._cols[i]


class FileMetaData:

  def __init__(self, pf):
    self._pf = pf
    self._rgs = [RowGroupMeta(pf, i) for i in range(len(pf.groups))]
    self.num_rows = sum(g.num_rows for g in pf.groups)
    self.num_row_groups = len(self._rgs)
    self.num_columns = len(pf.pq_schema)
    self.schema = pf.pq_schema
    self.metadata = None
    self.created_by = "model"
    self.format_version = "2.6"
    self.serialized_size = 100

  def row_group(self, i):
    i = int(i)
    if i < 0 or i >= len(self._rgs):
      raise IndexError(f"{i} out of bounds")
    return self._rgs[i]


class _Raw:
  """ParquetWriter.writer"""

  def __init__(self, owner):
    self._o = owner

  @property
  def metadata(self):
    if self._o._pf is None:
      raise RuntimeError("file metadata is only available after writer close")
    return self._o._pf.meta


class ParquetWriter:

  def __init__(self, where, schema, filesystem=None, write_statistics=True,
               **_):
    self._stats = write_statistics
    self.where = os.fspath(where) if not hasattr(where, "write") else where
    if not isinstance(self.where, str):
      raise Unmodelled("ParquetWriter on a stream")
    self.schema = schema
    step("parquet_open", self.where)
    try:
      self._fh = _open(self.where, "wb")
    except FileNotFoundError as e:
      raise FileNotFoundError(2, f"Failed to open local file '{self.where}'"
                              ) from e
    self.is_open = True
    self._groups: List[F.FTable] = []
    self._pf = None
    self.writer = _Raw(self)
    self.file_handle = None

  def write_table(self, table, row_group_size=None):
    if not self.is_open:
      raise AssertionError
    if isinstance(table, rpa.Table):
      table = F.from_real(table)
    if not self.schema.equals(table.schema, check_metadata=False):
      raise ValueError(
          "Table schema does not match schema used to create file: \n"
          f"table:\n{table.schema!s} vs. \nfile:\n{self.schema!s}")
    step("parquet_write", self.where)
    self._fh.write(b"PAR1")
    n = table.num_rows
    size = n if row_group_size is None else int(row_group_size)
    size = max(1, min(size if size > 0 else max(n, 1), 1 << 20))
    if n == 0:
      self._groups.append(table)
    for a in range(0, n, size):
      self._groups.append(table.slice(a, size))

  def write(self, table_or_batch, row_group_size=None):
    if isinstance(table_or_batch, F.FRecordBatch):
      self.write_batch(table_or_batch, row_group_size)
    else:
      self.write_table(table_or_batch, row_group_size)

  def write_batch(self, batch, row_group_size=None):
    self.write_table(F.FTable.from_batches([batch], batch.schema),
                     row_group_size)

  def close(self):
    if not self.is_open:
      return
    step("parquet_close", self.where)
    self._pf = PFile(self.schema, self._groups, self._stats)
    self._fh.seek(0)
    self._fh.truncate()
    self._fh.write(_token("pq", self._pf))
    self._fh.close()
    self.is_open = False

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()
    return False

  def __del__(self):
    fh = getattr(self, "_fh", None)
    if fh is not None and not fh.closed:
      fh.close()


def _open_pq(path) -> PFile:
  if not isinstance(path, (str, os.PathLike)):
    raise Unmodelled("Parquet read from a stream")
  path = os.fspath(path)
  if os.path.isdir(path):
    raise Unmodelled("Parquet read of a directory")
  if not os.path.exists(path):
    raise FileNotFoundError(2, f"Failed to open local file '{path}'")
  pf = _load(path, "pq")
  if pf is None:
    # A real Parquet file, or a torn one.
    t = rpq.read_table(path)
    return PFile(t.schema, [F.from_real(t)])
  return pf


def _dnf(filters):
  """[(col, op, val)] or [[...]] to an expression."""
  if filters and isinstance(filters[0][0], str):
    filters = [filters]
  ops = {
      "=": lambda a, b: a == b, "==": lambda a, b: a == b,
      "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
      "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
      ">=": lambda a, b: a >= b, "in": lambda a, b: a.isin(list(b)),
      "not in": lambda a, b: ~a.isin(list(b)),
  }
  out = None
  for conj in filters:
    e = None
    for col, op, val in conj:
      c = ops[op](F.FExpr("field", (col,)), val)
      e = c if e is None else e & c
    out = e if out is None else out | e
  return out


def _scan(pf: PFile, columns, filters):
  t = pf.table()
  if filters is not None:
    if isinstance(filters, (list, tuple)):
      filters = _dnf(filters)
    if not isinstance(filters, F.FExpr):
      raise TypeError(f"unsupported filter {type(filters)}")
    check_expr(filters, pf.read_schema)
    t = t.filter(filters)
  if columns is not None:
    columns = list(columns)
    for c in columns:
      if c not in pf.read_schema.names:
        raise rpa.ArrowInvalid(f"No match for FieldRef.Name({c}) in "
                               f"{pf.read_schema}")
    t = t.select(columns)
  return t


def check_expr(e, schema):
  """Name and type resolution errors of an expression over a schema."""
  if e.op == "field":
    if e.args[0] not in schema.names:
      raise rpa.ArrowInvalid(
          f"No match for FieldRef.Name({e.args[0]}) in {schema}")
    return
  for a in e.args:
    if isinstance(a, F.FExpr):
      check_expr(a, schema)


def read_table(source, *, columns=None, use_threads=True, schema=None,
               filters=None, **_):
  if isinstance(source, (list, tuple)):
    return ParquetDataset(list(source), filters=filters).read(columns)
  return _scan(_open_pq(source), columns, filters)


class ParquetDataset:

  def __init__(self, path_or_paths, filesystem=None, *, filters=None, **_):
    if isinstance(path_or_paths, (str, os.PathLike)):
      path_or_paths = [path_or_paths]
    self._paths = list(path_or_paths)
    self._filters = filters
    self._pfs = [_open_pq(p) for p in self._paths]

  @property
  def files(self):
    return self._paths

  @property
  def schema(self):
    return self._pfs[0].read_schema if self._pfs else rpa.schema([])

  def read(self, columns=None, **_):
    if not self._pfs:
      if isinstance(self._filters, F.FExpr):
        check_expr(self._filters, rpa.schema([]))
      return F.FTable(rpa.schema([]), [])
    ts = [_scan(pf, columns, self._filters) for pf in self._pfs]
    return F.concat_tables(ts)


def read_metadata(where, **_):
  return _open_pq(where).meta


def read_schema(where, **_):
  return _open_pq(where).read_schema


class ParquetFile:

  def __init__(self, source, **_):
    self._pf = _open_pq(source)
    self.metadata = self._pf.meta
    self.schema_arrow = self._pf.read_schema
    self.num_row_groups = len(self._pf.groups)

  @property
  def schema(self):
    return self._pf.pq_schema

  def read(self, columns=None, **_):
    return _scan(self._pf, columns, None)

  def read_row_group(self, i, columns=None, **_):
    g = PFile(self._pf.schema, [self._pf.groups[i]])
    return _scan(g, columns, None)

  def read_row_groups(self, idx, columns=None, **_):
    g = PFile(self._pf.schema, [self._pf.groups[i] for i in idx])
    return _scan(g, columns, None)

  def iter_batches(self, batch_size=65536, row_groups=None, columns=None, **_):
    t = self.read(columns)
    yield from t.combine_chunks().to_batches(batch_size)

  def close(self, *_):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *_):
    return False


def write_table(table, where, row_group_size=None, **_):
  w = ParquetWriter(where, table.schema)
  w.write_table(table, row_group_size)
  w.close()


def make_pq_module():
  m = types.ModuleType("pyarrow.parquet")
  for o in (ParquetWriter, read_table, ParquetDataset, read_metadata,
            read_schema, ParquetFile, write_table, FileMetaData, Statistics):
    setattr(m, o.__name__, o)
  m.RowGroupMetaData = RowGroupMeta
  m.ColumnChunkMetaData = ColumnMeta
  m.__getattr__ = lambda name: getattr(rpq, name)
  return m


# -- Substrait -----------------------------------------------------------------
def _cost(e, depth=0):
  """Arrow encodes every argument of a call twice, so levels double the cost."""
  if not isinstance(e, F.FExpr) or e.op in ("lit", "field"):
    return 1 << depth
  return sum(_cost(a, depth + 1) for a in e.args)


def serialize_expressions(exprs, names, schema, **k):
  if sum(_cost(e) for e in exprs) > 1 << 21:
    raise PathLimit("conversion of a deep expression to Substrait")
  real = [F.expr_to_real(e) if isinstance(e, F.FExpr) else e for e in exprs]
  return rps.serialize_expressions(real, names, schema, **k)


def make_ps_module():
  m = types.ModuleType("pyarrow.substrait")
  m.serialize_expressions = serialize_expressions
  m.__getattr__ = lambda name: getattr(rps, name)
  return m


# -- ArrayRecord ---------------------------------------------------------------
class ArrayRecordWriter:

  def __init__(self, path, options="", file_writer_buffer_size=0, **_):
    if not isinstance(path, str):
      raise TypeError("path must be a string")
    self._path = path
    self._options = options
    step("record_open", path)
    try:
      self._fh = _open(path, "wb")
    except OSError as e:
      raise RuntimeError(f"NOT_FOUND: {e}") from e
    self._values: List[Any] = []

  def ok(self):
    return True

  def is_open(self):
    return not self._fh.closed

  def write(self, record):
    if isinstance(record, SymStr):
      if record.kind != "bytes":
        raise TypeError("write(): incompatible function arguments")
    elif not isinstance(record, bytes):
      raise TypeError("write(): incompatible function arguments")
    if self._fh.closed:
      raise RuntimeError("FAILED_PRECONDITION: writer is closed")
    step("record_write", self._path)
    self._values.append(record)

  def close(self):
    if self._fh.closed:
      return
    step("record_close", self._path)
    self._fh.write(_token("ar", (list(self._values), self._options)))
    self._fh.close()

  def __del__(self):
    fh = getattr(self, "_fh", None)
    if fh is not None and not fh.closed:
      fh.close()


class ArrayRecordReader:

  def __init__(self, path, options="", file_reader_buffer_size=0, **_):
    d = None
    if os.path.exists(path):
      d = _load(path, "ar")
    if d is None:
      raise RuntimeError(f"NOT_FOUND or corrupted ArrayRecord file: {path}")
    self._values, self._wopts = d
    self._pos = 0
    self._open = True

  def ok(self):
    return True

  def is_open(self):
    return self._open

  def close(self):
    self._open = False

  def num_records(self):
    return len(self._values)

  def record_index(self):
    return self._pos

  def writer_options_string(self):
    given = dict(
        o.split(":", 1) for o in str(self._wopts).split(",") if ":" in o)
    return (f"group_size:{given.get('group_size', 1)},transpose:false,"
            "pad_to_block_boundary:false,zstd:3,window_log:20,"
            "max_parallelism:1")

  def seek(self, i):
    self._pos = int(i)

  def _one(self, i):
    i = int(i)
    if i < 0 or i >= len(self._values):
      raise RuntimeError(f"OUT_OF_RANGE: Invalid index: {i}")
    return self._values[i]

  def read(self, *a):
    if not a:
      v = self._one(self._pos)
      self._pos += 1
      return v
    if len(a) == 2:
      lo, hi = int(a[0]), int(a[1])
      if lo < 0 or hi > len(self._values) or lo >= hi:
        raise RuntimeError(f"OUT_OF_RANGE: Invalid range [{lo}, {hi})")
      return [self._one(i) for i in range(lo, hi)]
    return [self._one(i) for i in a[0]]

  def read_all(self):
    return list(self._values)


def make_ar_module():
  m = types.ModuleType("array_record.python.array_record_module")
  m.ArrayRecordReader = ArrayRecordReader
  m.ArrayRecordWriter = ArrayRecordWriter
  return m


# -- compute -------------------------------------------------------------------
_BIN = {
    "equal": "eq", "not_equal": "ne", "less": "lt", "less_equal": "le",
    "greater": "gt", "greater_equal": "ge", "add": "add", "subtract": "sub",
    "multiply": "mul", "and_kleene": "and", "or_kleene": "or",

}


def _is_arr(x):
  return isinstance(x, (F.FArray, F.FChunked))


def _elementwise(op, a, b=None, unary=False):
  """Apply an expression operator to arrays and scalars."""
  arrs = [x for x in (a, b) if _is_arr(x)]
  n = len(arrs[0]) if arrs else None

  def get(x, i):
    return x.values[i] if _is_arr(x) else F.unwrap(x)

  out = []
  for i in range(n if n is not None else 1):
    args = [F.FExpr("lit", (get(a, i),))]
    if not unary:
      args.append(F.FExpr("lit", (get(b, i),)))
    out.append(F.FExpr(op, tuple(args)).eval({}))
  if op in ("add", "sub", "mul"):
    t = arrs[0].type if arrs else F.infer(out)
  else:
    t = rpa.bool_()
  if n is None:
    return F.FScalar(out[0], t)
  r = F.FArray.make(t, out)
  if any(isinstance(x, F.FChunked) for x in arrs):
    r = F.FChunked(t, [r])
  return r


def make_pc_module():
  m = types.ModuleType("pyarrow.compute")
  m.Expression = F.FExpr

  def field(*names):
    if len(names) == 1 and isinstance(names[0], tuple):
      names = names[0]
    if not names or not all(isinstance(n, str) for n in names):
      if len(names) == 1 and isinstance(names[0], int):
        raise Unmodelled("pc.field by index")
      raise TypeError("field reference should be str, multiple str or tuple")
    return F.FExpr("field", tuple(names))

  def scalar(v):
    if isinstance(v, (list, dict)):
      raise Unmodelled("compound literal")
    return F.FExpr.lit(v)

  m.field, m.scalar = field, scalar

  def binop(name, op):
    def f(x, y, **_):
      if isinstance(x, F.FExpr) or isinstance(y, F.FExpr):
        return F.FExpr(op, (F.FExpr.lit(x), F.FExpr.lit(y)))
      return _elementwise(op, x, y)
    f.__name__ = name
    return f

  for name, op in _BIN.items():
    setattr(m, name, binop(name, op))

  def strict(name, op):
    def f(x, y, **_):
      if isinstance(x, F.FExpr) or isinstance(y, F.FExpr):
        # As Arrow does: the function is registered under another name.
        return F.FExpr("no_function", (F.FExpr.lit(x), F.FExpr.lit(y)), name)
      r = _elementwise(op, x, y)
      nulls = [_elementwise("is_null", o, unary=True) for o in (x, y)]
      if isinstance(r, F.FScalar):
        return F.FScalar(None, r.type) if any(n.value for n in nulls) else r
      cells = [[n.value] * len(r) if isinstance(n, F.FScalar) else n.values
               for n in nulls]
      out = F.FArray.make(r.type, [
          None if a or b else v for a, b, v in zip(*cells, r.values)])
      return F.FChunked(r.type, [out]) if isinstance(r, F.FChunked) else out
    f.__name__ = name
    return f

  m.and_, m.or_ = strict("and_", "and"), strict("or_", "or")

  def unop(name, op):
    def f(x, **k):
      if isinstance(x, F.FExpr):
        return F.FExpr(op, (x,))
      return _elementwise(op, x, unary=True)
    f.__name__ = name
    return f

  for name, op in (("invert", "not"), ("is_null", "is_null"),
                   ("is_valid", "is_valid"), ("is_nan", "is_nan")):
    setattr(m, name, unop(name, op))

  def is_in(x, value_set=None, **k):
    vals = value_set.to_pylist() if hasattr(value_set, "to_pylist") else list(
        value_set)
    if isinstance(x, F.FExpr):
      return x.isin(vals)
    out = [logic.Or([logic.Eq(v, y) for y in vals]) for v in x.values]
    return F.FArray.make(rpa.bool_(), out)

  m.is_in = is_in

  for name in ("min", "max", "sum", "any", "all", "count", "count_distinct"):

    def agg(x, _n=name, **k):
      if isinstance(x, F.FChunked):
        x = x.combine_chunks()
      elif not isinstance(x, F.FArray):
        x = F.array(x)
      return F._agg(_n, x, **k)

    agg.__name__ = name
    setattr(m, name, agg)

  def min_max(x, **k):
    x = x.combine_chunks()
    lo, hi = F._agg("min", x), F._agg("max", x)
    return F.FScalar({"min": lo.value, "max": hi.value},
                     rpa.struct([("min", x.type), ("max", x.type)]))

  m.min_max = min_max

  def filter_(x, mask, **k):
    return x.filter(mask)

  m.filter = filter_

  def take(x, idx, **k):
    return x.take(idx)

  m.take = take

  def if_else(c, a, b):
    n = len(c)
    g = lambda v, i: v.values[i] if _is_arr(v) else F.unwrap(v)
    out = []
    for i, cv in enumerate(c.values):
      out.append(None if cv is None else (g(a, i) if bool(cv) else g(b, i)))
    t = a.type if hasattr(a, "type") else b.type if hasattr(
        b, "type") else F.infer(out)
    return F.FArray.make(t, out)

  m.if_else = if_else

  def fill_null(x, v):
    return x.fill_null(v)

  m.fill_null = fill_null

  def struct_field(x, indices):
    if isinstance(x, F.FExpr):
      raise Unmodelled("struct_field on expression")
    return x.field(indices if not isinstance(indices, (list, tuple))
                   else indices[0])

  m.struct_field = struct_field
  cache = {}

  def fallback(name):
    o = getattr(rpc, name)
    if isinstance(o, type) or not callable(o):
      return o
    if name not in cache:
      cache[name] = F.delegate(o, f"pc.{name}")
    return cache[name]

  m.__getattr__ = fallback
  return m


# -- pyarrow -------------------------------------------------------------------
def make_pa_module(fs_module):
  m = types.ModuleType("pyarrow")
  m.__path__ = list(rpa.__path__)
  m.__version__ = rpa.__version__
  m.Table = F.FTable
  m.RecordBatch = F.FRecordBatch
  m.ChunkedArray = F.FChunked
  m.Array = F.FArray
  m.StructArray = F.FStructArray
  m.ExtensionArray = F.FExtensionArray
  m.Scalar = F.FScalar
  m.array = F.array
  m.chunked_array = F.chunked_array
  m.table = F.table
  m.concat_tables = F.concat_tables
  m.concat_arrays = F.concat_arrays
  for name in ("StringArray", "BinaryArray", "Int64Array", "Int32Array",
               "Int16Array", "Int8Array", "FloatArray", "DoubleArray",
               "BooleanArray", "ListArray", "NumericArray", "IntegerArray",
               "UInt64Array", "LargeStringArray", "LargeBinaryArray"):
    setattr(m, name, F.FArray)

  def scalar(value, type=None, **_):  # pylint: disable=redefined-builtin
    if isinstance(type, str):
      type = rpa.type_for_alias(type)
    v = F.unwrap(value)
    if type is None:
      type = F.infer([v])
    return F.FScalar(F.coerce(v, type), type)

  m.scalar = scalar

  def record_batch(data, names=None, schema=None, metadata=None):
    if isinstance(data, dict):
      return F.FRecordBatch.from_pydict(data, schema=schema)
    return F.FRecordBatch.from_arrays(data, names=names, schema=schema)

  m.record_batch = record_batch
  m.RecordBatchReader = F.FBatchReader

  def nulls(n, type=None):  # pylint: disable=redefined-builtin
    return F.FArray.make(type or rpa.null(), [None] * n)

  m.nulls = nulls

  def repeat(v, n):
    v = F.unwrap(v)
    t = F.infer([v])
    return F.FArray.make(t, [v] * n)

  m.repeat = repeat
  m.fs = fs_module
  cache = {}

  def fallback(name):
    o = getattr(rpa, name)
    if isinstance(o, (type, types.ModuleType)) or not callable(o):
      return o
    if name in _PLAIN:
      return o
    if name not in cache:
      cache[name] = F.delegate(o, f"pa.{name}")
    return cache[name]

  m.__getattr__ = fallback
  return m


_PLAIN = {
    n for n in dir(rpa)
    if callable(getattr(rpa, n)) and not n[0].isupper() and n not in (
        "concat_batches", "compress", "decompress")
}
