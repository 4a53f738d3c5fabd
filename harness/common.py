"""Shared parts of the scenarios: datasets, filters, reference semantics."""
from __future__ import annotations
import os

import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
import pyarrow.parquet as pq

from symx import logic as L
from symx import engine as E

from space import Dataset
from space.core.jobs import JobResult
from space.core.options import (ArrayRecordOptions, FileOptions,
                                ParquetWriterOptions, ReadOptions)
from space.core.utils import errors

OK = JobResult.State.SUCCEEDED
SKIPPED = JobResult.State.SKIPPED
FAILED = JobResult.State.FAILED


def options(row_group=None, file=None, record=None) -> FileOptions:
  """File options; 0 closes a row group / file after every written table."""
  p, r = ParquetWriterOptions(), ArrayRecordOptions()
  if row_group is not None:
    p.max_uncompressed_row_group_bytes = row_group
  if file is not None:
    p.max_uncompressed_file_bytes = file
  if record is not None:
    r.max_uncompressed_file_bytes = record
  return FileOptions(p, r)


LAYOUTS = {
    "one": options(),
    "groups": options(row_group=0, file=1 << 40),
    "files": options(row_group=0, file=0),
}

TYPES = {
    "int": pa.int64(),
    "int32": pa.int32(),
    "float": pa.float64(),
    "float32": pa.float32(),
    "str": pa.string(),
    "bin": pa.binary(),
    "bool": pa.bool_(),
}


class Spec:
  """A table shape: fields as (name, kind), primary keys, record fields."""

  def __init__(self, fields, pks, records=(), schema=None):
    self.fields = list(fields)
    self.pks = list(pks)
    self.records = list(records)
    self.schema = schema or pa.schema([(n, TYPES[k]) for n, k in self.fields])
    self.names = [n for n, _ in self.fields]
    # Reads return index fields first.
    self.read_order = [n for n in self.names if n not in self.records] + [
        n for n in self.names if n in self.records
    ]

  def create(self, location):
    return Dataset.create(location, self.schema, self.pks, self.records)

  def table(self, rows, cols=None):
    names = cols or self.names
    return pa.Table.from_pydict({n: [r[n] for r in rows] for n in names},
                                schema=pa.schema(
                                    [self.schema.field(n) for n in names]))


# int key, int value, and a concrete row identity.
KV = Spec([("k", "int"), ("v", "int"), ("rid", "int")], ["k"])


# Values at the edges of each type.
ODD = {
    "int": [-2**63, -2**53 - 1, -1, 0, 2**31, 2**53, 2**53 + 1, 2**63 - 1],
    "int32": [-2**31, -1, 0, 1, 2**31 - 1],
    "float": [float("-inf"), -1e308, -5e-324, -0.0, 0.1, 1e22, float("inf")],
    "float32": [float("-inf"), -2.0**100, 0.0, 2.0**-140, 2.0**24, 2.0**127],
    "str": ["", " ", "'", '"', "A", "a", "a b", "a/b", "aa", "\u00e9", "\u4e2d",
            "\U0001f600", "\x00", "\\", "%41", "None", "1"],
    "bin": [b"", b"\x00", b"\x00\x00", b"'", b"a", b"a\xff", b"\x80", b"\xff"],
}


def cell(w, name, kind, lo=None, hi=None):
  if kind == "int":
    return w.int(name, *( (lo, hi) if lo is not None else ()))
  if kind == "int32":
    return w.int(name, *( (lo, hi) if lo is not None else ()))
  if kind in ("float", "float32"):
    return w.real(name)
  if kind == "str":
    return w.str_(name)
  if kind == "bin":
    return w.bytes(name)
  if kind == "bool":
    return w.bool(name)
  raise AssertionError(kind)


class Rows:
  """Makes rows with symbolic cells and a concrete unique rid."""

  def __init__(self, w, spec, fixed=(), nullable=(), lo=None, hi=None):
    self.w, self.spec = w, spec
    self.n = 0
    self.fixed = dict(fixed)
    self.nullable = set(nullable)
    self.lo, self.hi = lo, hi

  def one(self, **given):
    i = self.n
    self.n += 1
    r = {}
    for name, kind in self.spec.fields:
      if name in given:
        r[name] = given[name]
      elif name == "rid":
        r[name] = 100 + i
      elif name in self.fixed:
        r[name] = self.fixed[name](i)
      else:
        v = cell(self.w, f"{name}{i}", kind, self.lo, self.hi)
        r[name] = self.w.null_or(f"{name}{i}",
                                 v) if name in self.nullable else v
    return r

  def many(self, n, **given):
    return [self.one(**given) for _ in range(n)]


def ok(w, result, what, states=(OK,)):
  """The job must have ended in one of the states."""
  w.check(result.state in states, f"{what}: state {result.state.name}"
          f" {result.error_message if hasattr(result, 'error_message') else ''}",
          f"{what}: bad state")
  return result


def rows_of(t):
  return [] if t is None else t.to_pylist()


def typed(ds, t):
  """A read returns the types of the schema."""
  for f in t.schema if t is not None else ():
    want = ds.schema.field(f.name).type
    plain = (pa.types.is_primitive(want) or pa.types.is_string(want) or
             pa.types.is_binary(want))
    if plain and want != f.type and not pa.types.is_struct(f.type):
      raise AssertionError(
          f"field {f.name} of type {want} is read as {f.type}")
  return t


def read_rows(ds, **k):
  return rows_of(typed(ds, ds.local().read_all(**k)))


def by_rid(rows):
  return sorted(rows, key=lambda r: r["rid"])


def cells_equal(a, b, names):
  return L.And([L.Eq(a[n], b[n]) for n in names])


def same(w, got, want, what, names=None, sig=None):
  """got and want hold the same rows (matched by rid), same cells."""
  g, x = by_rid(got), by_rid(want)
  gi, xi = [r["rid"] for r in g], [r["rid"] for r in x]
  w.check(gi == xi, f"{what}: rows {gi}, expected {xi}", sig or
          f"{what}: wrong rows")
  if gi != xi:
    return False
  names = names or (list(x[0]) if x else [])
  for r in g:
    w.check(set(names) <= set(r), f"{what}: columns {sorted(r)}",
            sig or f"{what}: wrong columns")
  w.check(L.And([cells_equal(a, b, names) for a, b in zip(g, x)]),
          f"{what}: wrong cell values", sig or f"{what}: wrong values")
  return True


def multiset_eq(a, b, names):
  """Symbolic equality of two bags of rows without row identity."""
  if len(a) != len(b):
    return False

  def count(r, rows):
    n = 0
    for s in rows:
      n = n + E.ite(cells_equal(r, s, names), 1, 0)
    return n

  return L.And([L.Eq(count(r, a), count(r, b)) for r in a])


# -- filters -------------------------------------------------------------------
class Cond:
  """A filter with its reference meaning in three-valued logic."""

  def __and__(self, o):
    return Bin("and", self, o)

  def __or__(self, o):
    return Bin("or", self, o)

  def __invert__(self):
    return Neg(self)


OPS = {
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
}


class Fld:

  def __init__(self, name):
    self.name = name


class Cmp(Cond):
  """field or constant, operator, field or constant."""

  def __init__(self, a, op, b):
    self.a, self.op, self.b = a, op, b

  def expr(self):
    g = lambda x: pc.field(x.name) if isinstance(x, Fld) else pc.scalar(x)
    if not isinstance(self.a, Fld):
      # Keep the constant on the left.
      fn = {"==": "equal", "!=": "not_equal", "<": "less", "<=": "less_equal",
            ">": "greater", ">=": "greater_equal"}[self.op]
      return getattr(pc, fn)(g(self.a), g(self.b))
    return OPS[self.op](g(self.a), g(self.b))

  def tf(self, row):
    g = lambda x: row[x.name] if isinstance(x, Fld) else x
    a, b = g(self.a), g(self.b)
    if a is None or b is None:
      return False, False
    t = OPS[self.op](a, b)
    return t, L.Not(t)


class Bin(Cond):

  def __init__(self, op, a, b):
    self.op, self.a, self.b = op, a, b

  def expr(self):
    a, b = self.a.expr(), self.b.expr()
    return a & b if self.op == "and" else a | b

  def tf(self, row):
    (at, af), (bt, bf) = self.a.tf(row), self.b.tf(row)
    if self.op == "and":
      return L.And(at, bt), L.Or(af, bf)
    return L.Or(at, bt), L.And(af, bf)


class Neg(Cond):

  def __init__(self, a):
    self.a = a

  def expr(self):
    return ~self.a.expr()

  def tf(self, row):
    t, f = self.a.tf(row)
    return f, t


class IsNull(Cond):

  def __init__(self, name):
    self.name = name

  def expr(self):
    return pc.field(self.name).is_null()

  def tf(self, row):
    return row[self.name] is None, row[self.name] is not None


class IsIn(Cond):

  def __init__(self, name, values):
    self.name, self.values = name, values

  def expr(self):
    return pc.field(self.name).isin(self.values)

  def tf(self, row):
    t = L.Or([L.Eq(row[self.name], v) for v in self.values])
    return t, L.Not(t)


def split(rows, cond):
  """(matching, others) under the reference meaning, decided on this path."""
  yes, no = [], []
  for r in rows:
    (yes if bool(cond.tf(r)[0]) else no).append(r)
  return yes, no


# -- input forms ----------------------------------------------------------------
FORMS = ["chunks", "empty chunk", "slice", "reordered", "dict"]


def formed(w, spec, rows, form, cut=None):
  """The rows as one input in another form."""
  n = len(rows)
  if form == "chunks":
    cut = w.choose("cut", list(range(1, n))) if cut is None else cut
    return pa.concat_tables([spec.table(rows[:cut]), spec.table(rows[cut:])])
  if form == "empty chunk":
    return pa.concat_tables([spec.table([]), spec.table(rows[:1]),
                             spec.table([]), spec.table(rows[1:])])
  if form == "slice":
    # The rows around it must not be stored.
    t = spec.table([rows[-1]] + rows + [rows[0]])
    return t.slice(1, n)
  if form == "reordered":
    return spec.table(rows).select(list(reversed(spec.names)))
  if form == "dict":
    return {name: [r[name] for r in rows] for name in spec.names}
  raise AssertionError(form)


# -- layout ---------------------------------------------------------------------
def append_chunks(w, ds, spec, chunks, layout="one", what="append"):
  """One append transaction writing the given chunks of rows."""
  tables = [spec.table(c) for c in chunks]
  r = ds.local(LAYOUTS[layout] if isinstance(layout, str) else
               layout).append_from(lambda: iter(tables))
  ok(w, r, what)
  return r


def reopen(ds):
  return Dataset.load(ds.storage.location)
