"""Views and materialized views with a reference meaning on rows."""
from harness.rayh import *  # pylint: disable=wildcard-import,unused-wildcard-import

from space import MaterializedView

SRC = Spec([("k", "int"), ("v", "int"), ("rid", "int")], ["k"])
SRCR = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
            ["r"])


class Step:
  """One transform: applied to a view, and its meaning for one row."""

  def __init__(self, apply, row):
    self.apply, self.row = apply, row


def add_v(n, record=False, batch_size=None):
  """v + n on every row."""

  def fn(b):
    out = dict(b)
    out["v"] = b["v"] + n
    return out

  def apply(view):
    return view.map_batches(
        fn, output_schema=pa.schema([
            pa.field(f.name, f.type) for f in view.schema]),
        output_record_fields=["r"] if record else None, batch_size=batch_size)

  return Step(apply, lambda r: {**r, "v": r["v"] + n})


def mul_v(n, record=False):

  def fn(b):
    out = dict(b)
    out["v"] = b["v"] * n
    return out

  def apply(view):
    return view.map_batches(
        fn, output_schema=pa.schema([
            pa.field(f.name, f.type) for f in view.schema]),
        output_record_fields=["r"] if record else None)

  return Step(apply, lambda r: {**r, "v": r["v"] * n})


def project():
  """Reads two of the fields, in another order; a new column."""

  def fn(b):
    return {"rid": b["rid"], "k": b["k"], "w": b["rid"] * 2}

  def apply(view):
    return view.map_batches(
        fn, input_fields=["rid", "k"],
        output_schema=pa.schema([("rid", pa.int64()), ("w", pa.int64()),
                                 ("k", pa.int64())]))

  return Step(apply, lambda r: {"rid": r["rid"], "k": r["k"],
                                "w": r["rid"] * 2})


def carried(n):
  """Its output schema is made of fields of the input's schema, as they are."""

  def fn(b):
    return {"rid": b["rid"], "v": b["v"] + n, "k": b["k"]}

  def apply(view):
    by = {f.name: f for f in view.schema}
    return view.map_batches(
        fn, input_fields=["v", "k", "rid"],
        output_schema=pa.schema([by["rid"], by["v"], by["k"]]))

  return Step(apply, lambda r: {"rid": r["rid"], "v": r["v"] + n, "k": r["k"]})


def truthy(c, how):
  """A filter whose function returns something that is not a bool."""

  def fn(row):
    if row["v"] < c:
      return {"none": None, "zero": 0, "empty": ""}[how]
    return {"none": True, "zero": 2, "empty": "x"}[how]

  return Step(lambda view: view.filter(fn),
              lambda r: None if bool(r["v"] < c) else r)


def keep_v(op, c, fields=None):
  """Rows whose v compares to c."""
  f = OPS[op]

  def fn(row):
    return f(row["v"], c)

  def apply(view):
    return view.filter(fn, input_fields=fields and list(fields))

  def row(r):
    if not bool(f(r["v"], c)):
      return None
    return {n: r[n] for n in (fields or r)}

  return Step(apply, row)


def keep_k(op, c):
  f = OPS[op]

  def fn(row):
    return f(row["k"], c)

  return Step(lambda view: view.filter(fn),
              lambda r: r if bool(f(r["k"], c)) else None)


def build(ds, steps):
  v = ds
  for s in steps:
    v = s.apply(v)
  return v


def meaning(rows, steps):
  out = []
  for r in rows:
    for s in steps:
      r = s.row(r)
      if r is None:
        break
    if r is not None:
      out.append(r)
  return out


def ray_rows(runner, **k):
  out = []
  for t in runner.read(**k):
    out += t.to_pylist()
  return out
