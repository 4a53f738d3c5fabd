"""C36: input columns are taken by name; other input is refused as a whole."""
from harness.rayh import *  # pylint: disable=wildcard-import,unused-wildcard-import

import itertools

BOUNDS = (
    "append, append_from, insert and upsert (local and Ray) of 1 to 2 rows with"
    " symbolic cells given as table, table of several chunks or dict, for every"
    " order of 3 or 4 columns, with extra columns, with one column missing, of"
    " the wrong type or of the wrong length, in the first or a later batch;"
    " Parquet files with reordered columns; with and without record fields,"
    " one or two primary keys")
BUDGET = {"quick": 120, "thorough": 600}
ASSUMPTIONS = RAY_ASSUMPTIONS
S1 = Spec([("k", "int"), ("v", "int"), ("rid", "int")], ["k"])
S2 = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
          ["r"])
S3 = Spec([("v", "int"), ("k", "int"), ("j", "int"), ("rid", "int")],
          ["k", "j"])
SPECS = [S1, S2, S3]


def run_op(w, h, op, chunks, fn=None):
  r = h.runner()
  if op == "append_from":
    return r.append_from(lambda: iter(chunks))
  if op == "sources":
    return r.append_from([(lambda c=c: iter([c])) for c in chunks])
  return getattr(r, op)(chunks[0])


def start(w, **k):
  spec = w.choose("spec", SPECS)
  lay = ["one", options(0, 0, 0)] if w.tier == "thorough" else [
      options(0, 0, 0) if spec is S2 else "one"]
  h = RayHist(w, spec, layout=w.choose("layout", lay),
              distinct=True, fixed={"r": lambda i: b"r%d" % i}, lo=-20, hi=20)
  h.append(1)
  h.local = w.choose("runner", ["local", "ray"]) == "local"
  return spec, h


def given(spec, rows, names, form, extra=False):
  """The rows as input, with the columns in the given order."""
  d = {n: [r[n] for r in rows] for n in names}
  schema = [(n, spec.schema.field(n).type) for n in names]
  if extra:
    d = {"extra": [7] * len(rows), **d}
    schema = [("extra", pa.int64())] + schema
  if form == "dict":
    return d
  if form == "chunks":
    return pa.concat_tables([
        pa.Table.from_pydict({n: d[n][i:i + 1] for n in d},
                             schema=pa.schema(schema))
        for i in range(len(rows))
    ])
  return pa.Table.from_pydict(d, schema=pa.schema(schema))


def order(w):
  """Any order of the columns, extra columns."""
  spec, h = start(w)
  new = h.new(2)
  names = w.choose("order", [list(x) for x in
                             itertools.permutations(spec.names)])
  form = w.choose("form", ["table", "dict", "chunks"])
  op = w.choose("op", ["append", "insert", "upsert"])
  r = run_op(w, h, op, [given(spec, new, names, form, w.flag("extra"))])
  ok(w, r, op)
  want = h.rows + new
  same(w, read_rows(h.ds), want, op)
  got = reopen(h.ds).local().read_all()
  w.check(got.column_names == spec.read_order, "columns of the read",
          "columns of the read")


def batches(w):
  """Batches with different orders of the columns."""
  spec, h = start(w)
  op = w.choose("op", ["append_from", "sources"])
  new = h.new(3)
  perms = [spec.names, spec.names[::-1], spec.names[1:] + spec.names[:1]]
  chunks = []
  for i, r in enumerate(new):
    names = w.choose(f"order{i}", perms)
    chunks.append(
        given(spec, [r], names, w.choose(f"form{i}", ["table", "dict"])
              if i < 2 else "table", i == 1))
  ok(w, run_op(w, h, op, chunks), op)
  same(w, read_rows(reopen(h.ds)), h.rows + new, op)


def wrong_table(w, spec, rows, form):
  """Input that does not fit the schema."""
  kind = w.choose("wrong", ["missing", "type", "length", "renamed"])
  col = w.choose("col", [n for n in spec.names if n != "rid"])
  d = {n: [r[n] for r in rows] for n in spec.names}
  types = {n: spec.schema.field(n).type for n in spec.names}
  if kind == "missing":
    del d[col]
  elif kind == "type":
    d[col] = [7 if types[col] == pa.binary() else b"x" for _ in rows]
    types[col] = pa.int64() if types[col] == pa.binary() else pa.binary()
  elif kind == "renamed":
    d["other"] = d.pop(col)
    types["other"] = types[col]
  elif kind == "length":
    d[col] = d[col] + d[col]
    return d
  if form == "dict":
    return d
  return pa.Table.from_pydict(d, schema=pa.schema([(n, types[n]) for n in d]))


def refused(w):
  """Nothing of an operation with input that does not fit is stored."""
  spec, h = start(w)
  op = w.choose("op", ["append", "insert", "upsert", "append_from", "sources"])
  form = w.choose("form", ["table", "dict"])
  new = h.new(2)
  bad = wrong_table(w, spec, new[1:], form)
  chunks = [bad] if op in ("append", "insert", "upsert") else [
      given(spec, new[:1], spec.names, form), bad]
  ids = sorted(h.ds.storage.snapshot_ids)
  state = None
  try:
    state = run_op(w, h, op, chunks).state
  except Exception as e:  # pylint: disable=broad-except
    w.cover(type(e).__name__)
  w.check(state in (None, FAILED), f"{op}: input of a wrong form gives {state}",
          "input of a wrong form is accepted")
  ds = reopen(h.ds)
  w.check(sorted(ds.storage.snapshot_ids) == ids, "a snapshot was created")
  same(w, read_rows(ds), h.rows, "refused input")
  more = h.new(1)
  ok(w, h.ds.local().append(spec.table(more)), "append afterwards")
  same(w, read_rows(reopen(h.ds)), h.rows + more, "append afterwards")


def dtype(w):
  """Upserted and appended rows replace the same keys in any column order."""
  spec, h = start(w)
  old = h.rows[0]
  new = h.mk.many(1, **{k: old[k] for k in spec.pks})
  names = w.choose("order", [spec.names, spec.names[::-1],
                             spec.names[1:] + spec.names[:1]])
  form = w.choose("form", ["table", "dict"])
  op = w.choose("op", ["upsert", "insert"])
  r = run_op(w, h, op, [given(spec, new, names, form, w.flag("extra"))])
  if op == "insert":
    ok(w, r, "insert of an existing key", (FAILED,))
    same(w, read_rows(reopen(h.ds)), h.rows, "insert of an existing key")
  else:
    ok(w, r, "upsert")
    same(w, read_rows(reopen(h.ds)), new, "upsert")


def external(w):
  """Parquet files with reordered columns."""
  spec = w.choose("spec", [S1, S3])
  h = Hist(w, spec, layout="files", distinct=True, lo=-20, hi=20)
  h.append(1)
  new = h.new(2)
  names = w.choose("order", [list(x) for x in
                             itertools.permutations(spec.names)])
  d = w.dir("ext")
  os.makedirs(d)
  pq.write_table(given(spec, new[:1], names, "table"),
                 os.path.join(d, "a.parquet"))
  pq.write_table(given(spec, new[1:], spec.names, "table"),
                 os.path.join(d, "b.parquet"))
  ok(w, h.ds.local().append_parquet(d + "/*.parquet"), "append_parquet")
  h.rows = h.rows + new
  same(w, read_rows(reopen(h.ds)), h.rows, "append_parquet")
  same(w, read_rows(h.ds, fields=["v", "rid"]),
       [{"v": r["v"], "rid": r["rid"]} for r in h.rows], "projection")
  c = Cmp(Fld("k"), "<", w.int("f", -20, 20))
  same(w, read_rows(h.ds, filter_=c.expr()), split(h.rows, c)[0], "filter")


SCENARIOS = [
    ("order", order),
    ("batches", batches),
    ("refused", refused),
    ("same_key", dtype),
    ("external", external),
]
