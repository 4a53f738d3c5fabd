"""C06: reading in batches or a subset of fields returns the same rows."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "up to 7 rows over up to 3 files or row groups; batch sizes 1 to 8 and the"
    " default with up to 40 rows; every subset and order of up to 5 fields;"
    " struct, list, string and record fields; with and without a filter;"
    " reads of snapshots, tags and branches")
ASSUMPTIONS = []

REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("s", "bin"),
            ("rid", "int")], ["k"], ["r", "s"])
FIX = {
    "v": lambda i: 10 * i,
    "r": lambda i: b"r%d" % i,
    "s": lambda i: b"s%d" % (5 * i)
}


def batches_of(w, ds, n, **k):
  out = []
  for t in ds.local().read(batch_size=n, **k):
    w.check(t.num_rows <= n, f"batch of {t.num_rows} rows for batch size {n}",
            "batch larger than batch_size")
    out.extend(t.to_pylist())
  return out


def ordered(w, got, want, what, names=None):
  w.check([r["rid"] for r in got] == [r["rid"] for r in want],
          f"{what}: order {[r['rid'] for r in got]}, full read"
          f" {[r['rid'] for r in want]}", what + ": rows or order")
  if len(got) == len(want):
    w.check(L.And([
        cells_equal(a, b, names or list(b)) for a, b in zip(got, want)
    ]), what + ": values")


def batch_sizes(w):
  spec = w.choose("spec", [KV, REC])
  h = Hist(w, spec, layout=w.choose("layout", ["one", "groups", "files"]),
           fixed=FIX if spec is REC else {})
  h.append(*w.choose("sizes", [(2, 1), (3, 2, 2), (1,), (4, 3)]))
  full = read_rows(h.ds)
  same(w, full, h.rows, "full read")
  ordered(w, batches_of(w, h.ds, w.choose("n", list(range(1, 9)))), full,
          "batches")


def filtered(w):
  spec = w.choose("spec", [KV, REC])
  h = Hist(w, spec, layout=w.choose("layout", ["one", "groups", "files"]),
           fixed=FIX if spec is REC else {})
  h.append(3, 1)
  f = Cmp(Fld("k"), w.choose("op", ["<", "=="]), w.int("c")).expr()
  full = read_rows(h.ds, filter_=f)
  ordered(w, batches_of(w, h.ds, w.choose("n", [1, 2, 3]), filter_=f), full,
          "filtered batches")


def after_changes(w):
  h = Hist(w, REC, layout="files", fixed=FIX)
  h.append(2, 2)
  h.ds.add_tag("t")
  before = list(h.rows)
  h.step(["delete", "upsert", "append"])
  full = read_rows(h.ds)
  same(w, full, h.rows, "full read")
  n = w.choose("n", [1, 3])
  ordered(w, batches_of(w, h.ds, n), full, "batches")
  old = read_rows(h.ds, version="t")
  same(w, old, before, "read of a tag")
  ordered(w, batches_of(w, h.ds, n, version=w.choose("v", ["t", 1])), old,
          "batches of a version")


def default_batch(w):
  """More rows than the default batch, record fields included."""
  spec = Spec([("k", "int"), ("r", "bin"), ("rid", "int")], ["k"], ["r"])
  n = w.choose("rows", [15, 16, 17, 33, 40])
  ds = spec.create(w.dir())
  rows = Rows(w, spec, fixed={
      "k": lambda i: i * 7 % 41,
      "r": lambda i: b"r%d" % i
  }).many(n)
  rows[n // 2]["k"] = w.int("k")
  append_chunks(w, ds, spec, [rows[:11], rows[11:]],
                w.choose("layout", ["one", "groups"]))
  full = read_rows(ds)
  same(w, full, rows, "full read")
  b = w.choose("n", [None, 16, 10, 100])
  if b is None:
    got = [r for t in ds.local().read() for r in t.to_pylist()]
  else:
    got = batches_of(w, ds, b)
  ordered(w, got, full, "batches")


WIDE = Spec([("s", "x"), ("a", "int"), ("r", "bin"), ("k", "str"), ("l", "x"),
             ("rid", "int")], ["k"], ["r"],
            schema=pa.schema([
                ("s", pa.struct([("x", pa.int64()), ("y", pa.string())])),
                ("a", pa.int64()), ("r", pa.binary()), ("k", pa.string()),
                ("l", pa.list_(pa.int64())), ("rid", pa.int64())
            ]))


def fields(w):
  """Any selection of fields, in any layout."""
  spec = WIDE
  h = Hist(w, spec, layout=w.choose("layout", ["one", "files"]), fixed={
      "s": lambda i: {"x": i, "y": str(i)},
      "l": lambda i: list(range(i)),
      "r": lambda i: b"r%d" % i
  }, nullable=["a"])
  h.append(1, 1)
  names = [n for n in spec.names if n != "rid" and w.flag("use_" + n)]
  if not names:
    names = ["a"]
  sel = names + ["rid"]
  if w.flag("reverse"):
    sel = sel[::-1]
  t = h.ds.local().read_all(fields=sel)
  w.check(sorted(t.column_names) == sorted(sel), "columns of the read")
  full = read_rows(h.ds)
  ordered(w, t.to_pylist(), full, "projected read", sel)


def fields_only(w):
  """Selections without any index field, or of one field."""
  spec = WIDE
  h = Hist(w, spec, layout=w.choose("layout", ["one", "groups", "files"]),
           fixed={
               "s": lambda i: {"x": i, "y": str(i)},
               "l": lambda i: list(range(i)),
               "r": lambda i: b"r%d" % i,
               "rid": lambda i: i
           })
  h.append(2, 1)
  full = read_rows(h.ds)
  f = w.choose("f", ["s", "a", "r", "k", "l"])
  n = w.choose("n", [None, 1, 2])
  got = []
  for t in h.ds.local().read(fields=[f], batch_size=n):
    w.check(t.column_names == [f], "columns of the read")
    w.check(n is None or t.num_rows <= n, "batch larger than batch_size")
    got.extend(r[f] for r in t.to_pylist())
  w.check(len(got) == len(full), "rows of a one field read")
  w.check(L.And([L.Eq(a, b[f]) for a, b in zip(got, full)]),
          "values of a one field read")
  c = w.int("c")
  flt = pc.field("a") < c
  want = read_rows(h.ds, filter_=flt)
  got = [r[f] for r in read_rows(h.ds, filter_=flt, fields=[f])]
  w.check(len(got) == len(want) and L.And(
      [L.Eq(a, b[f]) for a, b in zip(got, want)]),
          "filtered one field read")


def reference(w):
  """Reference reads give the address of each row's record."""
  h = Hist(w, REC, layout=w.choose("layout", [
      "one", "files", options(None, None, 0)]), fixed=FIX)
  h.append(2, 2)
  h.step(["append", "delete", "upsert", "none"][:3])
  sel = w.choose("fields", [None, ["r", "rid"], ["s", "k", "rid", "r"]])
  t = h.ds.local().read_all(reference_read=True, fields=sel)
  rows = rows_of(t)
  full = {r["rid"]: r for r in read_rows(h.ds)}
  w.check(sorted(r["rid"] for r in rows) == sorted(full), "rows")
  from array_record.python import array_record_module as ar
  for r in rows:
    for f in ("r", "s"):
      if f not in r:
        w.check(sel is not None and f not in sel, "field missing")
        continue
      a = r[f]
      rd = ar.ArrayRecordReader(p(h.ds.storage.location, a["_FILE"]))
      w.check(rd.read([a["_ROW_ID"]])[0] == full[r["rid"]][f],
              "record at the address")
      rd.close()
    for f in ("k", "v"):
      if f in r:
        w.check(L.Eq(r[f], full[r["rid"]][f]), "index field of the row")


def big(w):
  """Hundreds of rows; batch sizes around those of files and of the whole."""
  h = large.filled(w, layout=w.choose("layout", ["one", "files"]), per=88)
  full = read_rows(h.ds)
  same(w, full, h.rows, "full read")
  n = w.choose("n", [1, 7, 87, 88, 89, 100, 264, 1000])
  ordered(w, batches_of(w, h.ds, n), full, "batches")
  c = large.cut(w)
  ordered(w, batches_of(w, h.ds, n, filter_=pc.field("k") >= c,
                        fields=["rid", "k"]),
          [r for r in full if r["k"] >= c], "filtered batches", ["rid", "k"])


BOUNDS += large.BOUND
SCENARIOS = [
    ("batch_sizes", batch_sizes),
    ("filtered", filtered),
    ("after_changes", after_changes),
    ("default_batch", default_batch),
    ("fields", fields),
    ("fields_only", fields_only),
    ("reference", reference),
    ("big", big),
]
