"""C05: manifest statistics describe their data files."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "2 to 5 rows over up to 3 files and row groups, histories of up to 3"
    " append/delete/upsert; key types int64, int32, float64, float32, string, bytes,"
    " bool, incl. NULLs and NaN; composite keys; struct, list and record"
    " columns before the key; symbolic row group and file thresholds")
ASSUMPTIONS = ["NaN is no part of min and max"]


def lowest(w, xs):
  m = xs[0]
  for x in xs[1:]:
    m = E.ite(x < m, x, m)
  return m


def highest(w, xs):
  m = xs[0]
  for x in xs[1:]:
    m = E.ite(x > m, x, m)
  return m


def judge(w, ds, pks, rows_want=None, snapshot_id=None):
  """Every manifest entry against the file it lists."""
  total = 0
  seen = []
  for e in index_entries(ds, snapshot_id):
    data = index_file(ds, e["_FILE"]).to_pylist()
    seen.append(e["_FILE"])
    total += len(data)
    w.check(e["_NUM_ROWS"] == len(data), "recorded number of rows")
    for k in pks:
      st = e[f"_STATS_f{field_id_of(ds, k)}"]
      vals = [
          r[k] for r in data
          if r[k] is not None and not (isinstance(r[k], float) and r[k] != r[k])
      ]
      if not vals:
        w.check(st is None or (st["_MIN"] is None and st["_MAX"] is None),
                f"min and max of no values ({len(data)} rows)",
                "min and max of no values")
        continue
      if st is None or st["_MIN"] is None or st["_MAX"] is None:
        # Unknown is sound, but only NaN, long and empty keys justify it here.
        w.check(any(isinstance(r[k], float) and r[k] != r[k] for r in data) or
                any(isinstance(v, (str, bytes)) and (len(v) > 4096 or not v)
                    for v in vals),
                "min and max missing")
        continue
      if isinstance(vals[0], (bool, E.SymBool)):
        lo = L.And(vals)
        hi = L.Or(vals)
        w.check(L.Iff(st["_MIN"], lo), "recorded min")
        w.check(L.Iff(st["_MAX"], hi), "recorded max")
        continue
      w.check(L.Eq(st["_MIN"], lowest(w, vals)), "recorded min")
      w.check(L.Eq(st["_MAX"], highest(w, vals)), "recorded max")
  w.check(len(seen) == len(set(seen)), "a file is listed twice")
  if rows_want is not None:
    w.check(total == len(rows_want), "rows in listed files")
  return len(seen)


def layouts(w):
  ds = KV.create(w.dir())
  rows = Rows(w, KV, fixed={"v": lambda i: i}).many(5)
  opts = options(w.int("rg", 0, 200), w.int("fl", 0, 200))
  append_chunks(w, ds, KV, [rows[:2], rows[2:3], rows[3:]], opts)
  n = judge(w, ds, ["k"], rows)
  w.cover(f"files{min(n, 3)}")


def nulls(w):
  ds = KV.create(w.dir())
  rows = Rows(w, KV, nullable=["k"], fixed={"v": lambda i: i}).many(4)
  append_chunks(w, ds, KV, [rows[:1], rows[1:3], rows[3:]],
                w.choose("layout", ["one", "groups", "files"]))
  judge(w, ds, ["k"], rows)


def kinds(w):
  kind = w.choose("kind", [
      "int32", "float", "float32", "str", "bin", "bool"])
  spec = Spec([("v", "int"), ("k", kind), ("rid", "int")], ["k"])
  ds = spec.create(w.dir())
  rows = Rows(w, spec, fixed={"v": lambda i: i}).many(3)
  append_chunks(w, ds, spec, [rows[:2], rows[2:]],
                w.choose("layout", ["one", "groups", "files"]))
  judge(w, ds, ["k"], rows)


def nan(w):
  spec = Spec([("k", "float"), ("rid", "int")], ["k"])
  ds = spec.create(w.dir())
  mk = Rows(w, spec)
  rows = mk.many(2)
  rows.insert(w.choose("at", [0, 1, 2]), mk.one(k=float("nan")))
  append_chunks(w, ds, spec, [rows[:2], rows[2:]],
                w.choose("layout", ["one", "groups", "files"]))
  judge(w, ds, ["k"], rows)


SCHEMAS = {
    "struct": pa.struct([("x", pa.int64()), ("y", pa.int64())]),
    "list": pa.list_(pa.int64()),
    "deep": pa.struct([("a", pa.struct([("k", pa.int64())])),
                       ("b", pa.list_(pa.struct([("k", pa.int64())])))]),
    "rec": pa.binary(),
}


def columns(w):
  """Columns of several leaves before, between and after the keys."""
  kind = w.choose("kind", ["struct", "list", "deep", "rec"])
  at = w.choose("at", [0, 1, 2])
  val = {
      "struct": lambda i: {"x": 900 + i, "y": -900 - i},
      "list": lambda i: [900 + i, -900],
      "deep": lambda i: {"a": {"k": 900}, "b": [{"k": -900}]},
      "rec": lambda i: b"r%d" % i,
  }[kind]
  base = [("a", pa.int64()), ("b", pa.int64()), ("rid", pa.int64())]
  base.insert(at, ("c", SCHEMAS[kind]))
  spec = Spec([(n, "x" if n == "c" else "int") for n, _ in base],
              w.choose("pks", [["a"], ["b"], ["b", "a"]]),
              ["c"] if kind == "rec" else [], schema=pa.schema(base))
  ds = spec.create(w.dir())
  rows = Rows(w, spec, fixed={"c": val}).many(3)
  cuts = w.choose("writes", [[2], [1, 2, 3]])
  append_chunks(w, ds, spec, [rows[a:b] for a, b in zip([0] + cuts, cuts + [4])],
                w.choose("layout", ["one", "groups", "files"]))
  judge(w, ds, spec.pks, rows)


COMP = Spec([("a", "int"), ("v", "int"), ("b", "str"), ("rid", "int")],
            ["b", "a"])


def carried(w):
  """Entries carried over by deletes and upserts."""
  h = Hist(w, COMP, layout=w.choose("layout", ["groups", "files"]),
           fixed={"v": lambda i: i, "b": lambda i: "k%07d" % (50 - i)})
  h.append(2, 1)
  ops = ["delete", "append", "upsert"]
  for i in range(2):
    op = w.choose("op", ops)
    if op == "append":
      h.append(1)
    elif op == "delete":
      h.delete(Cmp(Fld("a"), w.choose("c", ["<", "=="]), w.int("d", -40, 40)))
    else:
      h.upsert(h.mk.many(1, b="k%07d" % w.choose("key", [50, 48, 7])))
  for sid in h.snaps:
    judge(w, h.ds, COMP.pks, h.snaps[sid], sid)


def carried_null(w):
  """Carried entries of files whose key is all NULL."""
  h = Hist(w, KV, layout="files", nullable=["k"], fixed={"v": lambda i: i})
  h.append(1, 1)
  h.append(1)
  h.delete(Cmp(Fld("v"), "==", w.choose("d", [0, 1, 2])))
  for sid in h.snaps:
    judge(w, h.ds, KV.pks, h.snaps[sid], sid)


def loaded(w):
  """Statistics of a Parquet file taken over by append_parquet."""
  ds = COMP.create(w.dir())
  rows = Rows(w, COMP, fixed={"v": lambda i: i}).many(3)
  d = w.dir("ext")
  os.makedirs(d)
  parts = [rows[:2], rows[2:]]
  if w.flag("onefile"):
    wr = pq.ParquetWriter(os.path.join(d, "x.parquet"),
                          ds.storage.physical_schema)
    for c in parts:
      wr.write_table(COMP.table(c))
    wr.close()
  else:
    for i, c in enumerate(parts):
      pq.write_table(COMP.table(c), os.path.join(d, f"x{i}.parquet"))
  ok(w, ds.local().append_parquet(os.path.join(d, "*.parquet")),
     "append_parquet")
  judge(w, ds, COMP.pks, rows)


def long_keys(w):
  """Long strings have no Parquet statistics: nothing wrong is recorded."""
  spec = Spec([("k", "str"), ("rid", "int")], ["k"])
  ds = spec.create(w.dir())
  ks = [w.choose(f"k{i}", ["a", "b" * 5000, "A" * 5000]) for i in range(3)]
  rows = [{"k": k, "rid": i} for i, k in enumerate(ks)]
  append_chunks(w, ds, spec, [rows[:2], rows[2:]],
                w.choose("layout", ["one", "groups", "files"]))
  for e in index_entries(ds):
    data = [r["k"] for r in index_file(ds, e["_FILE"]).to_pylist()]
    st = e["_STATS_f0"]
    if st is not None and st["_MIN"] is not None:
      w.check(st["_MIN"] == min(data), "recorded min of long keys")
    if st is not None and st["_MAX"] is not None:
      w.check(st["_MAX"] == max(data), "recorded max of long keys")
    w.check(e["_NUM_ROWS"] == len(data), "recorded number of rows")


def lengths(w):
  """Bounds are whole keys, whatever their length and first difference."""
  kind = w.choose("kind", ["str", "bin"])
  spec = Spec([("k", kind), ("rid", "int")], ["k"])
  ds = spec.create(w.dir())
  n = w.choose("n", [20, 40, 100, 300, 1000, 4000, 4096, 5000])
  ks = ["b" * n + e for e in ["c", "", "a", "d" + "z" * 30]]
  if n > 4000 and w.flag("short too"):
    ks[1] = w.choose("short", ["a", "c", ""])
  at = w.choose("first", [0, 1, 2, 3])
  ks = ks[at:] + ks[:at]
  if kind == "bin":
    ks = [k.encode() for k in ks]
  rows = [{"k": k, "rid": i} for i, k in enumerate(ks)]
  cuts = w.choose("writes", [[2], [1, 2, 3]])
  append_chunks(w, ds, spec, [rows[a:b] for a, b in zip([0] + cuts, cuts + [4])],
                w.choose("layout", ["one", "groups", "files"]))
  judge(w, ds, spec.pks, rows)


def odd_keys(w):
  """Keys at the edges of their type."""
  kind = w.choose("kind", list(ODD))
  spec = Spec([("v", "int"), ("k", kind), ("rid", "int")], ["k"])
  ds = spec.create(w.dir())
  mk = Rows(w, spec, fixed={"v": lambda i: i})
  # Arrow widens the bounds of only infinite values to finite ones.
  vals = [v for v in ODD[kind] if v not in (float("inf"), float("-inf"))]
  vals = vals[::w.choose("order", [1, -1])]
  n = w.choose("rows", [1, 2, 3])
  rows = [mk.one(k=k) for k in vals]
  append_chunks(w, ds, spec, [rows[i:i + n] for i in range(0, len(rows), n)],
                w.choose("layout", ["one", "files"]))
  judge(w, ds, ["k"], rows)


def big(w):
  """A dozen files before and after deletes."""
  h = large.deletes(w)
  for sid in sorted(h.snaps):
    judge(w, h.ds, ["k"], h.snaps[sid], sid)


BOUNDS += large.BOUND
SCENARIOS = [
    ("odd_keys", odd_keys),
    ("lengths", lengths),
    ("layouts", layouts, ("quick", "thorough"), ("files1", "files2", "files3")),
    ("nulls", nulls),
    ("kinds", kinds),
    ("nan", nan),
    ("columns", columns),
    ("carried", carried),
    ("carried_null", carried_null),
    ("loaded", loaded),
    ("long_keys", long_keys),
    ("big", big),
]
