"""C04: a filtered read returns exactly the rows for which the filter is true."""
from harness.common import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "3 to 4 rows per dataset in up to 2 commits and 3 files; keys of type"
    " int64, int32, float64 and float32 (half-integers), string, bytes, bool; composite"
    " keys of 2 fields; filters: one comparison with the constant on either"
    " side, AND/OR of two (and 22), NOT of one, field-to-field, IN, IS NULL; symbolic"
    " key, value and constant cells in [-1000,1000]; layouts: one file,"
    " one row group per batch, one file per batch; loaded files without"
    " statistics; keys of 20 to 5000 characters")
BUDGET = {"quick": 150, "thorough": 600}
ASSUMPTIONS = [
    "Arrow's own reader drops rows of a file in which one bound is longer than"
    " 4096 bytes and the other is not; such files are not asked",
    "the reference meaning of a filter is three-valued logic, a row is returned"
    " iff the filter is true for it"
]
ALL_OPS = ["==", "!=", "<", "<=", ">", ">="]


def side(w, f, op, c):
  """The comparison with the constant on either side."""
  return Cmp(f, op, c) if not w.flag("const_left") else Cmp(c, op, f)


def judge(w, ds, rows, cond, what="filtered read", **k):
  yes, _ = split(rows, cond)
  got = read_rows(ds, filter_=cond.expr(), **k)
  w.observe("got", by_rid(got))
  w.cover("some" if yes else "none")
  same(w, got, yes, what)
  return got


def key_cmp(w):
  layout = w.choose("layout", ["one", "groups", "files"])
  ds = KV.create(w.dir())
  rows = Rows(w, KV).many(3)
  append_chunks(w, ds, KV, [rows[:2], rows[2:]], layout)
  op = w.choose("op", ALL_OPS)
  judge(w, ds, rows, side(w, Fld("k"), op, w.int("c")))


def two_commits(w):
  ds = KV.create(w.dir())
  rows = Rows(w, KV).many(3)
  append_chunks(w, ds, KV, [rows[:2]])
  append_chunks(w, ds, KV, [rows[2:]])
  op = w.choose("op", ALL_OPS)
  judge(w, reopen(ds), rows, Cmp(Fld("k"), op, w.int("c")))


def value_cmp(w):
  """A filter on a field that is not a primary key never prunes."""
  ds = KV.create(w.dir())
  rows = Rows(w, KV, nullable=["v"]).many(3)
  append_chunks(w, ds, KV, [rows[:2], rows[2:]], "files")
  op = w.choose("op", ALL_OPS)
  judge(w, ds, rows, side(w, Fld("v"), op, w.int("c")))


def nullable_key(w):
  ds = KV.create(w.dir())
  rows = Rows(w, KV, nullable=["k"], fixed={"v": lambda i: i}).many(3)
  append_chunks(w, ds, KV, [rows[:2], rows[2:]],
                w.choose("layout", ["one", "groups", "files"]))
  op = w.choose("op", ALL_OPS)
  judge(w, ds, rows, side(w, Fld("k"), op, w.int("c")))


def and_or(w):
  ds = KV.create(w.dir())
  rows = Rows(w, KV).many(3)
  append_chunks(w, ds, KV, [rows[:2], rows[2:]], "files")
  a = Cmp(Fld("k"), w.choose("op", ["==", "<", ">="]), w.int("c"))
  b = Cmp(Fld(w.choose("f2", ["k", "v"])), w.choose("op2", ["!=", ">", "<="]),
          w.int("d"))
  if w.flag("swap"):
    a, b = b, a
  judge(w, ds, rows, Bin(w.choose("conn", ["and", "or"]), a, b))


def nested(w):
  ds = KV.create(w.dir())
  rows = Rows(w, KV).many(2)
  append_chunks(w, ds, KV, [rows[:1], rows[1:]], "files")
  a = Cmp(Fld("k"), "<", w.int("c"))
  b = Cmp(Fld("k"), ">", w.int("d"))
  c = Cmp(Fld("v"), "==", w.int("e"))
  o = w.choose("shape", ["and(or)", "or(and)", "(or)and", "(and)or"])
  cond = {
      "and(or)": a & (b | c),
      "or(and)": a | (b & c),
      "(or)and": (c | a) & b,
      "(and)or": (c & a) | b
  }[o]
  judge(w, ds, rows, cond)


COMP = Spec([("a", "int"), ("v", "int"), ("b", "int"), ("rid", "int")],
            ["b", "a"])


def composite(w):
  ds = COMP.create(w.dir())
  rows = Rows(w, COMP, fixed={"v": lambda i: i}).many(3)
  append_chunks(w, ds, COMP, [rows[:2], rows[2:]], "files")
  a = Cmp(Fld("a"), w.choose("op", ALL_OPS), w.int("c"))
  b = Cmp(Fld("b"), w.choose("op2", ["==", "<"]), w.int("d"))
  judge(w, ds, rows, Bin(w.choose("conn", ["and", "or"]), a, b))


def fields_cmp(w):
  """One key field compared with another (or with itself, or with a value)."""
  ds = COMP.create(w.dir())
  rows = Rows(w, COMP).many(3)
  append_chunks(w, ds, COMP, [rows[:2], rows[2:]],
                w.choose("layout", ["one", "files"]))
  f, g = w.choose("fg", [("a", "b"), ("b", "a"), ("a", "a"), ("a", "v")])
  judge(w, ds, rows, Cmp(Fld(f), w.choose("op", ALL_OPS), Fld(g)))


def odd_keys(w):
  """Keys at the edges of their type, one file each."""
  kind = w.choose("kind", list(ODD))
  spec = Spec([("v", "int"), ("k", kind), ("rid", "int")], ["k"])
  ds = spec.create(w.dir())
  mk = Rows(w, spec, fixed={"v": lambda i: i})
  rows = [mk.one(k=k) for k in ODD[kind]]
  append_chunks(w, ds, spec, [rows[i:i + 2] for i in range(0, len(rows), 2)],
                "files")
  c = (cell(w, "any c", kind) if w.flag("any") else
       w.choose("c", ODD[kind]))
  judge(w, ds, rows, side(w, Fld("k"), w.choose("op", ALL_OPS), c))


def kinds(w):
  kind = w.choose("kind", [
      "int32", "float", "float32", "str", "bin", "bool"])
  spec = Spec([("v", "int"), ("k", kind), ("rid", "int")], ["k"])
  ds = spec.create(w.dir())
  rows = Rows(w, spec, fixed={"v": lambda i: i}).many(3)
  append_chunks(w, ds, spec, [rows[:2], rows[2:]], "files")
  op = w.choose("op", ALL_OPS if kind != "bool" else ["==", "!="])
  c = cell(w, "c", kind)
  judge(w, ds, rows, side(w, Fld("k"), op, c))


def nan_key(w):
  """NaN is in no min/max."""
  nan = float("nan")
  spec = Spec([("k", "float"), ("rid", "int")], ["k"])
  ds = spec.create(w.dir())
  mk = Rows(w, spec)
  rows = mk.many(2)
  i = w.choose("nan", [0, 1, 2])
  rows.insert(i, mk.one(k=nan))
  append_chunks(w, ds, spec, [rows[:2], rows[2:]], "files")
  # Arrow itself drops row groups with NaN on !=, so it is not asked.
  op = w.choose("op", [o for o in ALL_OPS if o != "!="])
  c = w.real("c")
  want = [r for j, r in enumerate(rows) if j != i and bool(OPS[op](r["k"], c))]
  got = read_rows(ds, filter_=OPS[op](pc.field("k"), pc.scalar(c)))
  same(w, got, want, "filtered read with NaN keys")


NOT_SIG = "negated comparison prunes a file with matching and other rows"


def negated(w):
  ds = KV.create(w.dir())
  rows = Rows(w, KV).many(3)
  append_chunks(w, ds, KV, [rows[:2], rows[2:]], "files")
  f = w.choose("f", ["k", "v"])
  inner = Cmp(Fld(f), w.choose("op", ALL_OPS), w.int("c"))
  cond = Neg(inner)
  yes, no = split(rows, cond)
  got = read_rows(ds, filter_=cond.expr())
  w.observe("got", by_rid(got))
  # The recorded finding: a file is only read when the statistics say that no
  # row satisfies the inner comparison.
  known = None
  if f == "k" and [r["rid"] for r in by_rid(got)] != [
      r["rid"] for r in by_rid(yes)]:
    known = []
    for part in (rows[:2], rows[2:]):
      m = [r for r in part if any(r is y for y in yes)]
      if len(m) == len(part):
        known.extend(m)
    if [r["rid"] for r in by_rid(known)] != [r["rid"] for r in by_rid(got)]:
      # Within a file, min/max may not even tell that nothing matches.
      known = known if set(r["rid"] for r in got) <= set(
          r["rid"] for r in known) else None
  same(w, got, yes, "read with a negated filter",
       sig=NOT_SIG if known is not None else None)


def other_filters(w):
  """Filters that are no comparisons: never pruned wrongly."""
  ds = KV.create(w.dir())
  rows = Rows(w, KV, nullable=["v"]).many(3)
  append_chunks(w, ds, KV, [rows[:2], rows[2:]], "files")
  kind = w.choose("filter", ["isin", "isnull", "isin&cmp", "isnull|cmp"])
  c = w.int("c")
  cmp_ = Cmp(Fld("k"), "<", c)
  consts = [w.int("x"), 7]
  if kind == "isin":
    cond = IsIn("k", [3, 7])
  elif kind == "isnull":
    cond = IsNull("v")
  elif kind == "isin&cmp":
    cond = IsIn("k", [3, 7]) & cmp_
  else:
    cond = IsNull("v") | cmp_
  del consts
  judge(w, ds, rows, cond)


REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
           ["r"])
NEST = Spec([("s", "nest"), ("l", "list"), ("v", "int"), ("k", "int"),
             ("rid", "int")], ["k"],
            schema=pa.schema([
                ("s", pa.struct([("x", pa.int64()), ("y", pa.int64())])),
                ("l", pa.list_(pa.int64())), ("v", pa.int64()),
                ("k", pa.int64()), ("rid", pa.int64())
            ]))


def record_fields(w):
  ds = REC.create(w.dir())
  rows = Rows(w, REC, fixed={"r": lambda i: b"rec%d" % i}).many(3)
  append_chunks(w, ds, REC, [rows[:2], rows[2:]], "files")
  f = w.choose("f", ["k", "v"])
  judge(w, ds, rows, Cmp(Fld(f), w.choose("op", ALL_OPS), w.int("c")))


def nested_columns(w):
  """Struct and list columns before the key (field and column positions
  differ)."""
  ds = NEST.create(w.dir())
  mk = Rows(w, NEST, fixed={
      "s": lambda i: {"x": i, "y": -i},
      "l": lambda i: list(range(i))
  })
  rows = mk.many(3)
  append_chunks(w, ds, NEST, [rows[:2], rows[2:]], "files")
  f = w.choose("f", ["k", "v"])
  judge(w, ds, rows, Cmp(Fld(f), w.choose("op", ALL_OPS), w.int("c")))


def after_changes(w):
  """Filters after deletes and upserts rewrote files and manifests."""
  ds = KV.create(w.dir())
  mk = Rows(w, KV, lo=-50, hi=50)
  rows = mk.many(3)
  w.distinct([r["k"] for r in rows])
  append_chunks(w, ds, KV, [rows[:2], rows[2:]], "files")
  if w.flag("upsert"):
    new = mk.one()
    ok(w, ds.local().upsert(KV.table([new])), "upsert")
    rows = [r for r in rows if not r["k"] == new["k"]] + [new]
  else:
    d = w.int("d", -50, 50)
    ok(w, ds.local().delete(pc.field("k") < d), "delete", (OK, SKIPPED))
    rows = [r for r in rows if not r["k"] < d]
  judge(w, ds, rows, Cmp(Fld("k"), w.choose("op", ["==", ">", "<="]),
                         w.int("c", -50, 50)))


def old_version(w):
  """Pruning uses the statistics of the version read."""
  ds = KV.create(w.dir())
  mk = Rows(w, KV)
  rows = mk.many(2)
  append_chunks(w, ds, KV, [rows[:1], rows[1:]], "files")
  ds.add_tag("t")
  ok(w, ds.local().delete(pc.field("k") >= w.int("d")), "delete", (OK, SKIPPED))
  append_chunks(w, ds, KV, [mk.many(1)])
  judge(w, ds, rows, Cmp(Fld("k"), w.choose("op", ["==", ">", "<="]),
                         w.int("c")), version=w.choose("version", ["t", 1]))


def batches_and_fields(w):
  """A filter with a batch size or with fields not including the filter's."""
  ds = KV.create(w.dir())
  rows = Rows(w, KV).many(4)
  append_chunks(w, ds, KV, [rows[:3], rows[3:]],
                w.choose("layout", ["one", "groups", "files"]))
  cond = Cmp(Fld("k"), w.choose("op", ["<", "=="]), w.int("c"))
  yes, _ = split(rows, cond)
  if w.flag("fields"):
    got = read_rows(ds, filter_=cond.expr(), fields=["rid", "v"])
    same(w, got, [{"rid": r["rid"], "v": r["v"]} for r in yes],
         "filtered read of other fields")
    w.check(all(set(r) == {"rid", "v"} for r in got), "columns of the read")
  else:
    n = w.choose("batch", [1, 2])
    got = []
    for t in ds.local().read(filter_=cond.expr(), batch_size=n):
      w.check(t.num_rows <= n, "batch too large")
      got.extend(t.to_pylist())
    same(w, got, yes, "filtered batches")


def literal(w):
  ds = KV.create(w.dir())
  rows = Rows(w, KV).many(2)
  append_chunks(w, ds, KV, [rows])
  a, b = w.choose("ab", [(1, 2), (2, 1), (1, 1)])
  c = Cmp(a, w.choose("op", ALL_OPS), b)
  k = Cmp(Fld("k"), ">", w.int("c"))
  cond = w.choose("shape", ["l", "l&", "|l"])
  cond = {"l": c, "l&": c & k, "|l": k | c}[cond]
  judge(w, ds, rows, cond)


def unknown_stats(w):
  """Files with unknown bounds, next to files with known ones."""
  ds = KV.create(w.dir())
  mk = Rows(w, KV)
  rows = mk.many(2)
  append_chunks(w, ds, KV, [rows[:1]])
  os.makedirs(w.dir("ext"))
  path = w.dir("ext") + "/x"
  n = w.choose("no statistics of", ["k", "all"])
  wr = pq.ParquetWriter(path, KV.schema,
                        write_statistics=False if n == "all" else ["v", "rid"])
  wr.write_table(KV.table(rows[1:]))
  if w.flag("two groups"):
    rows.append(mk.one())
    wr.write_table(KV.table(rows[2:]))
  wr.close()
  r = ds.local().append_parquet(path)
  w.check(r.state == JobResult.State.SUCCEEDED, "append_parquet")
  op = w.choose("op", ALL_OPS)
  cond = side(w, Fld("k"), op, w.int("c"))
  how = w.choose("filter", ["one", "and", "or"])
  if how != "one":
    other = Cmp(Fld("k"), w.choose("op2", ["<", ">=", "!="]), w.int("c2"))
    cond = Bin(how, cond, other)
  judge(w, ds, rows, cond)


def long_keys(w):
  """Keys of any length, up to and beyond what Parquet keeps bounds of."""
  kind = w.choose("kind", ["str", "bin"])
  spec = Spec([("k", kind), ("rid", "int")], ["k"])
  ds = spec.create(w.dir())
  n = w.choose("n", [20, 300, 4000, 4096, 5000])
  ks = ["b" * n + e for e in ["c", "a", "d" + "z" * 30]]
  at = w.choose("first", [0, 1, 2])
  ks = ks[at:] + ks[:at]
  if kind == "bin":
    ks = [k.encode() for k in ks]
  rows = [{"k": k, "rid": i} for i, k in enumerate(ks)]
  append_chunks(w, ds, spec, [rows[:2], rows[2:]],
                w.choose("layout", ["one", "groups", "files"]))
  op = w.choose("op", ALL_OPS)
  x = w.choose("x", ks + [ks[0][:n], ks[0][:n - 1], ks[0][:10]])
  judge(w, ds, rows, Cmp(Fld("k"), op, x))


def many_conditions(w):
  """Filters of many conditions."""
  ds = KV.create(w.dir())
  rows = Rows(w, KV, fixed={"k": lambda i: 3 * i}).many(3)
  append_chunks(w, ds, KV, [rows[:2], rows[2:]], "files")
  conn = w.choose("conn", ["or", "and"])
  op = "==" if conn == "or" else w.choose("op", ["!=", ">="])
  c = w.int("c", -1, 7)
  cond = Cmp(Fld("k"), op, c)
  for i in range(21):
    cond = Bin(conn, cond, Cmp(Fld("k"), op, -2 * i if op == ">=" else 2 * i))
  judge(w, ds, rows, cond)


def big(w):
  """Two dozen files."""
  large.filters(w)


BOUNDS += large.BOUND
SCENARIOS = [
    ("many_conditions", many_conditions),
    ("unknown_stats", unknown_stats),
    ("long_keys", long_keys),
    ("key_cmp", key_cmp),
    ("two_commits", two_commits),
    ("value_cmp", value_cmp),
    ("nullable_key", nullable_key),
    ("and_or", and_or),
    ("nested", nested),
    ("composite", composite),
    ("fields_cmp", fields_cmp),
    ("kinds", kinds),
    ("odd_keys", odd_keys),
    ("nan_key", nan_key),
    ("negated", negated),
    ("other_filters", other_filters),
    ("record_fields", record_fields),
    ("nested_columns", nested_columns),
    ("after_changes", after_changes),
    ("old_version", old_version),
    ("batches_and_fields", batches_and_fields),
    ("literal", literal),
    ("big", big),
]
