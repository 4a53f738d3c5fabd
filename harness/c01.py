"""C01: append stores every row exactly once."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "up to 5 rows in up to 4 batches of 0 to 2 rows, 1 to 2 appends;"
    " row-group, file and record-file size thresholds are symbolic integers in"
    " [0, 400]; int64/int32/float64/string/bytes/bool/struct/list/record"
    " columns with NULLs; cells symbolic")
ASSUMPTIONS = []


def check_both(w, ds, rows, what="read after append"):
  got = read_rows(ds)
  w.observe("rows", by_rid(got))
  same(w, got, rows, what)
  same(w, read_rows(reopen(ds)), rows, what + " by a fresh load")


def batches(w):
  """Any split into batches, any thresholds."""
  spec = KV
  ds = spec.create(w.dir())
  mk = Rows(w, spec)
  sizes = [w.choose(f"n{i}", [0, 1, 2]) for i in range(3)]
  chunks = [mk.many(n) for n in sizes]
  opts = options(w.int("rg", 0, 200), w.int("fl", 0, 200))
  rows = [r for c in chunks for r in c]
  r = ds.local(opts).append_from(lambda: iter([spec.table(c) for c in chunks]))
  ok(w, r, "append", (OK,) if rows else (SKIPPED,))
  w.cover("rows" if rows else "nothing")
  if rows:
    w.check(r.storage_statistics_update.num_rows == len(rows), "reported rows")
  w.check((ds.storage.snapshot().snapshot_id != 0) == bool(rows),
          "an empty append commits nothing, another one commits")
  check_both(w, ds, rows)


REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("s", "bin"),
            ("rid", "int")], ["k"], ["r", "s"])


def record_batches(w):
  """Record files roll over at any point, index files at another."""
  spec = REC
  ds = spec.create(w.dir())
  mk = Rows(w, spec, fixed={
      "v": lambda i: i,
      "r": lambda i: b"r%d" % i,
      "s": lambda i: b"s%d" % i * (i + 1)
  })
  sizes = [w.choose(f"n{i}", [1, 2] if i else [0, 1, 2]) for i in range(3)]
  chunks = [mk.many(n) for n in sizes]
  opts = options(w.int("rg", 0, 250), w.int("fl", 0, 250), w.int("rec", 0, 60))
  ok(w, ds.local(opts).append_from(
      lambda: iter([spec.table(c) for c in chunks])), "append")
  check_both(w, ds, [r for c in chunks for r in c])


def record_values(w):
  """Symbolic record values stay with their rows."""
  spec = REC
  ds = spec.create(w.dir())
  rows = Rows(w, spec).many(4)
  append_chunks(w, ds, spec, [rows[:2], rows[2:]],
                options(0 if w.flag("groups") else None,
                        0 if w.flag("files") else None,
                        0 if w.flag("recs") else None))
  check_both(w, ds, rows)


WIDE = Spec(
    [("s", "x"), ("f", "float"), ("k", "str"), ("i", "int32"), ("b", "bool"),
     ("l", "x"), ("z", "bin"), ("rid", "int"), ("k2", "int")], ["k", "k2"],
    schema=pa.schema([
        ("s", pa.struct([("x", pa.int64()),
                         ("y", pa.struct([("u", pa.string())]))])),
        ("f", pa.float64()), ("k", pa.string()), ("i", pa.int32()),
        ("b", pa.bool_()), ("l", pa.list_(pa.int64())), ("z", pa.binary()),
        ("rid", pa.int64()), ("k2", pa.int64())
    ]))


def wide(w):
  """All column kinds, each possibly NULL."""
  spec = WIDE
  ds = spec.create(w.dir())
  null = w.choose("null", [None, "f", "k", "i", "b", "l", "z", "k2", "s"])
  mk = Rows(w, spec, fixed={
      "s": lambda i: {"x": w.int(f"sx{i}"), "y": {"u": w.str_(f"su{i}")}},
      "l": lambda i: [w.int(f"l{i}_{j}") for j in range(i)]
  })
  rows = mk.many(3)
  if null:
    for i, r in enumerate(rows):
      if w.flag(f"isnull{i}"):
        r[null] = None
  append_chunks(w, ds, spec, [rows[:2], rows[2:]],
                w.choose("layout", ["one", "groups", "files"]))
  check_both(w, ds, rows)


def inputs(w):
  """Every accepted form of input."""
  spec = Spec([("k", "int"), ("v", "int"), ("r", "bin"), ("rid", "int")],
              ["k"], ["r"])
  ds = spec.create(w.dir())
  mk = Rows(w, spec)
  # (A dict input needs a value to infer the type of a column.)
  rows = mk.many(2) + [mk.one(v=w.null_or("vn", w.int("vx")))]
  form = w.choose("form", ["dict", "table", "chunked", "reordered", "sliced",
                           "fns", "fn", "same fn"])
  run = ds.local()
  cols = {n: [r[n] for r in rows] for n in spec.names}
  if form == "dict":
    r = run.append(cols)
  elif form == "table":
    r = run.append(spec.table(rows))
  elif form == "chunked":
    r = run.append(
        pa.concat_tables([spec.table(rows[:1]),
                          spec.table([]),
                          spec.table(rows[1:])]))
  elif form == "reordered":
    r = run.append(spec.table(rows, ["r", "rid", "v", "k"]))
  elif form == "sliced":
    extra = mk.many(2)
    r = run.append(spec.table([extra[0]] + rows + [extra[1]]).slice(1, 3))
  elif form == "fn":
    r = run.append_from(lambda: iter([spec.table(rows)]))
  elif form == "same fn":
    # One function given twice continues where it stopped, as with a stream.
    stream = iter([spec.table(rows[:1]), spec.table(rows[1:])])
    fn = lambda: iter([next(stream)])
    r = run.append_from([fn, fn])
  else:
    r = run.append_from([
        lambda: iter([spec.table(rows[:1])]), lambda: iter([]),
        lambda: iter([{n: [x[n] for x in rows[1:]] for n in spec.names}])
    ])
  ok(w, r, "append")
  check_both(w, ds, rows)


def appends(w):
  """Rows of earlier appends stay; the sequence is arbitrary."""
  h = Hist(w, KV, layout=w.choose("layout", ["one", "groups", "files"]),
           nullable=["v"])
  h.append(w.choose("a", [1, 2]), w.choose("b", [0, 1]))
  if w.flag("fresh"):
    h.ds = reopen(h.ds)
  h.append(w.choose("c", [0, 1]))
  h.append_rows(h.new(w.choose("d", [0, 1])))
  check_both(w, h.ds, h.rows)


def many_batches(w):
  """Many batches: a running total over several row groups and files."""
  spec = KV
  ds = spec.create(w.dir())
  rows = Rows(w, spec, fixed={"k": lambda i: i, "v": lambda i: -i}).many(12)
  opts = options(w.int("rg", 0, 400), w.int("fl", 0, 400))
  ok(w, ds.local(opts).append_from(
      lambda: iter([spec.table(rows[i:i + 2]) for i in range(0, 12, 2)])),
     "append")
  check_both(w, ds, rows)


def many_records(w):
  spec = Spec([("k", "int"), ("r", "bin"), ("rid", "int")], ["k"], ["r"])
  ds = spec.create(w.dir())
  rows = Rows(w, spec, fixed={
      "k": lambda i: i,
      "r": lambda i: b"x" * (1 + i % 3) + b"%d" % i
  }).many(10)
  opts = options(w.int("rg", 0, 600), w.int("fl", 0, 600), w.int("rec", 0, 60))
  ok(w, ds.local(opts).append_from(
      lambda: iter([spec.table(rows[i:i + 2]) for i in range(0, 10, 2)])),
     "append")
  check_both(w, ds, rows)


def big(w):
  """Hundreds of rows in one table."""
  large.appended(w)


BOUNDS += large.BOUND
SCENARIOS = [
    ("batches", batches, ("quick", "thorough"), ("rows", "nothing")),
    ("record_batches", record_batches),
    ("record_values", record_values),
    ("wide", wide),
    ("inputs", inputs),
    ("appends", appends),
    ("many_batches", many_batches),
    ("many_records", many_records),
    ("big", big),
]
