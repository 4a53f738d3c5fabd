"""C07: record field values stay with their row."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "up to 6 rows with 1 to 3 record fields (declared anywhere), up to 4"
    " operations, symbolic record/row-group/file thresholds, symbolic keys and"
    " record values incl. empty values and several values equal;"
    " 12 odd names of record fields")
BUDGET = {"quick": 120, "thorough": 600}
ASSUMPTIONS = []

SPECS = {
    "mid": Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("s", "bin"),
                 ("rid", "int")], ["k"], ["r", "s"]),
    "first": Spec([("r", "bin"), ("k", "int"), ("rid", "int")], ["k"], ["r"]),
    "last": Spec([("k", "int"), ("rid", "int"), ("s", "bin"), ("r", "bin"),
                  ("q", "bin")], ["k"], ["q", "s", "r"]),
}


def settle(w, h, what):
  got = read_rows(h.ds)
  w.observe("rows", by_rid(got))
  same(w, got, h.rows, what)


FIX = {
    "v": lambda i: i,
    "r": lambda i: b"r%d" % i,
    "s": lambda i: b"s%d" % (3 * i) if i % 3 else b"",
    "q": lambda i: b"q" * (i + 1)
}


def values(w):
  """Symbolic record values."""
  spec = SPECS[w.choose("spec", list(SPECS))]
  h = Hist(w, spec, layout=w.choose("layout", [
      "one", "groups", "files", options(0, 0, 0)]), fixed={"v": FIX["v"]})
  h.append(2, 1)
  settle(w, h, "read")
  c = w.int("c")
  got = read_rows(h.ds, filter_=pc.field("k") < c)
  same(w, got, [r for r in h.rows if r["k"] < c], "filtered read")


def history(w):
  spec = SPECS[w.choose("spec", ["mid", "first"])]
  h = Hist(w, spec, layout=w.choose("layout", [
      "one", options(0, 0, 0), options(0, 1 << 40, 4)]), fixed=FIX)
  h.append(2, 1)
  h.step(["append2", "delete", "upsert"])
  h.step(["delete", "upsert"])
  settle(w, h, "read after a history")
  same(w, read_rows(reopen(h.ds)), h.rows, "fresh load")


def three(w):
  h = Hist(w, SPECS["last"], layout=w.choose("layout", [
      "one", options(0, 0, 0)]), fixed=FIX)
  h.append(1, 2)
  h.step(["append", "delete", "upsert2"])
  settle(w, h, "read")
  one = w.choose("field", ["q", "s", "r"])
  got = read_rows(h.ds, fields=["rid", one])
  same(w, got, [{"rid": r["rid"], one: r[one]} for r in h.rows],
       "read of one record field")


def thresholds(w):
  h = Hist(w, SPECS["mid"], layout=options(
      w.int("rg", 0, 250), w.int("fl", 0, 250), w.int("rec", 0, 16)), fixed=FIX)
  h.append(1, 2, 1)
  if w.flag("again"):
    h.append(2)
  h.delete(Cmp(Fld("v"), "<", w.choose("d", [1, 2])))
  settle(w, h, "read")


def batches(w):
  h = Hist(w, SPECS["mid"], layout=w.choose("layout", [
      "one", "groups", options(0, 0, 0)]), fixed=FIX)
  h.append(3, 2)
  h.step(["delete", "upsert"])
  got = []
  for t in h.ds.local().read(batch_size=w.choose("n", [1, 2, 3])):
    got.extend(t.to_pylist())
  same(w, got, h.rows, "batches")


def versions(w):
  """Old versions keep their record values."""
  h = Hist(w, SPECS["mid"], layout=options(0, 0, 0), fixed=FIX)
  h.append(2)
  h.step(["upsert", "delete"])
  h.step(["upsert", "append"])
  for sid, rows in h.snaps.items():
    same(w, read_rows(h.ds, version=sid), rows, "read of a version")


def forms(w):
  """One input in several chunks, sliced, with another column order."""
  spec = SPECS[w.choose("spec", ["mid", "first"])]
  h = Hist(w, spec, layout=w.choose("layout", ["one", options(0, 0, 0)]),
           fixed={"v": FIX["v"]})
  rows = h.new(3)
  data = formed(w, spec, rows, w.choose("form", FORMS))
  op = w.choose("op", ["append", "upsert", "insert"])
  if op != "append":
    w.distinct([r["k"] for r in rows])
  ok(w, getattr(h.runner(), op)(data), op)
  h.rows = rows
  settle(w, h, "read")


def many(w):
  """More rows than a default batch in several record files."""
  spec = Spec([("k", "int"), ("r", "bin"), ("rid", "int")], ["k"], ["r"])
  n = 21
  ds = spec.create(w.dir())
  rows = Rows(w, spec, fixed={
      "k": lambda i: i * 8 % n,
      "r": lambda i: b"%d" % (1000 + i)
  }).many(n)
  rec = w.int("rec", 0, 100)
  tables = [rows[i:i + 7] for i in range(0, n, 7)]
  append_chunks(w, ds, spec, tables, options(None, None, rec))
  d = w.int("d", 0, n)
  ok(w, ds.local().delete(pc.field("k") < d), "delete", (OK, SKIPPED))
  same(w, read_rows(ds), [r for r in rows if not r["k"] < d], "read")


ODD_NAMES = ["a/b", "<abs>", " ", "\u00e9", "%2F", "x" * 300, "_FILE",
             "*", "[a]", "a\\b", "data"]


def names(w):
  """Record fields of any name (without dots: Arrow takes them as paths)."""
  x = w.choose("name", ODD_NAMES)
  base = w.dir("base")
  if x == "<abs>":
    os.makedirs(base + "/abs")
    x = base + "/abs/x"
  if w.flag("two"):
    spec = Spec([("k", "int"), (x, "bin"), ("r", "bin"), ("rid", "int")], ["k"],
                [x, "r"])
  else:
    spec = Spec([("k", "int"), (x, "bin"), ("rid", "int")], ["k"], [x])
  loc = os.path.join(base, "x", "ds")
  h = Hist(w, spec, location=loc, layout=w.choose(
      "layout", ["one", options(0, 0, 0)]), fixed={
          x: lambda i: b"x%d" % i, "r": lambda i: b"r%d" % i})
  h.append(2)
  h.step(["append", "upsert", "delete"])
  h.judge("read")
  h.judge("fresh load", reopen(h.ds))
  got = read_rows(h.ds, fields=["rid", x])
  same(w, got, [{"rid": r["rid"], x: r[x]} for r in h.rows],
       "read of one record field")
  out = [os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs
         if not d.startswith((loc + "/data", loc + "/metadata"))]
  w.check(not out, f"files outside the data folder: {out[:1]}",
          "files outside the data folder")


def big(w):
  """Hundreds of records in one or many record files."""
  h = large.appended(w)
  h.delete(Cmp(Fld("k"), "<", large.cut(w, at=130, width=2)))
  h.judge("read after a delete")


BOUNDS += large.BOUND
SCENARIOS = [
    ("names", names),
    ("values", values),
    ("history", history),
    ("three", three),
    ("thresholds", thresholds),
    ("batches", batches),
    ("versions", versions),
    ("forms", forms),
    ("many", many),
    ("big", big),
]
