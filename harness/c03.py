"""C03: insert refuses existing keys, upsert replaces by primary key."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "2 to 3 stored rows over up to 3 files or row groups and 2 manifests, 1 to"
    " 2 (and 22) input rows, up to 3 operations; int64, string, float64, bytes and"
    " composite keys (non-NULL); record fields; all key coincidences")
ASSUMPTIONS = ["primary key values are not NULL"]


def settle(w, h, what):
  got = read_rows(h.ds)
  w.observe("rows", by_rid(got))
  same(w, got, h.rows, what)
  same(w, read_rows(reopen(h.ds)), h.rows, what + " by a fresh load")


def write(w, h, rows, mode=None, what=""):
  mode = mode or w.choose("mode", ["insert", "upsert"])
  before = h.head()
  if mode == "insert":
    r = h.insert(rows)
    w.cover("inserted" if r.state == OK else "refused")
  else:
    w.distinct([tuple(r[k] for k in h.spec.pks) for r in rows])
    n = len(h.rows)
    r = h.upsert(rows)
    w.cover("replaced" if len(h.rows) < n + len(rows) else "added")
  w.check((h.head() == before) == (r.state != OK),
          f"{mode}: a new snapshot iff it succeeded")
  settle(w, h, f"read after {mode}")


COVER = ("inserted", "refused", "replaced", "added")


def basic(w):
  h = Hist(w, KV, layout=w.choose("layout", ["one", "groups", "files"]),
           fixed={"v": lambda i: i})
  h.append(2, 1)
  write(w, h, h.mk.many(1))


def two_rows(w):
  h = Hist(w, KV, layout="files", fixed={"v": lambda i: i})
  h.append(1, 1)
  write(w, h, h.mk.many(2))


def manifests(w):
  h = Hist(w, KV, layout="files")
  h.append(1, 1)
  h.append(1)
  write(w, h, h.mk.many(1))


def into_empty(w):
  h = Hist(w, KV)
  write(w, h, h.mk.many(w.choose("n", [0, 1, 2])))
  write(w, h, h.mk.many(1))


def sequence(w):
  h = Hist(w, KV, layout=w.choose("layout", ["one", "files"]),
           fixed={"v": lambda i: i})
  h.append(1, 1)
  write(w, h, h.mk.many(1))
  write(w, h, h.mk.many(1))


COMP = Spec([("a", "int"), ("v", "int"), ("b", "str"), ("rid", "int")],
            ["b", "a"])


def composite(w):
  h = Hist(w, COMP, layout=w.choose("layout", ["one", "files"]),
           fixed={"v": lambda i: i})
  h.append(1, 1)
  write(w, h, h.mk.many(1))


def composite_two(w):
  h = Hist(w, COMP, layout="files", fixed={"v": lambda i: i}, lo=-3, hi=3)
  h.append(1)
  write(w, h, h.mk.many(2))


def odd_keys(w):
  """Keys at the edges of their type."""
  kind = w.choose("kind", list(ODD))
  spec = Spec([("v", "int"), ("k", kind), ("rid", "int")], ["k"])
  h = Hist(w, spec, layout="files", fixed={"v": lambda i: i})
  h.append_rows([h.mk.one(k=k) for k in ODD[kind][::2]])
  h.append_rows([h.mk.one(k=k) for k in ODD[kind][1::4]])
  write(w, h, [h.mk.one() if w.flag("any") else
               h.mk.one(k=w.choose("c", ODD[kind]))])


def kinds(w):
  kind = w.choose("kind", [
      "int32", "float", "float32", "str", "bin", "bool"])
  spec = Spec([("v", "int"), ("k", kind), ("rid", "int")], ["k"])
  h = Hist(w, spec, layout="files", fixed={"v": lambda i: i})
  h.append(1, 1)
  write(w, h, h.mk.many(1))


REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("s", "bin"),
            ("rid", "int")], ["k"], ["r", "s"])


def records(w):
  h = Hist(w, REC, layout=w.choose("layout", ["one", "files"]),
           fixed={
               "r": lambda i: b"r%d" % i,
               "s": lambda i: b"s%d" % (3 * i),
               "v": lambda i: i
           })
  h.append(2)
  write(w, h, h.mk.many(2), "upsert")
  write(w, h, h.mk.many(1))


def after_delete(w):
  """A deleted key may be inserted again."""
  h = Hist(w, KV, layout=w.choose("layout", ["one", "files"]),
           fixed={"v": lambda i: i})
  h.append(2)
  h.delete(Cmp(Fld("k"), "<", w.int("d", -40, 40)))
  write(w, h, h.mk.many(1))


def duplicated_stored(w):
  """append does not enforce keys: upsert replaces all rows with the key."""
  h = Hist(w, KV, layout="files", fixed={"v": lambda i: i}, lo=0, hi=3)
  h.append(2, 2)
  write(w, h, h.mk.many(1))


def dict_input(w):
  h = Hist(w, KV, fixed={"v": lambda i: i})
  h.append(2)
  n = h.mk.many(1)
  hit = [r for r in h.rows if r["k"] == n[0]["k"]]
  d = {k: [r[k] for r in n] for k in KV.names}
  if w.flag("upsert"):
    ok(w, h.runner().upsert(d), "upsert")
    h.rows = [r for r in h.rows if r not in hit] + n
  else:
    ok(w, h.runner().insert(d), "insert", (FAILED,) if hit else (OK,))
    h.rows = h.rows + ([] if hit else n)
  settle(w, h, "read")


def on_branch(w):
  """Only the rows of the current branch count."""
  h = Hist(w, KV, layout="files", fixed={"v": lambda i: i})
  h.append(1)
  main = list(h.rows)
  h.ds.add_branch("b")
  h.ds.set_current_branch("b")
  h.append(1)
  n = h.mk.many(1)
  mode = w.choose("mode", ["insert", "upsert"])
  (h.insert if mode == "insert" else h.upsert)(n)
  same(w, read_rows(h.ds), h.rows, "branch after " + mode)
  h.ds.set_current_branch("main")
  same(w, read_rows(h.ds), main, "main after a write on a branch")
  h.rows = main
  h.insert(h.mk.many(1))
  same(w, read_rows(h.ds), h.rows, "main after insert")


def thresholds(w):
  """Row group and file thresholds of the rewritten files."""
  h = Hist(w, KV, layout=options(w.int("rg", 0, 150), w.int("fl", 0, 150)),
           fixed={"v": lambda i: i, "k": lambda i: 10 * i})
  h.append(2, 2)
  n = h.mk.many(1, k=w.int("x", -5, 35)) + h.mk.many(1, k=w.int("y", -5, 35))
  write(w, h, n, "upsert")


def many(w):
  """Many rows at once."""
  h = Hist(w, KV, layout=w.choose("layout", ["one", "files"]),
           fixed={"v": lambda i: i})
  h.append_rows(h.mk.many(1) + [h.mk.one(k=k) for k in (3, 100)])
  rows = [h.mk.one(k=2 * i) for i in range(21)] + h.mk.many(1)
  w.distinct([(r["k"],) for r in rows])
  write(w, h, rows)


def big(w):
  """Dozens of keys into hundreds of rows."""
  large.upserts(w)


BOUNDS += large.BOUND
SCENARIOS = [
    ("many", many),
    ("basic", basic, ("quick", "thorough"), COVER),
    ("two_rows", two_rows, ("quick", "thorough"), COVER),
    ("manifests", manifests, ("quick", "thorough"), COVER),
    ("into_empty", into_empty),
    ("sequence", sequence),
    ("composite", composite, ("quick", "thorough"), COVER),
    ("composite_two", composite_two),
    ("kinds", kinds),
    ("odd_keys", odd_keys),
    ("records", records),
    ("after_delete", after_delete),
    ("duplicated_stored", duplicated_stored),
    ("dict_input", dict_input),
    ("on_branch", on_branch),
    ("thresholds", thresholds),
    ("big", big),
]
