"""C19: random access returns the same records as reading."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

from space.core.random_access import RandomAccessDataSource

BOUNDS = (
    "up to 7 rows over up to 5 record files, up to 2 record fields, histories of"
    " up to 3 operations, all patterns of surviving rows; all index lists of"
    " length 2 and all single indexes; given addresses of any subset, repeated"
    " and reordered; storages given by handle, by location and on a branch")
ASSUMPTIONS = [
    "deserialization is decided in C28; here elements are the stored bytes",
    "the data source's thread pool is run sequentially",
    "the order of groups of a threaded Arrow group_by is not specified; the"
    " elements of the ArrayRecord data source are compared as a bag",
]
R1 = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
          ["r"])
R2 = Spec([("r", "bin"), ("k", "int"), ("v", "int"), ("s", "bin"),
           ("rid", "int")], ["k"], ["r", "s"])
FIX = {"v": lambda i: i, "r": lambda i: b"r%d" % i,
       "s": lambda i: b"s" * (i % 3) + b"%d" % i}
LAY = ["one", "groups", options(0, 0, 0), options(0, 1 << 40, 4)]


def values(w, got, want, what, ordered):
  if not ordered:
    got, want = sorted(got), sorted(want)
  w.check(got == want, f"{what}: {got}, expected {want}",
          f"{what}: wrong elements")


def judge(w, src, want, ordered, get=lambda x: x):
  """Elements by len, iteration, index and list of indexes."""
  n = len(want)
  w.check(len(src) == n, f"length {len(src)}, expected {n}", "wrong length")
  if len(src) != n:
    return
  its = [get(x) for x in src]
  values(w, its, want, "iteration", ordered)
  one = [get(src[i]) for i in range(n)]
  w.check(one == its, f"by index {one}, by iteration {its}",
          "elements by index differ from iteration")
  w.observe("elements", its if ordered else sorted(its))
  return its


def lists(w, src, its, cols=None):
  n = len(its)
  for i in range(n):
    for j in range(n):
      for what, got in (("list", src[[i, j]]), ("getitems",
                                                src.__getitems__([j, i, i]))):
        want = [its[i], its[j]] if what == "list" else [its[j], its[i], its[i]]
        if cols:
          got = [
              tuple(got[c][x] for c in cols) for x in range(len(got[cols[0]]))
          ]
        w.check(list(got) == want, f"{what} of indexes {got}, expected {want}",
                "elements by a list of indexes")


def source(w, ds, fields, **k):
  if w.choose("given", ["storage", "location"]) == "storage":
    return RandomAccessDataSource({f: ds.storage for f in fields}, **k)
  return RandomAccessDataSource({f: ds.storage.location for f in fields}, **k)


def history(w):
  """Survivors of deletes and upserts, both data sources."""
  h = Hist(w, R1, layout=w.choose("layout", LAY), fixed=FIX)
  h.append(2, 2 if w.tier == "thorough" else 1)
  h.step(["append", "delete", "upsert"], "1")
  h.step(["delete", "delv"], "2")
  arr = w.flag("array_record")
  if not h.rows:
    w.check(w.raises(errors.UserInputError, source, w, h.ds, ["r"]),
            "no data")
    return
  src = source(w, h.ds, ["r"], use_array_record_data_source=arr)
  want = [r["r"] for r in read_rows(h.ds)]
  values(w, want, [r["r"] for r in h.rows], "read", False)
  its = judge(w, src, want, not arr)
  if its:
    lists(w, src, its)


def survivors(w):
  """Every pattern of surviving rows of one file."""
  n = 6
  h = Hist(w, R1, layout=w.choose("layout", ["one", options(0, 0, 16)]),
           fixed=dict(FIX, k=lambda i: i))
  h.append(4, 2)
  gone = [w.bool(f"gone{i}") for i in range(n)]
  gone = [i for i in range(n) if bool(gone[i])]
  if not gone or len(gone) == n:
    return
  ok(w, h.ds.local().delete(IsIn("k", gone).expr()), "delete")
  h.rows = [r for r in h.rows if r["k"] not in gone]
  arr = w.flag("array_record")
  src = source(w, h.ds, ["r"], use_array_record_data_source=arr)
  judge(w, src, [r["r"] for r in read_rows(h.ds)], not arr)
  values(w, list(src), [r["r"] for r in h.rows], "elements", False)


def two_fields(w):
  h = Hist(w, R2, layout=w.choose("layout", LAY), fixed=FIX)
  h.append(2, 2)
  h.step(["append", "delete", "upsert"], "1")
  if not h.rows:
    return
  fields = w.choose("fields", [["r", "s"], ["s", "r"], ["s"]])
  src = source(w, h.ds, fields, use_array_record_data_source=False)
  rows = read_rows(h.ds)
  if len(fields) == 1:
    its = judge(w, src, [r["s"] for r in rows], True)
    lists(w, src, its)
    return
  its = judge(w, src, [tuple(r[f] for f in fields) for r in rows], True,
              lambda x: tuple(x[f] for f in fields))
  if its:
    lists(w, src, its, fields)


def symbolic(w):
  """Symbolic record values."""
  h = Hist(w, R1, layout=w.choose("layout", LAY), fixed={"v": FIX["v"]})
  h.append(2, 1)
  h.step(["upsert", "delete"], "1")
  if not h.rows:
    return
  rows = read_rows(h.ds)
  src = source(w, h.ds, ["r"], use_array_record_data_source=False)
  w.check(len(src) == len(rows), "length")
  w.check(L.And([L.Eq(a, b["r"]) for a, b in zip(list(src), rows)]),
          "elements in address order")
  src = source(w, h.ds, ["r"])
  w.check(len(src) == len(rows), "length")
  w.check(multiset_eq([{"r": x} for x in src], h.rows, ["r"]), "elements")


def addresses(w):
  """Given addresses, including repeated ones."""
  h = Hist(w, R1, layout=w.choose("layout", ["one", options(0, 0, 0),
                                             options(0, 1 << 40, 4)]),
           fixed=dict(FIX, k=lambda i: i))
  h.append(3, 2)
  s = h.ds.storage
  t = h.ds.local().read_all(fields=["r"], reference_read=True)
  pick = [w.choose(f"p{i}", list(range(5))) for i in range(3)]
  t = t.take(pick)
  arr = w.flag("array_record")
  src = RandomAccessDataSource({"r": s}, addresses=t,
                               use_array_record_data_source=arr)
  want = [h.rows[i]["r"] for i in pick]
  judge(w, src, want, not arr)


def branch(w):
  h = Hist(w, R1, fixed=FIX)
  h.append(2)
  main = list(h.rows)
  h.ds.add_branch("b")
  h.ds.set_current_branch("b")
  h.step(["append", "delete", "upsert"], "1")
  arr = w.flag("array_record")
  if h.rows:
    src = RandomAccessDataSource({"r": h.ds.storage},
                                 use_array_record_data_source=arr)
    values(w, list(src), [r["r"] for r in h.rows], "elements on a branch",
           False)
  src = RandomAccessDataSource({"r": h.ds.storage.location},
                               use_array_record_data_source=arr)
  values(w, list(src), [r["r"] for r in main], "elements on main", False)


def big(w):
  """Hundreds of records in one or many files."""
  h = large.appended(w)
  if w.flag("delete"):
    h.delete(Cmp(Fld("k"), "<", 130))
  arr = w.flag("array_record")
  src = source(w, h.ds, ["r"], use_array_record_data_source=arr)
  want = [r["r"] for r in read_rows(h.ds)]
  its = judge(w, src, want, not arr)
  if its:
    n = len(its)
    idx = [(i * 37 + 5) % n for i in range(n)] + [0, n - 1, 0]
    w.check(list(src.__getitems__(idx)) == [its[i] for i in idx],
            "elements by a long list of indexes")


BOUNDS += large.BOUND
SCENARIOS = [
    ("history", history),
    ("survivors", survivors),
    ("two_fields", two_fields),
    ("symbolic", symbolic),
    ("addresses", addresses),
    ("branch", branch),
    ("big", big),
]
