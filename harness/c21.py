"""C21: distributed append writes every row exactly once."""
from harness.rayh import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "0 to 5 rows (0 to 9 in the thorough tier) in one table (5 input forms) or"
    " up to 3 sources of up to 2 chunks, parallelism 1 to 4, 3 file layouts and"
    " symbolic size limits, with and without record fields and NULLs, repeated"
    " appends, a failing source")
ASSUMPTIONS = RAY_ASSUMPTIONS


def judge(w, h):
  h.judge("local read")
  h.judge("fresh load", reopen(h.ds))
  r = read_rows(h.ds)
  n = h.ds.storage.snapshot().storage_statistics.num_rows
  w.check(n == len(h.rows), f"num_rows {n} of {len(r)} rows", "num_rows")
  es = [e["_FILE"] for e in index_entries(h.ds)]
  w.check(len(es) == len(set(es)), "file listed twice")


def table(w):
  """One table split over the actors."""
  par = w.choose("par", [1, 2, 3, 4])
  n = w.choose("n", list(range(0, 10 if w.tier == "thorough" else 6)))
  h = RayHist(w, KV, layout=w.choose("layout", ["one", "files"]), par=par)
  if w.flag("before"):
    h.append_rows(h.new(1))
  h.append_rows(h.new(n))
  judge(w, h)


def forms(w):
  """Chunked, sliced and reordered tables; dictionaries; records and NULLs."""
  par = w.choose("par", [1, 2, 3])
  spec = w.choose("spec", [KV, REC])
  h = RayHist(w, spec, par=par, layout=w.choose("layout", ["one", "groups"]),
              fixed={"r": lambda i: b"r%d" % i}, nullable=["v"])
  rows = h.new(3)
  form = w.choose("form", FORMS)
  if form == "dict":
    # Types of a dictionary are inferred from its values.
    w.assume(all(r["v"] is not None for r in rows))
  data = formed(w, spec, rows, form)
  ok(w, h.runner().append(data), f"append {form}")
  h.rows = rows
  judge(w, h)


def sources(w):
  """Several sources, more or fewer than actors."""
  par = w.choose("par", [1, 2, 3])
  spec = w.choose("spec", [KV, REC])
  h = RayHist(w, spec, par=par, layout=w.choose("layout", ["one", "files"]),
              fixed=FIX)
  shape = w.choose("shape", [[[1]], [[1], [2]], [[1], [1], [1]], [[], [2]],
                             [[1, 1], [1]], [[0], [1, 2], [0, 1]]])
  parts = [[h.new(n) for n in s] for s in shape]

  def fn(chunks):
    return lambda: iter([spec.table(c) for c in chunks])

  fns = [fn(p_) for p_ in parts]
  if len(fns) == 1 and w.flag("single"):
    fns = fns[0]
  r = h.runner().append_from(fns)
  ok(w, r, "append_from")
  h.rows = [r for p_ in parts for c in p_ for r in c]
  judge(w, h)
  h.append_rows(h.new(2))
  judge(w, h)


def limits(w):
  """Any size limits of row groups, index and record files."""
  par = w.choose("par", [1, 2])
  h = RayHist(w, REC, par=par, fixed=FIX,
              layout=options(w.int("rg", 0, 300), w.int("fl", 0, 300),
                             w.int("rec", 0, 30)))
  h.append_rows(h.new(3))
  judge(w, h)


def failing(w):
  """A failing source: nothing is stored, and later appends work."""
  par = w.choose("par", [1, 2])
  h = RayHist(w, REC, par=par, fixed=FIX, layout="files")
  h.append_rows(h.new(1))
  bad = w.choose("bad", [0, 1])
  at = w.choose("at", [0, 1])

  def fn(i):

    def it():
      for j in range(2):
        if i == bad and j == at:
          raise errors.UserInputError("bad source")
        yield REC.table(h.mk.many(1))

    return it

  before = h.head()
  try:
    r = h.runner().append_from([fn(0), fn(1)])
    w.check(r.state == FAILED, "append of a failing source")
  except errors.UserInputError:
    pass
  w.check(reopen(h.ds).storage.snapshot().snapshot_id == before,
          "snapshot of a failed append")
  judge(w, h)
  h.append_rows(h.new(2))
  judge(w, h)


def big(w):
  """Hundreds of rows on eight actors; many sources."""
  h = large.appended(w, RayHist, par=w.choose("par", [7, 8, 64]))
  judge(w, h)


def many_sources(w):
  par = w.choose("par", [1, 4, 10])
  h = RayHist(w, REC, par=par, layout="files", fixed=FIX)
  n = w.choose("n", [9, 11, 20])
  parts = [h.new(1 + i % 2) for i in range(n)]

  def fn(rows):
    return lambda: iter([REC.table([r]) for r in rows])

  ok(w, h.runner().append_from([fn(x) for x in parts]), "append_from")
  h.rows = [r for x in parts for r in x]
  judge(w, h)


BOUNDS += large.BOUND
SCENARIOS = [
    ("table", table),
    ("forms", forms),
    ("sources", sources),
    ("limits", limits),
    ("failing", failing),
    ("big", big),
    ("many_sources", many_sources),
]
