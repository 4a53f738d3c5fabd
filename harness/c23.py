"""C23: distributed delete, insert and upsert match the local ones."""
from harness.rayh import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "2 to 5 rows spread over up to 3 files, row groups and manifests (written"
    " locally, by Ray or taken over); parallelism 1 to 3; one and two deletes,"
    " inserts and upserts of 1 to 3 rows with symbolic keys (existing, new and"
    " repeated ones), composite keys, record fields, NULLs, branches; the same"
    " operation by the local runner on a copy")
BUDGET = {"quick": 150, "thorough": 600}
ASSUMPTIONS = RAY_ASSUMPTIONS


def judge(w, h, deltas_from=None, on_branch=False):
  h.judge("read")
  if not on_branch:
    h.judge("fresh load", reopen(h.ds))
  es = index_entries(h.ds)
  files = [e["_FILE"] for e in es]
  w.check(len(files) == len(set(files)), "data file listed twice")
  s = h.ds.storage.snapshot()
  w.check(s.storage_statistics.num_rows == len(h.rows), "num_rows statistics")
  ms = list(s.manifest_files.index_manifest_files)
  w.check(len(ms) == len(set(ms)), "manifest listed twice")
  if deltas_from is not None and h.head() != deltas_from:
    feed(w, h, deltas_from)


def feed(w, h, base):
  got = {}
  for c in h.ds.local().diff(base, h.head()):
    got.setdefault((c.snapshot_id, c.type_.name), []).extend(rows_of(c.data))
  for sid, gone, new in h.deltas:
    if sid <= base:
      continue
    g = got.get((sid, "DELETE"), [])
    w.check(multiset_eq(g, gone, h.spec.pks), "deleted keys of the change feed",
            "change feed")
    same(w, got.get((sid, "ADD"), []), new, "added rows of the change feed",
         sig="change feed")


def setup(w, spec=KV, par=None, shapes=None, **k):
  """Rows over several files of one or several manifests."""
  par = par or w.choose("par", [1, 3])
  h = RayHist(w, spec, par=par, **k)
  shape = w.choose("shape", shapes or [[[1, 1]], [[2], [1]], [[1, 1], [1]]])
  for sizes in shape:
    locally(h, h.append, *sizes)
  return h


def delete(w):
  h = setup(w, layout=w.choose("layout", ["files", "one"]), fixed=FIX,
            shapes=[[[1, 1]], [[1, 2]], [[2], [1]], [[1, 1], [1]]])
  base = h.head()
  h.delete(Cmp(Fld("k"), w.choose("op", ["<", ">=", "==", "!="]),
               w.int("c", -40, 40)))
  judge(w, h, base)


def delete_twice(w):
  h = setup(w, layout="files", fixed=FIX, par=2,
            shapes=[[[1, 2]], [[1, 1], [1]]])
  base = h.head()
  h.delete(Cmp(Fld("k"), "<", w.int("c", -40, 40)))
  h.delete(Cmp(Fld("v"), w.choose("op", ["==", ">"]), w.choose("d", [0, 1, 2])))
  judge(w, h, base)


def delete_null(w):
  """NULLs, conjunctions, record fields."""
  spec = Spec([("k", "int"), ("v", "int"), ("r", "bin"), ("rid", "int")],
              ["k"], ["r"])
  h = setup(w, spec, layout="files", nullable=["v"],
            fixed={"r": FIX["r"]}, par=2, shapes=[[[1, 1]], [[2], [1]]])
  base = h.head()
  a = Cmp(Fld("v"), "<", w.int("c", -40, 40))
  b = Cmp(Fld("k"), "==", w.int("d", -40, 40))
  h.delete(w.choose("how", [a, a & b, a | b]))
  judge(w, h, base)


def written(w):
  """Files written by Ray itself, then delete."""
  par = w.choose("par", [1, 2, 3])
  h = RayHist(w, KV, par=par, fixed=FIX,
              layout=w.choose("layout", ["files", "one"]))
  h.append_rows(h.new(w.choose("n", [1, 3, 4])))
  if w.flag("more"):
    h.append(1, 1)
  base = h.head()
  h.delete(Cmp(Fld("k"), "<", w.int("c", -40, 40)))
  judge(w, h, base)


def loaded(w):
  """One manifest listing several external files."""
  h = RayHist(w, KV, par=2, fixed=FIX, layout="files")
  rows = h.mk.many(3)
  d = w.dir("ext")
  os.makedirs(d)
  for i, part in enumerate([rows[:1], rows[1:]]):
    pq.write_table(KV.table(part), f"{d}/x{i}")
  ok(w, h.ds.local().append_parquet(d + "/*"), "append_parquet")
  h.rows = h.rows + rows
  base = h.head()
  h.step(["delete", "upsert", "delv"])
  judge(w, h, base)


def insert(w):
  h = setup(w, layout="files", fixed=FIX, distinct=True)
  base = h.head()
  h.insert(h.mk.many(w.choose("n", [1, 2])))
  judge(w, h, base)


def upsert(w):
  h = setup(w, layout="files", fixed=FIX, distinct=True,
            shapes=[[[1, 1]], [[2], [1]]])
  base = h.head()
  rows = h.mk.many(w.choose("n", [1, 2]))
  w.distinct([r["k"] for r in rows])
  h.upsert(rows)
  judge(w, h, base)


def composite(w):
  spec = Spec([("s", "str"), ("v", "int"), ("k", "int"), ("r", "bin"),
               ("rid", "int")], ["k", "s"], ["r"])
  h = RayHist(w, spec, par=2, layout="files", fixed=FIX, distinct=True)
  locally(h, h.append, 1, 1)
  base = h.head()
  rows = h.mk.many(1)
  getattr(h, w.choose("op", ["insert", "upsert"]))(rows)
  h.delete(Cmp(Fld("s"), w.choose("cmp", ["==", "<"]), w.str_("c")))
  judge(w, h, base)


def branch(w):
  h = setup(w, layout="files", fixed=FIX, par=2, shapes=[[[1, 1]]],
            distinct=True)
  main = list(h.rows)
  h.ds.add_branch("b")
  h.ds.set_current_branch("b")
  h.step(["delete", "upsert", "insert", "append"])
  judge(w, h, on_branch=True)
  h.ds.set_current_branch("main")
  same(w, read_rows(h.ds), main, "main")


def stale(w):
  """A runner whose handle has not seen the last commit."""
  h = setup(w, layout="files", fixed=FIX, par=2, shapes=[[[1, 1]]],
            distinct=True)
  old = reopen(h.ds)
  locally(h, h.step, ["append", "delete"], "l")
  h.ds = old
  h.step(["delete", "upsert", "insert", "append"])
  judge(w, h)


def odd_keys(w):
  """Keys at the edges of their type."""
  kind = w.choose("kind", list(ODD))
  spec = Spec([("v", "int"), ("k", kind), ("rid", "int")], ["k"])
  h = RayHist(w, spec, par=2, layout="files", fixed={"v": lambda i: i})
  for i in range(0, len(ODD[kind]), 3):
    rows = [h.mk.one(k=k) for k in ODD[kind][i:i + 3]]
    if i < 6:
      locally(h, h.append_rows, rows)
  base = h.head()
  c = w.choose("c", ODD[kind])
  op = w.choose("op", ["delete", "insert", "upsert"])
  if op == "delete":
    h.delete(Cmp(Fld("k"), w.choose("cmp", ["==", "<"]), c))
  else:
    getattr(h, op)([h.mk.one(k=c), h.mk.one(k=ODD[kind][-1])]
                   if c != ODD[kind][-1] else [h.mk.one(k=c)])
  judge(w, h, base)


def big(w):
  """Hundreds of rows in a dozen files."""
  h = large.filled(w, cls=RayHist, par=8)
  base = h.head()
  how = w.choose("how", ["delete", "upsert", "insert"])
  if how == "delete":
    h.delete(Cmp(Fld("k"), ">=", large.cut(w)) & Cmp(Fld("v"), "!=", 3))
  else:
    x = large.cut(w, at=large.N - 2)
    rows = [h.mk.one(k=2 * large.N + i, v=100) for i in range(20)]
    rows.insert(11, h.mk.one(k=x, v=100))
    (h.upsert if how == "upsert" else h.insert)(rows)
  judge(w, h, base)


BOUNDS += large.BOUND
SCENARIOS = [
    ("odd_keys", odd_keys),
    ("delete", delete),
    ("delete_twice", delete_twice),
    ("delete_null", delete_null),
    ("written", written),
    ("loaded", loaded),
    ("insert", insert),
    ("upsert", upsert),
    ("composite", composite),
    ("branch", branch),
    ("stale", stale),
    ("big", big),
]
