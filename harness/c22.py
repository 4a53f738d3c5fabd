"""C22: distributed read returns every row exactly once."""
from harness.rayh import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "2 to 5 rows over up to 4 files and 3 row groups, any batch size from 1 to"
    " 4 or none, parallelism 1 to 3, row range blocks on and off, every"
    " comparison and pairs of them as filter, projections with the fields in"
    " any order, reference reads, older versions, branches and tags")
BUDGET = {"quick": 150, "thorough": 600}
ASSUMPTIONS = RAY_ASSUMPTIONS + [
    "the dataset has at least one data file to read (Ray's behaviour without"
    " any read task is not known here)"
]


def ropts(w):
  return RayOptions(max_parallelism=w.choose("par", [1, 3]),
                    enable_row_range_block=w.flag("range blocks"))


def ray_read(w, ds, ro, batch=None, **k):
  out = []
  for t in ds.ray(ro).read(batch_size=batch, **k):
    if batch:
      w.check(t.num_rows <= batch, "batch larger than asked")
    out += typed(ds, t).to_pylist()
  return out


SHAPES = [[[2, 1]], [[1], [2]], [[3], [1]], [[1, 1, 1]]]


def made(w, spec, few=False, **k):
  """A dataset of several files, written locally."""
  few = few and w.tier == "quick"
  h = Hist(w, spec, layout=w.choose("layout", ["files", "groups"]), **k)
  shape = w.choose("shape", SHAPES[:2] if few else SHAPES)
  for sizes in shape:
    h.append(*sizes)
  return h


def plain(w):
  h = made(w, KV)
  ro = ropts(w)
  b = w.choose("batch", [None, 1, 2, 3, 4])
  got = ray_read(w, h.ds, ro, b)
  same(w, got, h.rows, "Ray read")
  same(w, rows_of(h.ds.ray(ro).read_all(batch_size=b)), h.rows, "Ray read_all")


def filtered(w):
  h = made(w, KV, few=True, fixed={"v": lambda i: i % 2}, nullable=())
  ro = ropts(w)
  b = w.choose("batch", [None, 2] if w.tier == "quick" else [None, 1, 2])
  cond = Cmp(Fld("k"), w.choose("op", list(OPS)), w.int("c", -40, 40))
  how = w.choose("how", ["k", "and", "or"])
  if how == "and":
    cond = cond & Cmp(Fld("v"), "==", 1)
  elif how == "or":
    cond = cond | Cmp(Fld("v"), "==", 1)
  yes, _ = split(h.rows, cond)
  w.assume(len(list(h.ds.storage.data_files(cond.expr()).index_files)) > 0)
  same(w, ray_read(w, h.ds, ro, b, filter_=cond.expr()), yes, "filtered")


def records(w):
  """Record fields, projections and reference reads."""
  h = made(w, REC, fixed={"v": lambda i: i, "r": lambda i: b"r%d" % i})
  ro = ropts(w)
  b = w.choose("batch", [None, 1, 2])
  fields = w.choose("fields", [None, ["rid", "r"], ["r", "k", "rid"],
                               ["k", "rid"]])
  ref = w.flag("reference")
  got = ray_read(w, h.ds, ro, b, fields=fields, reference_read=ref)
  names = fields or REC.names
  if got:
    w.check(sorted(got[0]) == sorted(names), "columns")
  want = rows_of(h.ds.local().read_all(fields=fields, reference_read=ref))
  same(w, got, want, "Ray read against local read")
  if not ref:
    same(w, got, [{n: r[n] for n in names} for r in h.rows], "Ray read")


def versions(w):
  """Older snapshots, tags, branches, and after deletes."""
  h = made(w, KV, few=True, fixed={"v": lambda i: i})
  ro = ropts(w)
  b = w.choose("batch", [None, 2])
  first, rows = h.head(), list(h.rows)
  h.ds.add_tag("t")
  if w.flag("on branch"):
    h.ds.add_branch("b")
    h.ds.set_current_branch("b")
  h.step(["delete", "upsert", "append"])
  if h.rows:
    same(w, ray_read(w, h.ds, ro, b), h.rows, "current")
  same(w, ray_read(w, h.ds, ro, b, version=first), rows, "by snapshot")
  same(w, ray_read(w, h.ds, ro, b, version="t"), rows, "by tag")
  # Ray itself may refuse to read no file at all.
  try:
    none = ray_read(w, h.ds, ro, b, version=0)
  except Exception:  # pylint: disable=broad-except
    none = []
  w.check(not none, "rows of the empty snapshot")


def stale(w):
  """A handle that has not seen the last commit."""
  h = made(w, KV, few=True, fixed={"v": lambda i: i})
  ro = ropts(w)
  other = reopen(h.ds)
  h.step(["delete", "append", "upsert"])
  w.assume(bool(h.rows))
  same(w, ray_read(w, other, ro, w.choose("batch", [None, 1])), h.rows,
       "read by the other handle")


def loaded(w):
  """Files taken over by append_parquet, of several row groups."""
  h = Hist(w, KV, fixed={"v": lambda i: i})
  rows = h.mk.many(4)
  d = w.dir("ext")
  os.makedirs(d)
  wr = pq.ParquetWriter(d + "/a", KV.schema)
  for part in (rows[:1], rows[1:3]):
    wr.write_table(KV.table(part))
  wr.close()
  pq.write_table(KV.table(rows[3:]), d + "/b")
  ok(w, h.ds.local().append_parquet(d + "/*"), "append_parquet")
  h.rows = rows
  ro = ropts(w)
  b = w.choose("batch", [None, 1, 2])
  if w.flag("delete"):
    h.delete(Cmp(Fld("k"), "<", w.int("d", -40, 40)))
    w.assume(bool(h.rows))
  same(w, ray_read(w, h.ds, ro, b), h.rows, "Ray read")


def big(w):
  """Hundreds of rows in two dozen files."""
  h = large.filled(w, per=w.choose("per", [11, 132]), n=264)
  ro = RayOptions(max_parallelism=w.choose("par", [1, 8]),
                  enable_row_range_block=w.flag("range blocks"))
  b = w.choose("batch", [None, 7, 11, 100])
  same(w, ray_read(w, h.ds, ro, b), h.rows, "Ray read")
  c = large.cut(w)
  same(w, ray_read(w, h.ds, ro, b, filter_=pc.field("k") >= c),
       [r for r in h.rows if r["k"] >= c], "filtered")


BOUNDS += large.BOUND
SCENARIOS = [
    ("plain", plain),
    ("filtered", filtered),
    ("records", records),
    ("versions", versions),
    ("stale", stale),
    ("loaded", loaded),
    ("big", big),
]
