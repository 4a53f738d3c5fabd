"""C24: the distributed change feed equals the local one."""
from harness.rayh import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "histories of up to 4 commits on 2 to 5 rows over several files, deletes of"
    " part of a file, upserts; parallelism 1 to 4, batch size none or 1 to 3,"
    " row range blocks on and off; every pair of snapshots; record fields,"
    " composite keys, branches, taken over Parquet files, up to 7 changed files"
    " in one commit, a handle older than the commits")
BUDGET = {"quick": 150, "thorough": 600}
ASSUMPTIONS = RAY_ASSUMPTIONS + [
    "primary keys of stored rows are distinct and not NULL"
]


def collect(w, changes, batch=None):
  out, order = {}, []
  for c in changes:
    if batch:
      w.check(c.data.num_rows <= batch, "batch larger than asked")
    key = (c.snapshot_id, c.type_.name)
    if rows_of(c.data):
      if key not in out:
        order.append(key)
      out.setdefault(key, []).extend(rows_of(c.data))
  return out, order


def judge(w, h, a, b, deltas=None):
  w.assume(a < b)
  full = w.tier == "thorough"
  ro = RayOptions(max_parallelism=w.choose("par", [1, 2, 4] if full else [1, 3]),
                  enable_row_range_block=w.flag("range blocks"))
  n = w.choose("batch", [None, 1, 2, 3] if full else [None, 1, 2])
  compare(w, h, a, b, ro, n, deltas)


def compare(w, h, a, b, ro, n, deltas=None):
  got, order = collect(w, h.ds.ray(ro).diff(a, b, batch_size=n),
                       n if ro.enable_row_range_block else None)
  want, worder = collect(w, h.ds.local().diff(a, b, batch_size=n))
  w.check(order == worder, f"changes {order}, local ones {worder}",
          "order of changes")
  deltas = h.deltas if deltas is None else deltas
  ref = {}
  for sid, gone, new in deltas:
    if a < sid <= b:
      if gone:
        ref[(sid, "DELETE")] = gone
      if new:
        ref[(sid, "ADD")] = new
  w.check(set(got) == set(ref), f"changes {sorted(got)}, made {sorted(ref)}",
          "changes listed")
  for k, rows in ref.items():
    if k not in got:
      continue
    if k[1] == "ADD":
      same(w, got[k], rows, f"rows added by {k[0]}", sig="rows added")
    else:
      w.check(all(set(r) == set(h.spec.pks) for r in got[k]), "keys only")
      w.check(multiset_eq(got[k], rows, h.spec.pks), "keys deleted")
    if k in want:
      w.check(len(want[k]) == len(got[k]), "number of local changes")


def history(w):
  h = Hist(w, KV, layout=w.choose("layout", ["one", "files"]), fixed=FIX,
           distinct=True)
  h.append(2, 1)
  h.step(["delete", "upsert"], "a")
  judge(w, h, w.choose("start", [0, 1]), h.head())


def longer(w):
  """Three changes, every pair of snapshots; few reader settings."""
  h = Hist(w, KV, layout="groups", fixed=FIX, distinct=True)
  h.append(2, 1)
  h.delete(Cmp(Fld("v"), "<", w.choose("c", [1, 2])))
  h.step(["append2", "upsert", "delete"], "b")
  h.delete(Cmp(Fld("v"), "==", w.choose("d", [2, 3, 4])))
  last = h.head()
  a = w.choose("a", list(range(0, last)))
  b = w.choose("b", list(range(a + 1, last + 1)))
  ro = RayOptions(max_parallelism=2,
                  enable_row_range_block=w.flag("range blocks"))
  compare(w, h, a, b, ro, w.choose("batch", [None, 2]))


def partly(w):
  """Any subset of the rows of one file is deleted."""
  h = Hist(w, KV, layout="one", fixed={"v": lambda i: i}, lo=0, hi=9)
  n = 5 if w.tier == "thorough" else 4
  h.append_rows([h.mk.one(k=w.int(f"k{i}", 0, 9)) for i in range(n)])
  base = h.head()
  h.delete(Cmp(Fld("k"), "<", 5))
  w.assume(h.head() != base)
  judge(w, h, base, h.head())


def by_ray(w):
  """Commits made by the Ray runner."""
  h = RayHist(w, KV, par=w.choose("wpar", [1, 2, 3]), layout="files",
              fixed=FIX, distinct=True)
  h.append_rows(h.new(3))
  h.step(["delete", "upsert", "append"])
  judge(w, h, 0, h.head())


def records(w):
  h = Hist(w, REC, layout=options(0, 1 << 40, 0), fixed=FIX, distinct=True)
  h.append(2)
  h.append(1, 1)
  h.step(["delete", "upsert"])
  judge(w, h, w.choose("a", [0, 1, 2]) if h.head() > 2 else 0, h.head())


def composite(w):
  spec = Spec([("v", "int"), ("s", "str"), ("k", "int"), ("rid", "int")],
              ["k", "s"])
  h = Hist(w, spec, layout="one", fixed=FIX, distinct=True)
  h.append(3)
  h.delete(Cmp(Fld("s"), "<", w.str_("c")))
  w.assume(h.head() == 2)
  judge(w, h, 1, 2)


def branch(w):
  h = Hist(w, KV, layout="one", fixed=FIX, distinct=True)
  h.append(2)
  h.ds.add_tag("t")
  h.ds.add_branch("b")
  h.ds.set_current_branch("b")
  h.step(["delete", "upsert", "append"])
  w.assume(h.head() != 1)
  n = w.choose("batch", [None, 1])
  compare(w, h, 0, h.head(), RayOptions(max_parallelism=2), n)
  got, _ = collect(w, h.ds.ray(RayOptions(max_parallelism=2)).diff(
      "t", h.head(), batch_size=n))
  w.check(set(k[0] for k in got) == {h.head()}, "from a tag")
  # Not an ancestor, or not before.
  for a, b in [(h.head(), 1), (1, 1), (h.head(), h.head())]:
    w.check(
        w.raises((errors.UserInputError, errors.VersionNotFoundError),
                 lambda a=a, b=b: list(h.ds.ray().diff(a, b))),
        f"diff({a}, {b}) must be refused", "refused")


def stale(w):
  h = Hist(w, KV, layout="files", fixed=FIX, distinct=True)
  h.append(2)
  other = reopen(h.ds)
  h.step(["delete", "upsert", "append"])
  w.assume(h.head() == 2)
  h.ds = other
  compare(w, h, 0, 2, RayOptions(max_parallelism=2),
          w.choose("batch", [None, 1]))


def loaded(w):
  h = Hist(w, KV, layout="files", fixed=FIX, distinct=True)
  rows = h.new(3)
  d = w.dir("ext")
  os.makedirs(d)
  for i, part in enumerate([rows[:2], rows[2:]]):
    pq.write_table(KV.table(part), f"{d}/x{i}")
  r = h.ds.local().append_parquet(d + "/*")
  ok(w, r, "append_parquet")
  h.rows = rows
  h._done(r, [], rows)
  h.step(["delete", "upsert"])
  judge(w, h, 0, h.head())


def older_format(w):
  """Change logs written before they had the number of rows of a file."""
  from space.core.fs.factory import create_fs
  from space.core.proto import metadata_pb2 as meta
  h = Hist(w, KV, layout=w.choose("layout", ["one", "files"]), fixed=FIX,
           distinct=True)
  h.append(2)
  h.step(["delete", "upsert"])
  fs = create_fs(h.ds.storage.location)
  for sid in h.ds.storage.snapshot_ids:
    f = h.ds.storage.snapshot(sid).change_log_file
    if f:
      f = h.ds.storage.full_path(f)
      log = fs.read_proto(f, meta.ChangeLog())
      for rows in list(log.added_rows) + list(log.deleted_rows):
        rows.ClearField("num_rows")
      fs.write_proto(f, log)
  ro = RayOptions(max_parallelism=2,
                  enable_row_range_block=w.flag("range blocks"))
  compare(w, h, 0, h.head(), ro, None)


def many_files(w):
  """More changed files than read streams, in any proportion."""
  h = Hist(w, KV, layout=options(0, 0), fixed=FIX, distinct=True)
  n = w.choose("files", [3, 4, 5, 7])
  rows = [h.mk.one(k=i) for i in range(n - 1)] + h.new(1)
  r = h.ds.local(options(0, 0)).append_from(
      lambda: iter([KV.table([x]) for x in rows]))
  ok(w, r, "append")
  h.rows = rows
  h._done(r, [], rows)
  if w.flag("gone"):
    h.delete(Cmp(Fld("k"), ">=", w.choose("c", [0, 1])))
  ro = RayOptions(max_parallelism=w.choose("par", [2, 3, 4]),
                  enable_row_range_block=w.flag("range blocks"))
  compare(w, h, 0, h.head(), ro, None)


def big(w):
  """A line of commits, one of them of two dozen files."""
  h = Hist(w, KV, layout="files", fixed=large.LFIX)
  h.append(*([11] * 24))
  h.delete(Cmp(Fld("k"), ">=", large.cut(w)))
  for i in range(6):
    h.append(2, 1)
  ids = [0] + [d[0] for d in h.deltas]
  a, b = w.choose("span", [(0, -1), (1, 2), (3, -1)])
  ro = RayOptions(max_parallelism=w.choose("par", [2, 7, 30]),
                  enable_row_range_block=w.flag("range blocks"))
  compare(w, h, ids[a], ids[b], ro, w.choose("batch", [None, 5, 11]))


BOUNDS += large.BOUND
SCENARIOS = [
    ("history", history),
    ("longer", longer),
    ("partly", partly),
    ("by_ray", by_ray),
    ("records", records),
    ("composite", composite),
    ("branch", branch),
    ("stale", stale),
    ("loaded", loaded),
    ("older_format", older_format),
    ("many_files", many_files),
    ("big", big),
]
