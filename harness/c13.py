"""C13: snapshot statistics equal what the files contain."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

from array_record.python import array_record_module as ar

BOUNDS = (
    "histories of up to 3 append/delete/upsert/insert/append_parquet/"
    "append_array_record on 2 to 5"
    " rows over up to 3 files per commit; with and without record fields; on"
    " main and on a branch")
ASSUMPTIONS = [
    "record bytes of a snapshot count everything appended (record data is not"
    " removed by deletes)"
]
FIELDS = ("num_rows", "index_compressed_bytes", "index_uncompressed_bytes",
          "record_uncompressed_bytes")


def stats(s):
  return {f: getattr(s, f) for f in FIELDS}


def judge(w, ds, sid, rows=None, loaded=0):
  s = stats(ds.storage.snapshot(sid).storage_statistics)
  es = index_entries(ds, sid)
  w.check(s["num_rows"] == sum(e["_NUM_ROWS"] for e in es), "num_rows")
  w.check(
      s["num_rows"] == sum(index_file(ds, e["_FILE"]).num_rows for e in es),
      "num_rows against the files")
  if rows is not None:
    w.check(s["num_rows"] == len(rows), "num_rows against the rows")
  w.check(
      s["index_compressed_bytes"] == sum(
          e["_INDEX_COMPRESSED_BYTES"] for e in es), "compressed bytes")
  w.check(
      s["index_uncompressed_bytes"] == sum(
          e["_INDEX_UNCOMPRESSED_BYTES"] for e in es), "uncompressed bytes")
  rs = [r for _, x in record_manifest_rows(ds, sid) for r in x]
  w.check(
      s["record_uncompressed_bytes"] == sum(
          r["_UNCOMPRESSED_BYTES"] for r in rs) + loaded, "record bytes")
  return s


def judge_all(w, h):
  prev = None
  for sid in sorted(h.snaps):
    s = judge(w, h.ds, sid, h.snaps[sid])
    parent = h.ds.storage.snapshot(sid).parent_snapshot_id if sid else None
    if parent is not None:
      prev = stats(h.ds.storage.snapshot(parent).storage_statistics)
      r = h.by_snap.get(sid)
      if r is not None:
        w.check(
            stats(r.storage_statistics_update) == {
                f: s[f] - prev[f] for f in FIELDS
            }, "statistics returned by the job")
  return prev


class H(Hist):
  by_snap = None

  def _done(self, r, deleted, added):
    super()._done(r, deleted, added)
    if self.by_snap is None:
      self.by_snap = {}
    if r.state == OK:
      self.by_snap[self.head()] = r
    return r


REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
           ["r"])
FIX = {"v": lambda i: i, "r": lambda i: b"r" * (i + 1)}


def history(w):
  h = H(w, KV, layout=w.choose("layout", ["one", "groups", "files"]), fixed=FIX)
  h.append(2, 1)
  h.step(["append2", "delete", "upsert", "insert"])
  h.step(["append", "delete", "upsert"])
  judge_all(w, h)


def records(w):
  h = H(w, REC, layout=w.choose("layout", [
      "one", options(0, 0, 0), options(0, 1 << 40, 20)]), fixed=FIX)
  h.append(2, 1)
  h.step(["append", "delete", "upsert"])
  h.step(["append2", "delete", "delv"])
  judge_all(w, h)


def several_manifests(w):
  h = H(w, KV, layout="files", fixed=FIX)
  h.append(1, 1)
  h.append(1)
  h.step(["delete", "upsert2", "delv"])
  judge_all(w, h)


def branch(w):
  h = H(w, REC, layout="files", fixed=FIX)
  h.append(1, 1)
  main = h.head()
  h.ds.add_branch("b")
  h.ds.set_current_branch("b")
  h.step(["append", "delete", "upsert"], "b")
  on_branch = dict(h.snaps)
  judge_all(w, h)
  h.ds.set_current_branch("main")
  h.rows = h.snaps[main]
  h.snaps = {main: h.rows}
  h.step(["append", "delete"], "m")
  judge_all(w, h)
  for sid, rows in on_branch.items():
    judge(w, h.ds, sid, rows)


def two_lines(w):
  """Main and a branch commit in turn: each counts from its own parent."""
  h = H(w, KV, layout="files", fixed=FIX)
  h.append(1, 1)
  h.ds.add_branch("b")
  rows = {"b": h.rows, "main": h.rows}
  for i, b in enumerate(w.choose("order", [
      ["main", "b"], ["b", "main", "b"], ["main", "b", "b"]])):
    h.ds.set_current_branch(b)
    h.rows = rows[b]
    h.step(["append2", "delete", "upsert"] if i else ["append", "delete"],
           str(i))
    rows[b] = h.rows
  judge_all(w, h)


def parquet(w):
  h = H(w, KV, layout="files", fixed=FIX)
  if w.flag("before"):
    h.append(1)
  rows = h.mk.many(3)
  d = w.dir("ext")
  os.makedirs(d)
  for i, c in enumerate([rows[:2], rows[2:]]):
    pq.write_table(KV.table(c), os.path.join(d, f"x{i}.parquet"))
  r = h.ds.local().append_parquet(os.path.join(d, "*.parquet"))
  ok(w, r, "append_parquet")
  h.rows = h.rows + rows
  h._done(r, [], rows)
  h.step(["append", "delete", "upsert"])
  judge_all(w, h)


def record_files(w):
  """Loaded record files count by the bytes of their records."""
  h = H(w, REC, layout=w.choose("layout", ["one", options(0, 0, 0)]), fixed=FIX)
  if w.flag("before"):
    h.append(1)
  base = {sid: 0 for sid in h.snaps}
  base[0] = 0
  d = w.dir("ext")
  os.makedirs(d)
  by, rows = {}, []
  for i, n in enumerate(w.choose("sizes", [[2], [1, 2], [2, 0, 1], [1, 1]])):
    part = h.mk.many(n)
    x = ar.ArrayRecordWriter(os.path.join(d, f"{i}.array_record"), "group_size:1")
    for r in part:
      r["r"] = b"record" * (i + 1) + b"%d" % r["rid"]
      by[r["r"]] = {c: r[c] for c in ("k", "v", "rid")}
      x.write(r["r"])
    x.close()
    rows += part
  r = h.ds.local(LAYOUTS["one"]).append_array_record(
      os.path.join(d, "*.array_record"), lambda rec: by[rec["r"][0]])
  ok(w, r, "append_array_record")
  h.rows = h.rows + rows
  h._done(r, [], rows)
  total = sum(len(x["r"]) for x in rows)
  h.step(["append", "delete", "upsert"])
  for sid in sorted(h.snaps):
    s = judge(w, h.ds, sid, h.snaps[sid], 0 if sid in base else total)
    r = h.by_snap.get(sid)
    if r is not None and sid:
      prev = stats(h.ds.storage.snapshot(
          h.ds.storage.snapshot(sid).parent_snapshot_id).storage_statistics)
      w.check(stats(r.storage_statistics_update) == {
          f: s[f] - prev[f] for f in FIELDS
      }, "statistics returned by the job")


def thresholds(w):
  h = H(w, REC, layout=options(w.int("rg", 0, 300), w.int("fl", 0, 300),
                               w.int("rec", 0, 30)), fixed=FIX)
  h.append(1, 2, 1)
  h.delete(Cmp(Fld("v"), "<", w.choose("c", [1, 2])))
  judge_all(w, h)


def big(w):
  """Hundreds of rows in a dozen files; records."""
  h = large.deletes(w) if w.flag("deletes") else large.appended(w)
  for sid in sorted(h.snaps):
    judge(w, h.ds, sid, h.snaps[sid])


BOUNDS += large.BOUND
SCENARIOS = [
    ("history", history),
    ("records", records),
    ("several_manifests", several_manifests),
    ("branch", branch),
    ("two_lines", two_lines),
    ("parquet", parquet),
    ("record_files", record_files),
    ("thresholds", thresholds),
    ("big", big),
]
