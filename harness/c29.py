"""C29: every file and address referenced by a snapshot exists."""
from harness.faults import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness.rayh import *  # pylint: disable=wildcard-import,unused-wildcard-import

from array_record.python import array_record_module as ar
from pyroaring import BitMap

from space.core.fs.factory import create_fs
import space.core.proto.metadata_pb2 as meta

BOUNDS = (
    "histories of up to 4 append/delete/upsert/insert/append_parquet/"
    "append_array_record on 2 to 5 rows over up to 3 files per commit, with 0"
    " to 2 record fields; branches, tags and their removal; failed operations,"
    " conflicts, and a crash or I/O error before any one file step of an"
    " operation with one further operation after it; the Ray runner")
ASSUMPTIONS = RAY_ASSUMPTIONS + [
    "a Parquet file is loaded once (loading it again lists it twice by design)",
    "loaded ArrayRecord files have no record manifest (append_array_record does"
    " not write one); their addresses are checked against the files alone",
]
REC2 = Spec([("r", "bin"), ("k", "int"), ("v", "int"), ("s", "bin"),
             ("rid", "int")], ["k"], ["r", "s"])
FIX2 = {"v": lambda i: i, "r": lambda i: b"r%d" % i, "s": lambda i: b"s%d" % i}


def records_in(path):
  return ar.ArrayRecordReader(path).num_records()


def unique(w, names, what):
  w.check(len(names) == len(set(names)), f"{what} listed twice: {names}",
          f"{what} listed twice")


def there(w, ds, path, what):
  w.check(not os.path.isabs(path) or what.startswith("loaded"),
          f"{what}: absolute path {path}", f"{what}: absolute path")
  full = p(ds.storage.location, path)
  w.check(os.path.isfile(full), f"{what} {path} does not exist",
          f"{what} does not exist")
  return full if os.path.isfile(full) else None


def audit_snapshot(w, ds, sid, external):
  st = ds.storage
  s = st.snapshot(sid)
  m = s.manifest_files
  unique(w, list(m.index_manifest_files), "index manifest")
  unique(w, list(m.record_manifest_files), "record manifest")
  for f in list(m.index_manifest_files) + list(m.record_manifest_files):
    if there(w, ds, f, "manifest") is None:
      return
  entries = index_entries(ds, sid)
  unique(w, [e["_FILE"] for e in entries], "data file")
  files = st.data_files(snapshot_id=sid)
  w.check(
      sorted(f.path for f in files.index_files) == sorted(
          e["_FILE"] for e in entries), "data_files against the manifests")
  recs = [r for _, rows in record_manifest_rows(ds, sid) for r in rows]
  unique(w, [r["_FILE"] for r in recs], "record file")
  known = {}
  for r in recs:
    full = there(w, ds, r["_FILE"], "record file")
    if full is None:
      return
    w.check(r["_NUM_ROWS"] == records_in(full),
            "row count of a record file", "row count of a record file")
    known[r["_FILE"]] = (r["_FIELD_ID"], r["_NUM_ROWS"])
  seen = set()
  for e in entries:
    full = there(w, ds, e["_FILE"],
                 "loaded file" if external else "data file")
    if full is None:
      return
    t = pq.read_table(full)
    w.check(t.num_rows == e["_NUM_ROWS"], "row count of a data file")
    for name in st.record_fields:
      fid = field_id_of(ds, name)
      for a in t.column(name).to_pylist():
        at = (a["_FILE"], a["_ROW_ID"])
        w.check(at not in seen, f"two rows share {at}",
                "two rows share a record")
        seen.add(at)
        if external and a["_FILE"] not in known:
          path = there(w, ds, a["_FILE"], "loaded record file")
          n = records_in(path) if path else 0
          w.check(0 <= a["_ROW_ID"] < n, f"address {at} of {n}",
                  "address outside the record file")
          continue
        w.check(a["_FILE"] in known, f"{at} not in a record manifest",
                "address not in a record manifest")
        if a["_FILE"] in known:
          f, n = known[a["_FILE"]]
          w.check(f == fid, "address in a file of another field")
          w.check(0 <= a["_ROW_ID"] < n, f"address {at} of {n}",
                  "address outside the record file")
  if s.change_log_file:
    full = there(w, ds, s.change_log_file, "change log")
    if full is None:
      return
    log = create_fs(st.location).read_proto(full, meta.ChangeLog())
    for what, maps in (("deleted", log.deleted_rows), ("added",
                                                       log.added_rows)):
      unique(w, [b.file for b in maps], f"{what} file in a change log")
      for b in maps:
        f = there(w, ds, b.file, "loaded file" if external else "changed file")
        if f is None:
          return
        n = pq.read_table(f).num_rows
        w.check(b.num_rows == n or not b.all_rows,
                "row count in a change log")
        if not b.all_rows:
          ids = list(BitMap.deserialize(b.roaring_bitmap))
          w.check(ids and max(ids) < n, f"rows {ids} of {n} changed",
                  "rows of a change log outside the file")
    if sid:
      parent = s.parent_snapshot_id
      before = {e["_FILE"] for e in index_entries(ds, parent)}
      now = {e["_FILE"] for e in entries}
      w.check(all(b.file in before for b in log.deleted_rows),
              "deleted rows are of files of the parent snapshot")
      w.check(all(b.file in now for b in log.added_rows),
              "added rows are of files of the snapshot")


def audit(w, ds, external=False):
  """Everything reachable from a fresh load."""
  ds = reopen(ds)
  st = ds.storage
  ids = list(st.snapshot_ids)
  for sid in ids:
    audit_snapshot(w, ds, sid, external)
    parent = st.snapshot(sid).parent_snapshot_id
    # A removed branch takes no snapshot of others along.
    w.check(sid == 0 or parent in ids, "the parent of a snapshot exists")
  w.check(st.metadata.current_snapshot_id in ids, "current snapshot exists")
  for name, ref in st.metadata.refs.items():
    w.check(ref.snapshot_id in ids, f"snapshot of {name} exists",
            "snapshot of a reference exists")


def history(w):
  h = Hist(w, KV, layout=w.choose("layout", ["one", "groups", "files"]),
           fixed=FIX2)
  h.append(1, 1)
  h.step(["append2", "delete", "upsert", "insert"])
  h.step(["delete", "upsert", "delv"], "b")
  audit(w, h.ds)


def deep(w):
  h = Hist(w, KV, layout=w.choose("layout", ["one", "files"]), fixed=FIX2)
  h.append(1, 1)
  h.step(["append", "delv"], "a")
  h.step(["upsert", "delv"], "b")
  h.step(["delete", "append2"], "c")
  audit(w, h.ds)


def records(w):
  h = Hist(w, REC2, layout=w.choose("layout", [
      "one", options(0, 0, 0), options(0, 1 << 40, 2)]), fixed=FIX2)
  h.append(1, 1)
  h.step(["append2", "delete", "upsert", "insert"])
  h.step(["delete", "upsert", "delv"], "b")
  audit(w, h.ds)


def thresholds(w):
  h = Hist(w, REC2, layout=options(w.int("rg", 0, 250), w.int("fl", 0, 250),
                                   w.int("rec", 0, 16)), fixed=FIX2)
  h.append(1, 2, 1)
  h.delete(Cmp(Fld("v"), "<", w.choose("d", [1, 2])))
  audit(w, h.ds)


def branches(w):
  h = Hist(w, w.choose("spec", [KV, REC]), layout="files", fixed=FIX2)
  h.append(2)
  main = list(h.rows)
  h.ds.add_tag("t")
  h.ds.add_branch("b")
  h.ds.set_current_branch("b")
  h.step(["append", "delete", "upsert"], "b")
  if w.flag("tag on branch"):
    h.ds.add_tag("u", h.head())
  h.ds.set_current_branch("main")
  h.rows = main
  h.step(["append", "delete"], "m")
  audit(w, h.ds)
  last = w.choose("remove", ["branch", "tag", "both"])
  if last != "tag":
    h.ds.remove_branch("b")
  if last != "branch":
    h.ds.remove_tag("t")
  audit(w, h.ds)
  h.step(["append", "upsert"], "z")
  audit(w, h.ds)


def call_of(w, h):
  """(what, call) of one operation."""
  spec, rows = h.spec, h.rows
  op = w.choose("fop", ["append", "delete", "upsert", "insert"])
  if op == "append":
    new = h.mk.many(2)
    return lambda: h.runner().append_from(
        lambda: iter([spec.table(new[:1]), spec.table(new[1:])]))
  if op == "delete":
    return lambda: h.runner().delete(pc.field("k") == rows[0]["k"])
  if op == "upsert":
    new = h.mk.many(1, k=rows[-1]["k"])
    return lambda: h.runner().upsert(spec.table(new))
  new = h.mk.many(1, k=77)
  return lambda: h.runner().insert(spec.table(new))


def faults(w):
  """Crashes and I/O errors: what is left is sound, and stays so."""
  h = Hist(w, w.choose("spec", [KV, REC]), layout=options(0, 0, 0),
           fixed=FIX2, distinct=True)
  h.append(2)
  call = call_of(w, h)
  kind = w.choose("kind", ["crash", "torn", "error"])
  f = Fault(w, kind, w.int("at", 0, 60))
  try:
    with f:
      call()
  except (Crash, Injected):
    w.cover("fired")
  w.observe("at", f.fired[0] if f.fired else None)
  audit(w, h.ds)
  ds = h.ds if kind == "error" else reopen(h.ds)
  spec = h.spec
  again = w.choose("then", ["append", "delete"])
  if again == "append":
    ok(w, ds.local(options(0, 0, 0)).append(spec.table(h.mk.many(1))),
       "append after a fault")
  else:
    ok(w, ds.local(options(0, 0, 0)).delete(pc.field("rid") == 100),
       "delete after a fault", (OK, SKIPPED))
  audit(w, ds)


def failed(w):
  """Operations that fail without any fault."""
  h = Hist(w, w.choose("spec", [KV, REC]), layout="files", fixed=FIX2)
  h.append(2)
  what = w.choose("what", ["insert", "conflict", "source"])
  new = h.mk.many(2)
  if what == "insert":
    h.insert(new)
  elif what == "conflict":
    other = reopen(h.ds)
    kind = w.choose("other", ["append", "delete"])

    def src():
      yield h.spec.table(new[:1])
      if kind == "append":
        other.local().append(h.spec.table(new[1:]))
      else:
        other.local().delete(pc.field("rid") == 100)

    r = h.runner().append_from(src)
    ok(w, r, "append with a conflict", (FAILED,))
  else:

    def bad():
      yield h.spec.table(new[:1])
      raise errors.UserInputError("source")

    ok(w, h.runner().append_from(bad), "append of a failing source", (FAILED,))
  audit(w, h.ds)
  ok(w, h.ds.local().append(h.spec.table(h.mk.many(1))), "append")
  audit(w, h.ds)


def loaded(w):
  """External files next to own ones."""
  kind = w.choose("kind", ["parquet", "array_record"])
  d = w.dir("ext")
  os.makedirs(d)
  if kind == "parquet":
    h = Hist(w, KV, layout="files", fixed=FIX2, location=w.dir("ds"))
    new = h.new(3)
    pq.write_table(KV.table(new[:2]), os.path.join(d, "a.parquet"))
    pq.write_table(KV.table(new[2:]), os.path.join(d, "b.parquet"))
    load = lambda: h.ds.local().append_parquet(d + "/*.parquet")
  else:
    h = Hist(w, REC, layout="files", fixed=FIX2, location=w.dir("ds"))
    new = h.new(3)
    for name, part in (("a", new[:2]), ("b", new[2:])):
      x = ar.ArrayRecordWriter(os.path.join(d, name + ".array_record"),
                               options="group_size:1")
      for r in part:
        x.write(r["r"])
      x.close()
    by = {r["r"]: r for r in new}

    def index_fn(b):
      return {n: by[b["r"][0]][n] for n in ("k", "v", "rid")}

    load = lambda: h.ds.local().append_array_record(d + "/*.array_record",
                                                    index_fn)
  if w.flag("before"):
    h.append(1)
  ok(w, load(), "load")
  h.rows = h.rows + new
  audit(w, h.ds, external=True)
  h.step(["append", "delete", "upsert"])
  audit(w, h.ds, external=True)
  h.judge()


def ray(w):
  h = RayHist(w, REC, layout=w.choose("layout", [
      "one", options(0, 0, 0)]), fixed=FIX2, par=2)
  h.append(1, 1)
  h.step(["append2", "delete", "upsert", "insert"])
  h.step(["delete", "upsert"], "b")
  audit(w, h.ds)


BUDGET = {"quick": 120, "thorough": 500}

SCENARIOS = [
    ("history", history),
    ("deep", deep),
    ("records", records),
    ("thresholds", thresholds),
    ("branches", branches),
    ("faults", faults),
    ("failed", failed),
    ("loaded", loaded),
    ("ray", ray),
]
