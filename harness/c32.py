"""C32: file and manifest listings describe exactly their version."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "histories of up to 4 commits (append, delete, upsert, external files, a"
    " branch) with symbolic keys and filter constants; every snapshot, tag and"
    " branch; up to 5 files over up to 3 manifests; manifest filters on the row"
    " count with a symbolic constant; data_files with comparison, AND and OR"
    " filters on the key")
BUDGET = {"quick": 120, "thorough": 600}
ASSUMPTIONS = []
FIX = {"v": lambda i: i, "r": lambda i: b"r%d" % i, "s": lambda i: b"s%d" % i}
REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("s", "bin"),
            ("rid", "int")], ["k"], ["r", "s"])
LAY = ["one", "files", options(0, 0, 0)]


def file_rows(path):
  return pq.read_table(path).to_pylist()


def listing(w, ds, version, rows, what):
  """index_files of a version: each file once, their rows are the version's."""
  fs = ds.index_files(version) if version is not None else ds.index_files()
  loc = ds.storage.location
  w.check(len(set(fs)) == len(fs), f"{what}: a file is listed twice: {fs}",
          "index_files: repeated file")
  for f in fs:
    w.check(isinstance(f, str) and f.startswith(os.path.join(loc, "")) and
            os.path.isfile(f), f"{what}: {f} is not a file of the dataset",
            "index_files: not a file")
  got = [r for f in fs for r in file_rows(f)]
  w.check(sorted(r["rid"] for r in got) == sorted(r["rid"] for r in rows),
          f"{what}: rows of the listed files"
          f" {sorted(r['rid'] for r in got)}, expected"
          f" {sorted(r['rid'] for r in rows)}", "index_files: wrong files")
  return fs


def manifests(w, ds, sid, fs, rows, current):
  """index_manifest and record_manifest of a snapshot.

  Returns the record files.
  """
  st = ds.storage
  loc = st.location
  es = [r for t in st.index_manifest(snapshot_id=sid) for r in t.to_pylist()]
  w.check(sorted(os.path.join(loc, e["_FILE"]) for e in es) == sorted(fs),
          "index_manifest: files differ from index_files")
  for e in es:
    n = len(file_rows(os.path.join(loc, e["_FILE"])))
    w.check(L.Eq(e["_NUM_ROWS"], n), "index_manifest: number of rows")
  w.check(sum(e["_NUM_ROWS"] for e in es) == len(rows),
          "index_manifest: total of rows")
  if current:
    now = [r for t in st.index_manifest() for r in t.to_pylist()]
    w.check(L.Eq(now, es), "index_manifest without a snapshot")
  if not current:
    c = w.choose("c", [0, 1])
  else:
    c = w.int("c", 0, 3)
  some = [r["_FILE"] for t in st.index_manifest(pc.field("_NUM_ROWS") > c, sid)
          for r in t.to_pylist()]
  w.check(some == [e["_FILE"] for e in es if bool(e["_NUM_ROWS"] > c)],
          "index_manifest with a filter")
  rs = [r for t in st.record_manifest(snapshot_id=sid) for r in t.to_pylist()]
  files = [r["_FILE"] for r in rs]
  w.check(len(set(files)) == len(files), "record_manifest: repeated file")
  ids = {f: field_id_of(ds, f) for f in ds.record_fields}
  for r in rs:
    w.check(os.path.isfile(os.path.join(loc, r["_FILE"])),
            "record_manifest: no such file")
    w.check(r["_FIELD_ID"] in ids.values(), "record_manifest: field ID")
  of = {r["_FILE"]: r for r in rs}
  need = {}
  for f in fs:
    for row in file_rows(f):
      for name, i in ids.items():
        a = row[name]
        w.check(a["_FILE"] in of, "record_manifest: a used file is missing")
        if a["_FILE"] in of:
          e = of[a["_FILE"]]
          w.check(e["_FIELD_ID"] == i, "record_manifest: wrong field ID")
          w.check(L.And(a["_ROW_ID"] >= 0, a["_ROW_ID"] < e["_NUM_ROWS"]),
                  "record_manifest: number of rows")
        need.setdefault(a["_FILE"], []).append(a["_ROW_ID"])
  if rs:
    i = list(ids.values())[0]
    some = [r["_FILE"]
            for t in st.record_manifest(pc.field("_FIELD_ID") == i, sid)
            for r in t.to_pylist()]
    w.check(sorted(some) == sorted(
        r["_FILE"] for r in rs if r["_FIELD_ID"] == i),
            "record_manifest with a filter")
  return files


def pruned(w, ds, sid, fs, cond):
  """data_files with a filter: some of the files, all with a matching row."""
  st = ds.storage
  loc = st.location
  full = st.data_files(snapshot_id=sid)
  part = st.data_files(cond.expr(), snapshot_id=sid)
  for what, d in (("all", full), ("filtered", part)):
    for f in d.index_files:
      w.check(f.manifest_file_id in d.index_manifest_files,
              f"data_files {what}: unknown manifest")
      m = d.index_manifest_files[f.manifest_file_id]
      entries = {e["_FILE"]: e for e in file_rows(os.path.join(loc, m))}
      w.check(f.path in entries, f"data_files {what}: a file is not in its"
              " manifest", "data_files: wrong manifest")
      if f.path in entries:
        w.check(
            L.Eq(f.storage_statistics.num_rows, entries[f.path]["_NUM_ROWS"]),
            "data_files: number of rows")
    got = [m for m in d.index_manifest_files.values()]
    w.check(len(set(got)) == len(got), "data_files: repeated manifest")
  names = [os.path.join(loc, f.path) for f in full.index_files]
  w.check(sorted(names) == sorted(fs), "data_files differ from index_files")
  some = [os.path.join(loc, f.path) for f in part.index_files]
  w.check(sorted(f for f in fs if f in some) == sorted(some),
          "data_files: filtered files are not some of all")
  for f in fs:
    if f not in some:
      for row in file_rows(f):
        w.check(L.Not(cond.tf(row)[0]),
                "data_files: a file with a matching row is skipped")


def versions_of(h):
  return sorted(h.snaps)


def history(w):
  """Every snapshot of a history, after all of it."""
  spec = w.choose("spec", [KV, REC])
  h = Hist(w, spec, layout=w.choose("layout", LAY), fixed=FIX, distinct=True)
  h.append(*((2, 1) if w.tier == "thorough" else (1, 1)))
  h.step(["append", "delete", "upsert"], "1")
  h.step(["append2", "delete"], "2")
  last = h.head()
  sid = w.choose("snapshot", ["last", "first", "middle", "empty"])
  ds = h.ds if sid in ("last", "middle") else reopen(h.ds)
  w.check(sorted(ds.storage.snapshot_ids) == versions_of(h), "snapshot IDs")
  listing(w, ds, None, h.rows, "current version")
  ids = [i for i in versions_of(h) if i]
  sid = {"last": last, "first": ids[0], "middle": ids[len(ids) // 2],
         "empty": 0}[sid]
  fs = listing(w, ds, sid, h.snaps[sid], "snapshot")
  files = manifests(w, ds, sid, fs, h.snaps[sid], sid == last)
  # Record files are kept: all that the snapshot or one before it uses.
  used = {
      r[name]["_FILE"]
      for i in versions_of(h) if i <= sid
      for f in ds.index_files(i)
      for r in file_rows(f)
      for name in ds.record_fields
  }
  w.check(sorted(used) == sorted(files),
          f"record_manifest of {sid}: {sorted(files)}, used are {sorted(used)}",
          "record_manifest: files of other versions")


def filters(w):
  """data_files with filters."""
  h = Hist(w, KV, layout=w.choose("layout", ["files", "one"]), fixed=FIX)
  h.append(1, 1)
  h.append(2 if w.tier == "thorough" else 1)
  h.step(["append", "delv", "upsert"])
  sid = w.choose("snapshot", [2, h.head()])
  fs = listing(w, h.ds, sid, h.snaps[sid], "snapshot")
  k, c = Fld("k"), w.int("c", -40, 40)
  cond = w.choose("cond", ["<", "==", "and", "or", "rev"])
  cond = {
      "<": lambda: Cmp(k, "<", c),
      "==": lambda: Cmp(k, "==", c),
      "and": lambda: Cmp(k, ">", c) & Cmp(k, "<=", 3),
      "or": lambda: Cmp(k, ">=", c) | Cmp(Fld("v"), "==", 0),
      "rev": lambda: Cmp(c, ">=", k),
  }[cond]()
  pruned(w, h.ds, sid, fs, cond)


def refs(w):
  """Tags and branches."""
  h = Hist(w, KV, layout="files", fixed=FIX, distinct=True)
  h.append(1, 1)
  h.ds.add_tag("t")
  tagged = list(h.rows)
  h.ds.add_branch("b")
  h.step(["append", "delete", "upsert"], "1")
  main = list(h.rows)
  h.ds.set_current_branch("b")
  h.rows = tagged
  h.step(["append", "delete", "upsert"], "2")
  br = list(h.rows)
  h.ds.set_current_branch(w.choose("on", ["main", "b"]))
  ds = w.choose("handle", [h.ds, None])
  if ds is None:
    ds = Dataset.load(h.ds.storage.location)
    listing(w, ds, None, main, "current version")
  else:
    listing(w, ds, None, main if ds.storage.current_branch == "main" else br,
            "current version")
  for v, rows in (("t", tagged), ("b", br)):
    listing(w, ds, v, rows, v)
  w.check(
      w.raises(errors.VersionNotFoundError, ds.index_files, "x") and
      w.raises(errors.VersionNotFoundError, lambda: ds.index_files(99)),
      "unknown version")


def external(w):
  """External files are listed like others."""
  h = Hist(w, KV, layout="files", fixed=FIX, distinct=True)
  if w.flag("before"):
    h.append(1)
  new = h.new(3)
  d = w.dir("ext")
  os.makedirs(d)
  for i, rs in enumerate((new[:2], new[2:])):
    pq.write_table(KV.table(rs), os.path.join(d, f"x{i}.parquet"))
  ok(w, h.ds.local().append_parquet(d + "/*.parquet"), "append_parquet")
  h.rows = h.rows + new
  h.snaps[h.head()] = list(h.rows)
  h.step(["append", "delete", "upsert"])
  sid = h.head()
  es = [r for t in h.ds.storage.index_manifest(snapshot_id=sid)
        for r in t.to_pylist()]
  fs = h.ds.index_files()
  got = [r for f in fs for r in file_rows(f)]
  w.check(sorted(r["rid"] for r in got) == sorted(r["rid"] for r in h.rows),
          "index_files: rows of the listed files", "index_files: wrong files")
  w.check(sum(e["_NUM_ROWS"] for e in es) == len(h.rows),
          "index_manifest: total of rows")
  w.check(len(es) == len(fs), "index_manifest: number of files")


def big(w):
  """Dozens of files in several manifests."""
  h = large.filled(w, per=11, appends=4)
  h.delete(Cmp(Fld("k"), ">=", large.cut(w)) & Cmp(Fld("k"), "<", 200))
  es = sorted(p(h.ds.storage.location, e["_FILE"]) for e in index_entries(h.ds))
  w.check(sorted(h.ds.index_files()) == es, "files listed")
  n = sum(index_file(h.ds, f).num_rows for f in h.ds.index_files())
  w.check(n == len(h.rows), "rows of the files listed")


BOUNDS += large.BOUND
SCENARIOS = [
    ("history", history),
    ("filters", filters),
    ("refs", refs),
    ("external", external),
    ("big", big),
]
