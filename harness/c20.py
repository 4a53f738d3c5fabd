"""C20: loading external files adds exactly their rows."""
import glob as _glob

from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from array_record.python import array_record_module as ar

BOUNDS = (
    "up to 3 matching files (0 to 3 rows each, up to 2 row groups, with and without"
    " column statistics) and files"
    " the pattern does not match; before and after other appends; absolute and"
    " relative patterns, files of the same name in several folders, any order"
    " of the matching files; loads that lose to another writer, meet a file of"
    " another format or whose index function fails; followed by every"
    " pair of append, delete, upsert, insert, filtered read, version read and"
    " change feed; symbolic keys, values and record contents")
BUDGET = {"quick": 200, "thorough": 600}
ASSUMPTIONS = [
    "the Parquet files have the physical schema of the dataset (the code does"
    " not verify it)",
    "the pattern matches each file once and no file is loaded twice",
]
FIX = {"v": lambda i: i}
REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
           ["r"])


def globbing(w, n=2):
  """The order in which a pattern's files are listed is unspecified."""
  orders = ["sorted", "reversed"] if n > 1 else ["sorted"]
  o = w.choose("glob order", orders)
  real = _glob.glob

  def fn(*a, **k):
    return sorted(real(*a, **k), reverse=o == "reversed")

  return real, fn


class Globbed:

  def __init__(self, w, n=2):
    self.real, self.fn = globbing(w, n)

  def __enter__(self):
    _glob.glob = self.fn

  def __exit__(self, *a):
    _glob.glob = self.real


def write_parquet(path, schema, groups):
  wr = pq.ParquetWriter(path, schema)
  for g in groups:
    wr.write_table(g)
  wr.close()


def write_records(path, records):
  wr = ar.ArrayRecordWriter(path, "group_size:1")
  for r in records:
    wr.write(r)
  wr.close()


def use(w, h, base=None):
  """What later operations see."""
  op = w.choose("use", ["delete", "delv", "upsert", "insert", "append",
                        "filter", "version", "diff", "batch"])
  ds = h.ds
  if op in ("delete", "delv", "upsert", "insert", "append"):
    before = list(h.rows)
    h.step([op], "u")
    h.judge(op)
    if h.deltas and base is not None and op != "insert":
      feed(w, h, base)
    return before
  if op == "filter":
    c = w.int("c", -40, 40)
    o = w.choose("cmp", ["<", ">=", "=="])
    cond = Cmp(Fld("k"), o, c)
    yes, _ = split(h.rows, cond)
    same(w, read_rows(ds, filter_=cond.expr()), yes, "filtered read")
  elif op == "version":
    now, rows = h.head(), list(h.rows)
    ds.add_tag("t", now)
    h.append(1)
    same(w, read_rows(ds, version=now), rows, "read of the loaded version")
    same(w, read_rows(ds, version="t"), rows, "read of the tagged version")
    if base is not None:
      same(w, read_rows(ds, version=base), h.snaps[base], "version before")
  elif op == "diff":
    if base is not None:
      feed(w, h, base)
  elif op == "batch":
    n = w.choose("n", [1, 2])
    got = []
    for b in ds.local().read(batch_size=n):
      w.check(b.num_rows <= n, "batch size")
      got += b.to_pylist()
    same(w, got, h.rows, "batched read")
  return None


def feed(w, h, base):
  """The feed since base lists each later commit's rows."""
  got = {}
  for c in h.ds.local().diff(base, h.head()):
    got.setdefault((c.snapshot_id, c.type_.name), []).extend(rows_of(c.data))
  want = {}
  for sid, gone, new in h.deltas:
    if sid > base:
      if gone:
        want[(sid, "DELETE")] = gone
      if new:
        want[(sid, "ADD")] = new
  w.check(set(got) == set(want), f"changes {sorted(got)}", "changes listed")
  for k, rows in want.items():
    if k not in got:
      continue
    if k[1] == "ADD":
      same(w, got[k], rows, f"rows added by {k[0]}", sig="rows added")
    else:
      w.check(multiset_eq(got[k], rows, h.spec.pks), "keys deleted")


def parquet(w):
  """Files of several row groups; a file the pattern does not match."""
  h = Hist(w, KV, layout=w.choose("layout", ["one", "files"]), fixed=FIX)
  base = h.head()
  if w.flag("before"):
    h.append(1)
    base = h.head()
  d = w.dir("ext")
  os.makedirs(d)
  shape = w.choose("shape", [[[1], [1]], [[1, 1]], [[2, 1]], [[1], [], [1]],
                             [[0], [2]]])
  files, rows = {}, []
  for i, sizes in enumerate(shape):
    groups = [h.mk.many(n) for n in sizes]
    rows += [r for g in groups for r in g]
    path = os.path.join(d, f"x{i}.parquet")
    write_parquet(path, KV.schema, [KV.table(g) for g in groups])
    files[path] = digest(path)
  other = os.path.join(d, "y.parquet")
  write_parquet(other, KV.schema, [KV.table(h.mk.many(1))])
  with Globbed(w, len(shape)):
    r = h.ds.local().append_parquet(os.path.join(d, "x*.parquet"))
  ok(w, r, "append_parquet")
  h.rows = h.rows + rows
  h._done(r, [], rows)
  h.judge("after append_parquet")
  h.judge("fresh load", reopen(h.ds))
  use(w, h, base)
  for path, data in files.items():
    w.check(digest(path) == data, "external file modified")


def parquet_more(w):
  """Two later operations on loaded rows."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1)
  base = h.head()
  d = w.dir("ext")
  os.makedirs(d)
  rows = h.mk.many(3)
  write_parquet(os.path.join(d, "a.parquet"), KV.schema,
                [KV.table(rows[:1]), KV.table(rows[1:2])])
  write_parquet(os.path.join(d, "b.parquet"), KV.schema, [KV.table(rows[2:])])
  files = {f: digest(f) for f in _glob.glob(d + "/*")}
  with Globbed(w):
    r = h.ds.local().append_parquet(os.path.join(d, "*"))
  ok(w, r, "append_parquet")
  h.rows = h.rows + rows
  h._done(r, [], rows)
  h.step(["delete", "upsert"])
  h.judge("after the first operation")
  h.step(["append", "deleq", "upsert"], "b")
  h.judge("after the second operation")
  feed(w, h, base)
  for path, data in files.items():
    w.check(digest(path) == data, "external file modified")


def composite(w):
  """Composite keys, NULLs and types of loaded columns."""
  spec = Spec([("s", "str"), ("v", "float"), ("k", "int"), ("rid", "int")],
              ["k", "s"])
  h = Hist(w, spec, layout="files", nullable=["v", "s"])
  d = w.dir("ext")
  os.makedirs(d)
  rows = h.mk.many(2)
  write_parquet(os.path.join(d, "a.parquet"), spec.schema, [spec.table(rows)])
  ok(w, h.ds.local().append_parquet(d + "/*"), "append_parquet")
  h.rows = rows
  h.judge("read")
  name = w.choose("field", ["s", "v", "k"])
  c = cell(w, "c", {"s": "str", "v": "float", "k": "int"}[name])
  cond = Cmp(Fld(name), w.choose("op", ["<", ">=", "=="]), c)
  yes, no = split(rows, cond)
  same(w, read_rows(h.ds, filter_=cond.expr()), yes, "filtered read")
  h.delete(cond)
  h.judge("after delete")


def nothing(w):
  """Patterns without matches, or without rows, change nothing."""
  kind = w.choose("kind", ["no match", "no rows", "no dir"])
  which = w.choose("which", ["parquet", "record"])
  spec = KV if which == "parquet" else REC
  h = Hist(w, spec, fixed={**FIX, "r": lambda i: b"x%d" % i})
  h.append(1)
  head = h.head()
  d = w.dir("ext")
  if kind != "no dir":
    os.makedirs(d)
  if kind == "no rows":
    if which == "parquet":
      write_parquet(d + "/a", spec.schema, [])
    else:
      write_records(d + "/a", [])
  if which == "parquet":
    r = h.ds.local().append_parquet(d + "/*")
  else:
    r = h.ds.local().append_array_record(d + "/*", lambda rec: {"k": 1})
  ok(w, r, "load of nothing", (SKIPPED,))
  w.check(h.head() == head, "no snapshot for nothing")
  h.judge("read")
  h.step(["append", "delete", "upsert"])
  h.judge("after")


def relative(w):
  """Relative patterns and locations, and a later change of directory."""
  which = w.choose("which", ["parquet", "record"])
  spec = KV if which == "parquet" else REC
  cwd = os.getcwd()
  a, b = w.dir("a"), w.dir("b")
  os.makedirs(a + "/in")
  os.makedirs(b)
  try:
    os.chdir(a)
    loc = w.choose("loc", ["ds", a + "/ds"])
    h = Hist(w, spec, location=loc, fixed=FIX)
    if which == "parquet":
      rows = h.mk.many(2)
      write_parquet("in/x", spec.schema, [spec.table(rows)])
    else:
      rows = h.mk.many(2, r=None)
      by = {}
      for i, r in enumerate(rows):
        r["r"] = b"r%d" % i
        by[r["r"]] = r
      write_records("in/x", [r["r"] for r in rows])
    pat = w.choose("pattern", ["in/*", "./in/x", "../a/in/?", a + "/in/*"])
    if which == "parquet":
      r = h.ds.local().append_parquet(pat)
    else:
      r = h.ds.local().append_array_record(
          pat, lambda rec: {n: by[rec["r"][0]][n] for n in ("k", "v", "rid")})
    ok(w, r, "load")
    h.rows = rows
    h.judge("read")
    os.chdir(b)
    ds = Dataset.load(a + "/ds")
    h.judge("read from elsewhere", ds)
    h.ds = ds
    h.step(["delete", "upsert"] if which == "parquet" else ["delete"])
    h.judge("after an operation elsewhere")
  finally:
    os.chdir(cwd)


def records(w):
  """Record files; the index function sees each record."""
  h = Hist(w, REC, layout=w.choose("layout", ["one", "files"]),
           fixed={**FIX, "r": lambda i: b"own%d" % i})
  base = h.head()
  if w.flag("before"):
    h.append(1)
    base = h.head()
  d = w.dir("ext")
  os.makedirs(d)
  sizes = w.choose("sizes", [[1], [2], [1, 1], [0, 2], [2, 1]])
  files, rows, by, seen = {}, [], {}, []
  for i, n in enumerate(sizes):
    part = h.mk.many(n, r=None)
    for r in part:
      r["r"] = b"rec%d" % r["rid"]
      by[r["r"]] = r
    path = os.path.join(d, f"x{i}.array_record")
    write_records(path, [r["r"] for r in part])
    files[path] = digest(path)
    rows += part
  write_records(os.path.join(d, "y.array_record"), [b"other"])

  def index(rec):
    seen.append(rec["r"][0])
    r = by[rec["r"][0]]
    return {"rid": r["rid"], "v": r["v"], "k": r["k"]}

  with Globbed(w, len(sizes)):
    r = h.ds.local(options(record=0)).append_array_record(
        os.path.join(d, "x*.array_record"), index)
  ok(w, r, "append_array_record")
  w.check(sorted(seen) == sorted(by), "index function calls")
  h.rows = h.rows + rows
  h._done(r, [], rows)
  u = r.storage_statistics_update
  w.check(u.num_rows == len(rows) and
          u.record_uncompressed_bytes == sum(len(x) for x in by),
          "statistics of the loaded files")
  h.judge("after append_array_record")
  h.judge("fresh load", reopen(h.ds))
  use(w, h, base)
  for path, data in files.items():
    w.check(digest(path) == data, "external file modified")


def contents(w):
  """Index fields computed from symbolic records; omitted fields are NULL."""
  spec = Spec([("r", "bin"), ("k", "bin"), ("v", "int"), ("rid", "int")], ["k"],
              ["r"])
  h = Hist(w, spec)
  d = w.dir("ext")
  os.makedirs(d)
  recs = [w.bytes(f"r{i}") for i in range(2)]
  write_records(d + "/a", recs[:1])
  write_records(d + "/b", recs[1:])
  n = [0]

  def index(rec):
    n[0] += 1
    return {"k": rec["r"][0], "rid": n[0]}

  with Globbed(w):
    r = h.ds.local().append_array_record(d + "/*", index)
  ok(w, r, "append_array_record")
  got = read_rows(h.ds)
  w.check(len(got) == 2, "rows")
  for g in got:
    w.check(g["k"] == g["r"], "record of another row")
    w.check(g["v"] is None, "omitted field")
  w.check(multiset_eq(got, [{"r": x} for x in recs], ["r"]), "records")
  w.check(sorted(g["rid"] for g in got) == [1, 2], "rows of the index function")
  c = w.bytes("c")
  cond = Cmp(Fld("k"), "<", c)
  yes, _ = split([{"k": x, "rid": g["rid"]} for x, g in
                  zip([g["r"] for g in got], got)], cond)
  same(w, read_rows(h.ds, filter_=cond.expr()), yes, "filtered read",
       names=["rid"])


def folders(w):
  """Files of the same name in several folders; the same file contents."""
  which = w.choose("which", ["parquet", "record"])
  spec = KV if which == "parquet" else REC
  h = Hist(w, spec, fixed=FIX)
  h.append(1)
  base = h.head()
  d = w.dir("ext")
  twins = w.flag("same contents")
  rows, by = [], {}
  for i in range(2):
    os.makedirs(f"{d}/d{i}")
    part = h.mk.many(1)
    if twins and i:
      part = [{**part[0], "k": rows[0]["k"], "v": rows[0]["v"]}]
    path = f"{d}/d{i}/x"
    if which == "parquet":
      write_parquet(path, spec.schema, [spec.table(part)])
    else:
      part[0]["r"] = b"rec" if twins else b"rec%d" % i
      by.setdefault(part[0]["r"], []).append(part[0])
      write_records(path, [part[0]["r"]])
    rows += part
  with Globbed(w):
    pat = w.choose("pattern", [f"{d}/*/x", f"{d}/d[01]/*"])
    if which == "parquet":
      r = h.ds.local().append_parquet(pat)
    else:
      todo = {k: list(v) for k, v in by.items()}

      def index(rec):
        x = todo[rec["r"][0]].pop(0)
        return {n: x[n] for n in ("k", "v", "rid")}

      r = h.ds.local().append_array_record(pat, index)
  ok(w, r, "load")
  h.rows = h.rows + rows
  h._done(r, [], rows)
  h.judge("read")
  h.step(["delete", "upsert"] if which == "parquet" else ["delete"])
  h.judge("after an operation")
  if which == "parquet":
    feed(w, h, base)


def no_stats(w):
  """Loaded files without column statistics."""
  h = Hist(w, KV, fixed=FIX)
  h.append(1)
  base = h.head()
  path = w.dir("ext")
  rows = h.mk.many(2)
  wr = pq.ParquetWriter(path, KV.schema, write_statistics=w.choose(
      "statistics", [False, ["v"]]))
  wr.write_table(KV.table(rows[:1]))
  wr.write_table(KV.table(rows[1:]))
  wr.close()
  r = h.ds.local().append_parquet(path)
  ok(w, r, "append_parquet")
  h.rows = h.rows + rows
  h._done(r, [], rows)
  h.judge("after append_parquet")
  use(w, h, base)


def refused(w):
  """Loads that fail, or lose to another writer, leave all files alone."""
  which = w.choose("which", ["parquet", "record"])
  spec = KV if which == "parquet" else REC
  why = w.choose("why", ["conflict", "bad file", "index"] if
                 which == "record" else ["conflict", "bad file"])
  h = Hist(w, spec, fixed=FIX)
  h.append(1)
  base = h.head()
  d = w.dir("ext")
  os.makedirs(d)
  rows = h.mk.many(2)
  for i, r in enumerate(rows):
    path = f"{d}/x{i}"
    if which == "parquet":
      write_parquet(path, spec.schema, [spec.table([r])])
    else:
      r["r"] = b"rec%d" % i
      write_records(path, [r["r"]])
  by = {r.get("r"): r for r in rows}
  if why == "bad file":
    with open(d + "/x2", "wb") as f:
      f.write(b"neither format")
  files = {f: digest(f) for f in _glob.glob(d + "/*")}
  todo = [why]

  def event():
    """Another writer commits, or the index function fails, half-way."""
    if todo == ["conflict"]:
      todo.clear()
      other = Hist.__new__(Hist)
      other.__dict__.update(h.__dict__)
      other.ds = reopen(h.ds)
      other.append(1)
      h.rows = other.rows
    elif todo == ["index"]:
      raise RuntimeError("index")

  real = _glob.glob

  def listed(*a, **k):
    out = sorted(real(*a, **k))
    if which == "parquet":
      event()
    return out

  def index(rec):
    if rec["r"][0] == b"rec1":
      event()
    return {n: by[rec["r"][0]][n] for n in ("k", "v", "rid")}

  loader = h.ds.local()
  _glob.glob = listed
  failed = None
  try:
    if which == "parquet":
      r = loader.append_parquet(d + "/x*")
    else:
      r = loader.append_array_record(d + "/x*", index)
    failed = r.state == JobResult.State.FAILED
  except Exception:  # pylint: disable=broad-exception-caught
    failed = True
  finally:
    _glob.glob = real
  w.check(failed, f"load answers {why}")
  w.check({f: digest(f) for f in real(d + "/*")} == files,
          "external file modified or deleted")
  h.ds = reopen(h.ds)
  h.judge("after the refused load")
  if why != "conflict":
    w.check(h.head() == base, "refused load made a snapshot")
    os.remove(d + "/x2") if why == "bad file" else None
  todo.clear()
  if which == "parquet":
    r = h.ds.local().append_parquet(d + "/x*")
  else:
    r = h.ds.local().append_array_record(d + "/x*", index)
  ok(w, r, "load again")
  h.rows = h.rows + rows
  h.judge("after loading again")
  h.step(["append", "delete"])
  h.judge("after")


SCENARIOS = [
    ("parquet", parquet),
    ("no_stats", no_stats),
    ("refused", refused),
    ("parquet_more", parquet_more),
    ("composite", composite),
    ("nothing", nothing),
    ("relative", relative),
    ("records", records),
    ("contents", contents),
    ("folders", folders),
]
