"""C37: the size options given to a runner shape the files it writes."""
from harness.mv import *  # pylint: disable=wildcard-import,unused-wildcard-import
from array_record.python import array_record_module as ar

BOUNDS = (
    "2 to 4 writes of 1 to 2 rows (8 to 30 bytes per row) with symbolic limits"
    " of 0 to 120 bytes per row group, index file and record file; upsert,"
    " insert, delete, loading of record files, refresh and the Ray runner with limits 0"
    " and 2^40; the ArrayRecord option string")
ASSUMPTIONS = [
    "bytes are counted as Arrow counts a written table (nbytes), and a table"
    " given in one write is not split",
] + RAY_ASSUMPTIONS
HUGE = 1 << 40
K = Spec([("k", "int"), ("s", "str"), ("rid", "int")], ["k"])
R1 = Spec([("k", "int"), ("r", "bin"), ("rid", "int")], ["k"], ["r"])


def files_of(ds, since=()):
  """[(path, [[rid of a row group]])] of the current index files."""
  out = []
  for e in index_entries(ds):
    if e["_FILE"] in since:
      continue
    f = pq.ParquetFile(p(ds.storage.location, e["_FILE"]))
    out.append((e["_FILE"], [
        [r["rid"] for r in f.read_row_group(i).to_pylist()]
        for i in range(f.num_row_groups)
    ]))
  return out


def writes_of(rids, chunks):
  """The writes that make up a row group; None if it cuts one."""
  out, rest = [], list(rids)
  while rest:
    i = next(i for i, c in enumerate(chunks) if rest[0] in c)
    if rest[:len(chunks[i])] != chunks[i]:
      return None
    out.append(i)
    rest = rest[len(chunks[i]):]
  return out


def judge(w, files, chunks, sizes, group, file):
  """Row groups and files close with the write that exceeds their limit."""
  order = []
  for n, (_, groups) in enumerate(files):
    groups = [g for g in groups if g]
    total = 0
    for j, g in enumerate(groups):
      ws = writes_of(g, chunks)
      w.check(ws is not None, "a write is split over row groups")
      if ws is None:
        return
      order += ws
      last = n == len(files) - 1 and j == len(groups) - 1
      bytes_ = sum(sizes[i] for i in ws)
      w.check(L.Or([bytes_ - sizes[ws[-1]] <= group]),
              "a row group goes on above its limit")
      if not last:
        w.check(bytes_ > group, "a row group ends below its limit")
      if j == len(groups) - 1:
        w.check(total <= file, "a file goes on above its limit")
        if n != len(files) - 1:
          w.check(total + bytes_ > file, "a file ends below its limit")
      total += bytes_
  w.check(sorted(order) == list(range(len(chunks))), "writes in files")


def index_limits(w):
  ds = K.create(w.dir())
  mk = Rows(w, K, fixed={"k": lambda i: i, "s": lambda i: "x" * (5 * i + 1)})
  shape = w.choose("writes", [[1, 1], [2, 1], [1, 1, 1], [1, 2, 1],
                              [1, 1, 1, 1]])
  chunks = [mk.many(n) for n in shape]
  tables = [K.table(c) for c in chunks]
  group, file = w.int("group", 0, 120), w.int("file", 0, 120)
  r = ds.local(options(group, file)).append_from(lambda: iter(tables))
  ok(w, r, "append_from")
  judge(w, files_of(ds), [[x["rid"] for x in c] for c in chunks],
        [t.nbytes for t in tables], group, file)
  same(w, read_rows(ds), [x for c in chunks for x in c], "read")
  # The next operation starts a file of its own.
  more = mk.many(1)
  had = [f for f, _ in files_of(ds)]
  ok(w, ds.local(options(group, file)).append(K.table(more)), "append")
  w.check(files_of(ds, had)[0][1] == [[more[0]["rid"]]], "next file")


def record_files(ds, names=("r",)):
  """Record field -> [(file, [rid])] in the order of the rows."""
  out = {n: {} for n in names}
  for r in rows_of(ds.local().read_all(reference_read=True)):
    for n in names:
      out[n].setdefault(r[n]["_FILE"], []).append((r[n]["_ROW_ID"], r["rid"]))
  return {n: [[x for _, x in sorted(v)] for v in d.values()]
          for n, d in out.items()}


def record_limits(w):
  spec = w.choose("fields", [R1, Spec(
      [("r", "bin"), ("k", "int"), ("q", "bin"), ("rid", "int")], ["k"],
      ["r", "q"])])
  ds = spec.create(w.dir())
  mk = Rows(w, spec, fixed={"k": lambda i: i, "r": lambda i: b"x" * (9 * i + 1),
                            "q": lambda i: b"y" * (40 - 9 * i)})
  shape = w.choose("writes", [[1, 1], [2, 1], [1, 1, 1], [1, 2, 1]])
  chunks = [mk.many(n) for n in shape]
  tables = [spec.table(c) for c in chunks]
  limit = w.int("record", 0, 120)
  made = []
  real = ar.ArrayRecordWriter

  def writer(path, options="", *a, **k):
    made.append(options)
    return real(path, options, *a, **k)

  opts = options(record=limit)
  opts.array_record_options.options = "group_size:1,transpose"[
      :w.choose("cut", [12, 22])]
  ar.ArrayRecordWriter = writer
  try:
    r = ds.local(opts).append_from(lambda: iter(tables))
  finally:
    ar.ArrayRecordWriter = real
  ok(w, r, "append_from")
  w.check(set(made) == {opts.array_record_options.options},
          "ArrayRecord options")
  rids = [[x["rid"] for x in c] for c in chunks]
  for name, files in record_files(ds, spec.records).items():
    sizes = [t.column(name).nbytes for t in tables]
    files = sorted(files)
    for i, f in enumerate(files):
      ws = writes_of(f, rids)
      w.check(ws is not None, "a write is split over record files")
      if ws is None:
        return
      total = sum(sizes[j] for j in ws)
      w.check(total - sizes[ws[-1]] <= limit,
              "a record file goes on above its limit")
      if i != len(files) - 1:
        w.check(total > limit, "a record file ends below its limit")
  w.check(len(made) == sum(len(f) for f in record_files(
      ds, spec.records).values()), "record files")
  same(w, read_rows(ds), [x for c in chunks for x in c], "read")


def operations(w):
  """Every writing operation takes the options of its runner."""
  kind = w.choose("runner", ["local", "ray"])
  h = (RayHist if kind == "ray" else Hist)(
      w, K, fixed={"k": lambda i: i, "s": lambda i: "x"}, layout="one")
  par = w.choose("parallelism", [1, 2]) if kind == "ray" else 1
  if kind == "ray":
    h.ro = RayOptions(max_parallelism=par)
  h.append(2)
  h.append(2)
  h.layout = w.choose("layout", ["one", "groups", "files"])
  had = {f for f, _ in files_of(h.ds)}
  op = w.choose("op", ["append", "append_from", "upsert", "insert", "delete"])
  if op == "append":
    h.append_rows(h.new(2))
  elif op == "append_from":
    chunks = [h.new(1) for _ in range(4)]
    tables = [K.table(c) for c in chunks]
    src = lambda: iter(tables)
    r = h.runner().append_from(src)
    ok(w, r, op)
    h.rows = h.rows + [x for c in chunks for x in c]
  elif op in ("upsert", "insert"):
    rows = h.new(2)
    if op == "upsert":
      rows[0]["k"] = h.rows[0]["k"]
      h.upsert(rows)
    else:
      h.insert(rows)
  else:
    h.delete(Bin("or", Cmp(Fld("k"), "==", h.rows[0]["k"]),
                 Cmp(Fld("k"), "==", h.rows[2]["k"])))
  h.judge("rows")
  new = files_of(h.ds, had)
  groups = [len(g) for _, g in new]
  one = op == "append_from" or op == "delete"
  if h.layout == "one":
    w.check(all(g == 1 for g in groups), f"row groups {groups}",
            "row groups without limits")
  if h.layout == "files":
    w.check(all(g == 1 for g in groups), f"row groups {groups} with limit 0",
            "row groups per file with limit 0")
    if op == "append_from":
      w.check(len(new) == 4, f"{len(new)} files of 4 writes",
              "files with limit 0")
    if op == "delete":
      w.check(len(new) == 2, f"{len(new)} files of 2 rewritten ones",
              "files with limit 0")
  elif kind == "local" and one:
    w.check(len(new) == 1, f"{len(new)} files without file limit",
            "files without limit")
    if h.layout == "groups" and op == "append_from":
      w.check(groups == [4], f"row groups {groups} of 4 writes",
              "row groups with limit 0")


def loaded(w):
  """Index files of loaded record files."""
  h = Hist(w, R1, fixed={"k": lambda i: i, "r": lambda i: b"own%d" % i})
  d = w.dir("ext")
  os.makedirs(d)
  by = {}
  for i in range(3):
    x = h.mk.one(r=b"rec%d" % i)
    by[x["r"]] = x
    wr = ar.ArrayRecordWriter(f"{d}/{i}", "group_size:1")
    wr.write(x["r"])
    wr.close()
  layout = w.choose("layout", ["one", "groups", "files"])
  r = h.ds.local(LAYOUTS[layout]).append_array_record(
      d + "/*", lambda rec: {n: by[rec["r"][0]][n] for n in ("k", "rid")})
  ok(w, r, "append_array_record")
  h.rows = list(by.values())
  h.judge("rows")
  got = [len(g) for _, g in files_of(h.ds)]
  w.check(got == {"one": [1], "groups": [3], "files": [1, 1, 1]}[layout],
          f"row groups {got}", "index files of loaded records")


def refreshed(w):
  """Files that a refresh of a materialized view writes."""
  h = Hist(w, SRC, fixed={"k": lambda i: i, "v": lambda i: i}, layout="files")
  c = w.int("c", -1, 2)
  mv = build(h.ds, [w.choose("view", [add_v(1), keep_v(">", c)])]
             ).materialize(w.dir("mv"))
  layout = w.choose("layout", ["one", "groups", "files"])
  h.append(1, 1)
  had = set()
  for _ in range(2):
    rs = mv.ray(RayOptions(max_parallelism=1), LAYOUTS[layout]).refresh()
    w.check(all(r.state in (OK, SKIPPED) for r in rs), "refresh")
    new = [(f, [g for g in gs if g]) for f, gs in files_of(mv, had)]
    new = [x for x in new if x[1]]
    groups = [len(g) for _, g in new]
    n = sum(len(g) for _, gs in new for g in gs)
    want = {"one": [1] if n else [], "groups": [n] if n else [],
            "files": [1] * n}[layout]
    w.check(groups == want, f"row groups {groups} of {n} blocks",
            "files of a refresh")
    had |= {f for f, _ in files_of(mv)}
    h.append(1, 1)


SCENARIOS = [
    ("refreshed", refreshed),
    ("index_limits", index_limits),
    ("record_limits", record_limits),
    ("operations", operations),
    ("loaded", loaded),
]
