"""C11: a crash or failure leaves the previous or the new state."""
from harness.faults import *  # pylint: disable=wildcard-import,unused-wildcard-import

BOUNDS = (
    "one crash, half-finished write or I/O error before any one file step"
    " (directory, open, write, rename, Parquet/ArrayRecord open/write/close;"
    " for I/O errors also reads) of one append, delete, upsert, insert,"
    " append_parquet, append_array_record or tag/branch operation on a dataset"
    " with 2 to 3 rows, of operations on a branch and of the creation of a"
    " dataset, or an exception of the data source after any batch;"
    " one further operation afterwards")
ASSUMPTIONS = [
    "file operations complete in program order; after a crash nothing of the"
    " process runs; a file operation either happens or not, but writes to"
    " streams may be cut"
]
FIX = {"v": lambda i: i, "r": lambda i: b"r%d" % i}
REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
           ["r"])
STEPS = 60


def equal_now(w, rows, want):
  """Whether the rows are want (decided on this path)."""
  g, x = by_rid(rows), by_rid(want)
  if [r["rid"] for r in g] != [r["rid"] for r in x]:
    return False
  return bool(L.And([cells_equal(a, b, list(b)) for a, b in zip(g, x)]))


def verify(w, h, before, after, snaps, what, must=None):
  """A fresh load shows before or after, all snapshots are readable."""
  ds = reopen(h.ds)
  got = read_rows(ds)
  is_before = equal_now(w, got, before)
  is_after = equal_now(w, got, after)
  w.check(is_before or is_after,
          f"{what}: rows {[r['rid'] for r in by_rid(got)]}",
          f"{what}: neither the previous nor the new state")
  if must == "before":
    w.check(is_before, f"{what}: readers see a change")
  elif must == "after":
    w.check(is_after, f"{what}: the change is lost")
  w.cover("before" if is_before else "after")
  for sid, rows in snaps.items():
    same(w, read_rows(ds, version=sid), rows, f"{what}: read of a snapshot")
  for sid in ds.storage.snapshot_ids:
    read_rows(ds, version=sid)
    if sid:
      list(ds.local().diff(0, sid))
  return ds, got


def go_on(w, h, ds, rows, what):
  """Further operations work."""
  h.ds, h.rows = ds, list(rows)
  new = h.mk.many(1)
  r = ds.local().append(h.spec.table(new))
  ok(w, r, f"{what}: append afterwards")
  rows = list(rows) + new
  same(w, read_rows(reopen(ds)), rows, f"{what}: append afterwards")
  r = ds.local().delete(pc.field("rid") == new[0]["rid"])
  ok(w, r, f"{what}: delete afterwards")
  same(w, read_rows(reopen(ds)), rows[:-1], f"{what}: delete afterwards")


def action(w, h, op):
  """(call, rows expected after success)."""
  spec = h.spec
  rows = h.rows
  k = spec.pks[0]
  if op == "append":
    new = h.mk.many(2)
    return (lambda: h.runner().append_from(
        lambda: iter([spec.table(new[:1]), spec.table(new[1:])]))), rows + new
  if op == "delete":
    c = rows[0][k]
    return (lambda: h.runner().delete(pc.field(k) == c)), [
        r for r in rows if not bool(r[k] == c)
    ]
  if op == "upsert":
    new = h.mk.many(1, k=rows[-1][k])
    return (lambda: h.runner().upsert(spec.table(new))), [
        r for r in rows if not bool(r[k] == rows[-1][k])
    ] + new
  if op == "insert":
    new = h.mk.many(1, k=h.w.choose("ink", [77]))
    return (lambda: h.runner().insert(spec.table(new))), rows + new
  if op == "parquet":
    new = h.mk.many(2)
    d = w.dir("ext")
    os.makedirs(d)
    for i, r in enumerate(new):
      pq.write_table(spec.table([r]), os.path.join(d, f"x{i}.parquet"))
    return (lambda: h.runner().append_parquet(d + "/*.parquet")), rows + new
  raise AssertionError(op)


def run(w, spec, ops, kind, reads=False, layout="files"):
  h = Hist(w, spec, layout=layout, fixed=FIX, distinct=True)
  h.append(2)
  if w.flag("second"):
    h.append(1)
  before = list(h.rows)
  op = w.choose("op", ops)
  call, after = action(w, h, op)
  f = Fault(w, kind, w.int("at", 0, STEPS), reads=reads)
  r = None
  try:
    with f:
      r = call()
  except Crash:
    w.cover("crashed")
  except Injected:
    w.cover("raised")
    r = "raised"
  w.observe("at", f.fired[0] if f.fired else None)
  must = None
  if f.fired is None:
    must = "after"
    ok(w, r, op)
  elif r is not None:
    # The operation ended: with an exception, a failed or a good result.
    if r == "raised" or r.state == FAILED:
      must = "before"
    elif r.state == OK:
      must = "after"
    else:
      must = "before"
  ds, rows = verify(w, h, before, after, dict(h.snaps), f"{op} with {kind}",
                    must)
  if kind == "error" and w.flag("same_handle"):
    # The same handle is used further; even without a reload it shows only
    # what has been committed.
    seen, there = set(h.ds.storage.snapshot_ids), set(ds.storage.snapshot_ids)
    w.check(seen <= there, f"snapshots {sorted(seen - there)} are not committed",
            "handle shows an uncommitted snapshot")
    same(w, read_rows(h.ds), rows, f"{op}: same handle")
    ds = h.ds
  rows = after if not equal_now(w, rows, before) else before
  go_on(w, h, ds, rows, f"{op} with {kind}")


COVER = ("before", "after", "crashed")


def crash(w):
  run(w, KV, ["append", "delete", "upsert", "insert", "parquet"], "crash")


def torn(w):
  run(w, KV, ["append", "delete", "upsert"], "torn")


def crash_records(w):
  run(w, REC, ["append", "delete", "upsert"], "crash",
      layout=options(0, 0, 0))


def io_error(w):
  run(w, KV, ["append", "delete", "upsert", "insert", "parquet"], "error",
      reads=True)


def io_error_records(w):
  run(w, REC, ["append", "delete", "upsert"], "error", reads=True,
      layout=options(0, 0, 0))


def source(w):
  """The data source fails after some batches."""
  spec = w.choose("spec", [KV, REC])
  h = Hist(w, spec, layout=w.choose("layout", ["one", options(0, 0, 0)]),
           fixed=FIX)
  h.append(w.choose("n", [0, 1]))
  before = list(h.rows)
  new = h.mk.many(3)
  at = w.choose("at", [0, 1, 2, 3])
  exc = w.choose("exc", [ValueError, KeyError, errors.UserInputError,
                         errors.SpaceRuntimeError])

  def src():
    for i, r in enumerate(new):
      if i == at:
        raise exc("source")
      yield spec.table([r])
    if at == 3:
      raise exc("source")

  failed = False
  try:
    fns = [src] if w.flag("list") else src
    r = h.runner().append_from(fns)
    failed = r.state == FAILED
  except (ValueError, KeyError):
    failed = True
  w.check(failed, "a failing source fails the append")
  ids = sorted(h.snaps)
  ds, rows = verify(w, h, before, before, dict(h.snaps), "failing source",
                    "before")
  w.check(sorted(ds.storage.snapshot_ids) == ids, "no snapshot was added")
  same(w, read_rows(h.ds), before, "same handle")
  go_on(w, h, h.ds if w.flag("same") else ds, before, "failing source")


def references(w):
  """Tag and branch operations."""
  h = Hist(w, KV, fixed=FIX)
  h.append(1)
  h.ds.add_tag("t")
  h.ds.add_branch("b")
  op = w.choose("op", ["add_tag", "add_branch", "remove_tag", "remove_branch"])
  kind = w.choose("kind", ["crash", "torn", "error"])
  arg = {"add_tag": "t2", "add_branch": "b2", "remove_tag": "t",
         "remove_branch": "b"}[op]
  f = Fault(w, kind, w.int("at", 0, 20), reads=kind == "error")
  raised = True
  try:
    with f:
      getattr(h.ds, op)(arg)
      raised = False
  except (Crash, Injected):
    pass
  ds = reopen(h.ds)
  refs = set(ds.storage.metadata.refs)
  old = {"t", "b"}
  new = old | {arg} if op.startswith("add") else old - {arg}
  if not raised:
    w.check(refs == new, "references after success")
  elif kind == "error":
    w.check(refs == old, "references after an error")
  else:
    w.check(refs in (old, new), "references after a crash")
  if kind == "error":
    h.ds.storage.reload()
    w.check(set(h.ds.storage.metadata.refs) == refs, "same handle")
  for r in refs:
    same(w, read_rows(ds, version=r), h.rows, "read of a reference")
  go_on(w, h, ds, h.rows, "reference operation")


def on_branch(w):
  """A crash while committing to a branch."""
  h = Hist(w, KV, layout="files", fixed=FIX, distinct=True)
  h.append(2)
  main = list(h.rows)
  h.ds.add_branch("b")
  h.ds.set_current_branch("b")
  before = list(h.rows)
  call, after = action(w, h, w.choose("op", ["append", "delete", "upsert"]))
  kind = w.choose("kind", ["crash", "error"])
  f = Fault(w, kind, w.int("at", 0, STEPS), reads=kind == "error")
  try:
    with f:
      call()
  except (Crash, Injected):
    pass
  ds = reopen(h.ds)
  same(w, read_rows(ds), main, "main")
  ds.set_current_branch("b")
  got = read_rows(ds)
  a, b = equal_now(w, got, before), equal_now(w, got, after)
  w.check(a or b, "the branch has neither the previous nor the new state")
  if kind == "error" and f.fired:
    w.check(a, "an error changed the branch")
  if not f.fired:
    w.check(b, "the branch has the new state")
  go_on_branch = h.mk.many(1)
  ok(w, ds.local().append(KV.table(go_on_branch)), "append afterwards")
  same(w, read_rows(ds), (before if a else after) + go_on_branch,
       "append on the branch afterwards")


def create(w):
  """A crash while creating a dataset: it exists completely or not at all."""
  loc = w.dir()
  kind = w.choose("kind", ["crash", "torn", "error"])
  f = Fault(w, kind, w.int("at", 0, 20), reads=kind == "error")
  done = False
  try:
    with f:
      KV.create(loc)
      done = True
  except (Crash, Injected):
    pass
  ds = None
  try:
    ds = Dataset.load(loc)
  except FileNotFoundError:
    w.check(not done, "the created dataset is not there")
  if ds is None:
    ds = KV.create(loc)
  h = Hist(w, KV, ds=ds, fixed=FIX)
  same(w, read_rows(ds), [], "new dataset")
  go_on(w, h, ds, [], "create")


SCENARIOS = [
    ("crash", crash, ("quick", "thorough"), COVER),
    ("torn", torn, ("quick", "thorough"), COVER),
    ("crash_records", crash_records, ("quick", "thorough"), COVER),
    ("io_error", io_error, ("quick", "thorough"), ("before", "after",
                                                   "raised")),
    ("io_error_records", io_error_records),
    ("source", source),
    ("references", references),
    ("on_branch", on_branch),
    ("create", create),
]
