"""C34: a read that has started is not affected by later operations."""
from harness.mv import *  # pylint: disable=wildcard-import,unused-wildcard-import

from space.core.random_access import RandomAccessDataSource

BOUNDS = (
    "one read, filtered read, projection, reference read, diff (local and Ray),"
    " Ray dataset, view or random access source over 2 to 4 rows in up to 4"
    " batches, stopped after any number of batches (symbolic) while up to 2"
    " further operations (append, delete, upsert, insert, tag and branch"
    " changes, a switch of branch, another read) run through the same or"
    " another handle; two reads of one handle taking turns")
BUDGET = {"quick": 120, "thorough": 600}
ASSUMPTIONS = RAY_ASSUMPTIONS + [
    "operations run between two batches, not inside one call of a read",
]
FIXED = {"v": lambda i: i, "r": lambda i: b"r%d" % i}


class Reader:
  """An iterator that is read in two parts."""

  def __init__(self, it):
    self.it = iter(it)
    self.out = []
    self.n = 0
    self.done = False

  def some(self, w, at):
    while not self.done and bool(at > self.n):
      self._next()

  def _next(self):
    try:
      self.out.append(next(self.it))
      self.n += 1
    except StopIteration:
      self.done = True

  def rest(self):
    while not self.done:
      self._next()
    return self.out


def start(w, h, kind, ro):
  """(iterator, function from its elements to rows, expected rows)."""
  ds = h.ds
  rows = list(h.rows)
  tables = lambda ts: [r for t in ts for r in t.to_pylist()]
  if kind == "read":
    return ds.local().read(batch_size=1), tables, rows
  if kind == "version":
    return (ds.local().read(version=1, batch_size=1), tables,
            list(h.snaps[1]))
  if kind == "filter":
    c = Cmp(Fld("k"), "<", w.int("f", -20, 20))
    return (ds.local().read(filter_=c.expr(), batch_size=1), tables,
            split(rows, c)[0])
  if kind == "fields":
    return (ds.local().read(fields=["rid", "r"]), tables,
            [{"rid": r["rid"], "r": r["r"]} for r in rows])
  if kind == "ray":
    return ds.ray(ro).read(batch_size=1), tables, rows
  if kind == "dataset":
    d = ds.ray_dataset(ro, ReadOptions(batch_size=1))
    return d.iter_batches(batch_size=None, batch_format="pyarrow"), tables, rows
  if kind == "view":
    v = build(ds, [keep_v("<", 2)])
    return v.ray(ro).read(), tables, meaning(rows, [keep_v("<", 2)])
  if kind == "random":
    src = RandomAccessDataSource({"r": ds.storage},
                                 use_array_record_data_source=False)
    conv = lambda xs: [{"rid": i, "r": x} for i, x in enumerate(sorted(xs))]
    return src, conv, conv([r["r"] for r in rows])
  raise AssertionError(kind)


def other_ops(w, h, who, tag):
  """One operation by a handle."""
  ds = h.ds
  if who == "other":
    h.ds = reopen(ds)
  op = w.choose("op" + tag, ["append", "delete", "upsert", "refs", "switch",
                             "read"])
  if op == "append":
    h.append(1)
  elif op == "delete":
    c = w.choose("which" + tag, ["all", "one"])
    if c == "all":
      h.delete(Cmp(Fld("v"), ">=", 0))
    elif h.rows:
      h.delete(Cmp(Fld("k"), "==", h.rows[0]["k"]))
  elif op == "upsert" and h.rows:
    h.upsert(h.mk.many(1, k=h.rows[-1]["k"]))
  elif op == "refs":
    h.ds.add_tag("t" + tag)
    h.ds.remove_tag("t" + tag)
    h.ds.add_branch("b" + tag)
  elif op == "switch":
    h.ds.add_branch("s" + tag)
    h.ds.set_current_branch("s" + tag)
    h.append(1)
  elif op == "read":
    read_rows(h.ds)
    list(h.ds.local().read(batch_size=1, version=1))
  if who == "other":
    h.ds = ds
  return op


KINDS = ["read", "version", "filter", "fields", "ray", "dataset", "view",
         "random"]


def during(w):
  """Operations between two batches of a read."""
  h = Hist(w, SRCR, layout=w.choose("layout", ["files", "groups"]),
           fixed=FIXED, distinct=True, lo=-20, hi=20)
  h.append(2)
  h.append(1)
  if w.flag("deleted"):
    h.delete(Cmp(Fld("k"), "==", h.rows[0]["k"]))
  ro = RayOptions(max_parallelism=2)
  it, conv, want = start(w, h, w.choose("kind", KINDS), ro)
  r = Reader(it)
  r.some(w, w.int("at", 0, 4))
  who = w.choose("who", ["same", "other"])
  other_ops(w, h, who, "1")
  if w.tier == "thorough":
    other_ops(w, h, who, "2")
  same(w, conv(r.rest()), want, "read")


def refs(w):
  """A reader that skips addresses: values are fetched later."""
  h = Hist(w, SRCR, layout=w.choose("layout", ["files", "one"]), fixed=FIXED,
           distinct=True, lo=-20, hi=20)
  h.append(2, 1)
  addr = h.ds.local().read_all(fields=["rid", "r"], reference_read=True)
  want = sorted(r["r"] for r in h.rows)
  who = w.choose("who", ["same", "other"])
  other_ops(w, h, who, "1")
  other_ops(w, h, who, "2")
  src = RandomAccessDataSource(
      {"r": h.ds.storage}, addr.select(["r"]),
      use_array_record_data_source=w.flag("array_record"))
  w.check(sorted(src) == want, "values at addresses read before")


def feed(ds, runner, ro, a, b):
  return (ds.local() if runner == "local" else ds.ray(ro)).diff(a, b,
                                                               batch_size=1)


def diffs(w):
  """Operations between two changes of a diff."""
  h = Hist(w, SRCR, layout="files", fixed=FIXED, distinct=True, lo=-20, hi=20)
  h.append(2)
  h.step(["append", "delete", "upsert"], "0")
  end = h.head()
  deltas = list(h.deltas)
  runner = w.choose("runner", ["local", "ray"])
  r = Reader(feed(h.ds, runner, RayOptions(max_parallelism=2), 0, end))
  r.some(w, w.int("at", 0, 4))
  other_ops(w, h, w.choose("who", ["same", "other"]), "1")
  changes = r.rest()
  for sid, deleted, added in deltas:
    cs = [c for c in changes if c.snapshot_id == sid]
    new = [x for c in cs if c.type_.name == "ADD" for x in rows_of(c.data)]
    same(w, new, added, "diff: added rows")
    gone = [x for c in cs if c.type_.name == "DELETE" for x in rows_of(c.data)]
    w.check(len(gone) == len(deleted) and L.And([
        L.Or([L.Eq(g["k"], d["k"]) for g in gone]) for d in deleted]),
            "diff: deleted keys")
  w.check(all(c.snapshot_id <= end for c in changes), "diff: later snapshots")


def turns(w):
  """Two reads of one handle taking turns, also of different branches."""
  h = Hist(w, SRCR, layout="files", fixed=FIXED, distinct=True, lo=-20, hi=20)
  h.append(2)
  base = list(h.rows)
  h.ds.add_branch("b")
  h.step(["append", "delete"], "m")
  main = list(h.rows)
  h.ds.set_current_branch("b")
  h.rows = base
  h.append(1)
  br = list(h.rows)
  ray = w.flag("ray")
  go = lambda **k: (h.ds.ray(RayOptions(max_parallelism=2)) if ray else h.ds.
                    local()).read(batch_size=1, **k)
  one = Reader(go())
  at = w.int("at", 0, 3)
  one.some(w, at)
  h.ds.set_current_branch("main")
  two = Reader(go(fields=["rid", "v"]))
  two.some(w, at)
  three = Reader(go(version=1))
  tables = lambda ts: [r for t in ts for r in t.to_pylist()]
  same(w, tables(one.rest()), br, "read of the branch")
  same(w, tables(two.rest()),
       [{"rid": r["rid"], "v": r["v"]} for r in main], "read of main")
  same(w, tables(three.rest()), base, "read of a version")


def source_reads(w):
  """A dataset is appended from its own read."""
  h = Hist(w, SRCR, layout="files", fixed=FIXED, distinct=True, lo=-20, hi=20)
  h.append(2)
  h.step(["append", "delete"])
  rows = list(h.rows)
  how = w.choose("how", ["lazy", "started", "other"])
  ds = reopen(h.ds) if how == "other" else h.ds
  r = Reader(h.ds.local().read(batch_size=1))
  r.some(w, w.int("at", 0, 2))
  if how == "started":
    res = ds.local().append_from(lambda: iter(r.rest()))
  else:
    res = ds.local().append_from(lambda: h.ds.local().read(batch_size=1))
  ok(w, res, "append of a read", (OK,) if rows else (SKIPPED,))
  got = read_rows(ds)
  w.check(sorted(x["rid"] for x in got) == sorted([x["rid"] for x in rows] * 2),
          "rows appended from a read of the dataset")
  one = {x["rid"]: x for x in rows}
  w.check(L.And([cells_equal(x, one[x["rid"]], SRCR.names) for x in got
                 if x["rid"] in one]), "values appended from a read")


SCENARIOS = [
    ("during", during),
    ("refs", refs),
    ("diffs", diffs),
    ("turns", turns),
    ("source_reads", source_reads),
]
