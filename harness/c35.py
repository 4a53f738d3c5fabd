"""C35: an interrupted or failed refresh can be repeated."""
from harness.faults import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness.mv import *  # pylint: disable=wildcard-import,unused-wildcard-import

BOUNDS = (
    "one crash, half-finished write or I/O error before any one file step of a"
    " refresh over 1 to 3 source commits, or an exception of the transform at"
    " any one call, or deletions of duplicated source keys; source commits, and another handle's refresh, between any"
    " two file steps of a refresh; then one more refresh by a fresh or the same"
    " handle, and one after a further source commit")
BUDGET = {"quick": 150, "thorough": 600}
ASSUMPTIONS = RAY_ASSUMPTIONS + [
    "file operations complete in program order; after a crash nothing of the"
    " process runs",
    "transforms are functions of the row that keep the primary key; source"
    " keys are distinct and not NULL",
]
STEPS = 90


class Sync:

  def __init__(self, w, steps, layout="one"):
    self.w, self.steps = w, steps
    self.h = Hist(w, SRC, layout=layout, fixed=FIX, distinct=True, lo=-20,
                  hi=20)
    self.view = build(self.h.ds, steps)
    self.mv = self.view.materialize(w.dir("mv"))

  def refresh(self, mv=None):
    return (mv or self.mv).ray(RayOptions(max_parallelism=2)).refresh()

  def fresh(self):
    return MaterializedView.load(self.mv.storage.location)

  def good(self, mv=None, what="refresh"):
    for r in self.refresh(mv):
      ok(self.w, r, what, (OK, SKIPPED))

  def want(self, rows=None):
    return meaning(self.h.rows if rows is None else rows, self.steps)

  def judge(self, mv, rows=None, what="materialized view"):
    same(self.w, rows_of(mv.local().read_all()), self.want(rows), what)

  def boundary(self, mv, what):
    """The content is the view at the source snapshot of the same ID."""
    mv.storage.reload()
    sid = mv.storage.metadata.current_snapshot_id
    w = self.w
    w.check(sid in self.h.snaps, f"{what}: snapshot {sid} is none of the source",
            f"{what}: snapshot ID")
    if sid in self.h.snaps:
      self.judge(mv, self.h.snaps[sid], f"{what}: at a source snapshot")
    for s in mv.storage.snapshot_ids:
      if s in self.h.snaps:
        same(w, rows_of(mv.local().read_all(version=s)),
             self.want(self.h.snaps[s]), f"{what}: version of the view")
    return sid


def history(s, w, n=None):
  s.h.append(2)
  if w.flag("refreshed before"):
    s.good()
  s.h.step(["append", "delete", "upsert"], "1")
  if w.tier == "thorough":
    s.h.step(["append", "delete"], "2")


def finish(s, w, mv, what):
  """Repeating the refresh brings the view up to date."""
  s.good(mv, f"{what}: refresh again")
  s.judge(mv, what=f"{what}: refreshed again")
  s.judge(s.fresh(), what=f"{what}: fresh load")
  s.h.append(1)
  s.good(mv, f"{what}: next refresh")
  s.judge(s.fresh(), what=f"{what}: after the next commit")


def interrupted(kind):

  def run(w):
    s = Sync(w, [add_v(1)] if w.flag("map") else [keep_v("<", 2)])
    history(s, w)
    f = Fault(w, kind, w.int("at", 0, STEPS))
    raised, res = False, None
    try:
      with f:
        res = s.refresh()
    except Crash:
      pass
    except Injected:
      raised = True
    w.observe("at", f.fired[0] if f.fired else None)
    what = f"refresh with {kind}"
    if f.fired is None or (res is not None and
                           all(r.state in (OK, SKIPPED) for r in res)):
      s.judge(s.fresh(), what=what)
    s.boundary(s.fresh(), what)
    # After an error the same process may go on with its handle.
    mv = s.mv if (raised or res is not None) and w.flag("same") else s.fresh()
    finish(s, w, mv, what)

  return run


BAD = {"at": None, "n": 0}


def fails(w):
  """The transform raises at one of its calls."""
  calls = [0]
  at = w.int("at", 0, 6)
  armed = [True]

  def hit():
    i = calls[0]
    calls[0] += 1
    if armed[0] and bool(at == i):
      raise ValueError("transform")

  def fn(b):
    hit()
    out = dict(b)
    out["v"] = b["v"] + 1
    return out

  def keep(r):
    hit()
    return r["v"] < 2

  if w.flag("map"):
    step = Step(
        lambda v: v.map_batches(fn, output_schema=pa.schema(
            [pa.field(f.name, f.type) for f in v.schema]), batch_size=1),
        lambda r: {**r, "v": r["v"] + 1})
  else:
    step = Step(lambda v: v.filter(keep),
                lambda r: r if r["v"] < 2 else None)
  # The functions are used by the view in memory, not the pickled ones.
  h = Hist(w, SRC, layout=w.choose("layout", ["one", "files"]), fixed=FIX,
           distinct=True, lo=-20, hi=20)
  s = Sync.__new__(Sync)
  s.w, s.steps, s.h = w, [step], h
  s.view = build(h.ds, [step])
  plain = build(h.ds, [add_v(1) if step.row({"v": 5}) else keep_v("<", 2)])
  mv = plain.materialize(w.dir("mv"))
  s.mv = MaterializedView(mv.storage, s.view)
  s.h.append(2)
  if w.flag("refreshed before"):
    armed[0] = False
    s.good()
    armed[0] = True
    calls[0] = 0
  s.h.step(["append2", "delete", "upsert"], "1")
  s.h.append(1)
  raised = False
  try:
    res = s.refresh()
    for r in res:
      ok(w, r, "refresh", (OK, SKIPPED))
  except ValueError as e:
    w.check("transform" in str(e), f"unexpected {e!r}")
    raised = True
  other = MaterializedView(Dataset.load(mv.storage.location).storage, plain)
  if not raised:
    s.judge(other, what="refresh")
  s.boundary(other, "transform raises")
  armed[0] = False
  mv = s.mv if w.flag("same") else other
  s.good(mv, "refresh again")
  s.judge(mv, what="refreshed again")
  s.boundary(other, "refreshed again")


def meanwhile(w):
  """The source is changed between two file steps of a refresh."""
  deep = w.tier == "thorough"
  s = Sync(w, [keep_v("<", 3)] if deep and w.flag("filter") else [add_v(1)])
  history(s, w)
  src = w.flag("other handles")

  def change():
    ds = s.h.ds
    if src:
      s.h.ds = reopen(ds)
    if w.choose("change", ["append", "delete"]) == "append":
      s.h.append(1)
    else:
      s.h.delete(Cmp(Fld("k"), "==", s.h.rows[0]["k"]) if s.h.rows else Cmp(
          Fld("k"), ">", 100))
    s.h.ds = ds

  f = Fault(w, "call", w.int("at", 0, STEPS), fn=change)
  with f:
    s.good()
  s.boundary(s.fresh(), "refresh while the source changes")
  finish(s, w, s.fresh() if src else s.mv, "refresh while the source changes")


def two(w):
  """Another handle refreshes between two file steps of a refresh."""
  s = Sync(w, [add_v(1)])
  history(s, w)
  other = s.fresh()
  f = Fault(w, "call", w.int("at", 0, STEPS), fn=lambda: s.good(other))
  with f:
    res = s.refresh()
  states = [r.state for r in res]
  w.check(all(x in (OK, SKIPPED, FAILED) for x in states), f"states {states}")
  if f.fired is None:
    w.check(FAILED not in states, "a refresh failed without a reason")
  s.boundary(s.fresh(), "two refreshes at once")
  if f.fired is not None or FAILED not in states:
    s.judge(s.fresh(), what="two refreshes at once")
  finish(s, w, s.fresh() if w.flag("fresh") else s.mv, "two refreshes at once")


def refused(w):
  """A change that a refresh cannot apply ends it at the change before."""
  s = Sync(w, [add_v(1)], layout=w.choose("layout", ["one", "files"]))
  s.h.append(1)
  k = s.h.rows[0]["k"] if w.flag("existing key") else s.h.new(1)[0]["k"]
  s.h.append_rows([s.h.mk.one(k=k), s.h.mk.one(k=k)])
  before = s.h.head()
  if w.flag("refreshed"):
    s.good()
  s.h.delete(Cmp(Fld("k"), "==", k))
  if w.flag("more"):
    s.h.append(1)
  old = s.fresh()
  n = len(old.local().read_all() or []) if old.storage.snapshot(
  ).snapshot_id else 0
  results = s.refresh()
  states = [r.state for r in results]
  w.check(bool(states), "refresh did nothing")
  w.check(
      sum(r.storage_statistics_update.num_rows for r in results
          if r.storage_statistics_update is not None) ==
      s.fresh().storage.snapshot().storage_statistics.num_rows - n,
      "jobs returned by the refresh against the change of the view")
  if FAILED in states:
    w.check(states.index(FAILED) == len(states) - 1,
            "refresh goes on after a failure")
    mv = s.fresh()
    w.check(s.boundary(mv, "failed refresh") == before, "failed refresh")
  else:
    s.judge(s.fresh(), what="refresh")


SCENARIOS = [
    ("refused", refused),
    ("crash", interrupted("crash")),
    ("error", interrupted("error")),
    ("torn", interrupted("torn")),
    ("fails", fails),
    ("meanwhile", meanwhile),
    ("two", two),
]
