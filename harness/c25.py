"""C25: a refreshed materialized view equals its view."""
from harness.mv import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "source histories of up to 4 commits (append, delete, upsert, of 1 to 3"
    " rows) with symbolic keys, values and filter constants; map, filter and"
    " chains of two, field subsets, record fields; refreshed after every"
    " commit, after several, to a tag or snapshot, twice, through another"
    " handle; batch sizes none, 1 and 2; parallelism 1 and 3; keys of one and two fields")
BUDGET = {"quick": 150, "thorough": 600}
ASSUMPTIONS = RAY_ASSUMPTIONS + [
    "transforms are functions of the row that keep the primary key; source"
    " keys are distinct and not NULL",
    "the source is refreshed along one line of history (main)",
]


class Sync:
  """A source history, a view of it, and its materialization."""

  def __init__(self, w, steps, spec=SRC, layout="files", fixed=FIX, **k):
    self.w, self.steps = w, steps
    self.h = Hist(w, spec, layout=layout, fixed=fixed, distinct=True, lo=-20,
                  hi=20, **k)
    self.view = build(self.h.ds, steps)
    self.mv = self.view.materialize(w.dir("mv"))
    self.par = w.choose("par", [1, 3]) if k.get("par") else 2

  def refresh(self, *a, mv=None, **k):
    mv = mv or self.mv

    def size():
      s = MaterializedView.load(mv.storage.location).storage
      return s.snapshot().storage_statistics.num_rows

    n = size()
    res = mv.ray(RayOptions(max_parallelism=self.par)).refresh(*a, **k)
    grown = size() - n
    self.w.check(
        grown == sum(r.storage_statistics_update.num_rows for r in res
                     if r.storage_statistics_update is not None),
        "statistics of the returned jobs against the change of the view")
    for r in res:
      self.w.check(r.state in (OK, SKIPPED),
                   f"refresh: {r.state.name} {r.error_message}",
                   "refresh failed")
    return res

  def judge(self, rows=None, what="materialized view", mv=None):
    mv = mv or self.mv
    want = meaning(self.h.rows if rows is None else rows, self.steps)
    got = rows_of(mv.local().read_all())
    same(self.w, got, want, what)
    w = self.w
    w.check(len(got) == mv.storage.snapshot().storage_statistics.num_rows,
            "num_rows of the materialized view")
    return got


def batch(w):
  return w.choose("batch", [None, 1, 2])


STEPS = {
    "add": lambda w: [add_v(w.int("n", -9, 9))],
    "keep": lambda w: [keep_v("<", w.int("c", -20, 20))],
    "add keep": lambda w: [add_v(w.int("n", -9, 9)),
                           keep_v("<", w.int("c", -20, 20))],
    "keep add": lambda w: [keep_v(">=", w.int("c", -20, 20)), add_v(3)],
    "project": lambda w: [project()],
    "keep project": lambda w: [keep_v("<", w.int("c", -20, 20)), project()],
    "add mul": lambda w: [add_v(2), mul_v(3)],
    "carried": lambda w: [carried(w.int("n", -9, 9))],
    "keep carried": lambda w: [keep_v("<", w.int("c", -20, 20)), carried(1)],
    "truthy": lambda w: [truthy(w.int("c", -20, 20),
                                w.choose("how", ["none", "zero"]))],
}


def once(w):
  """Several changes, one refresh."""
  steps = STEPS[w.choose("view", ["add", "keep", "add keep", "project"])](w)
  s = Sync(w, steps, fixed={})
  s.h.append(2)
  s.h.step(["delete", "upsert", "append"])
  s.refresh(batch_size=batch(w))
  s.judge()
  same(w, ray_rows(s.mv.ray()), meaning(s.h.rows, steps), "Ray read")


def chains(w):
  """Every view, an append and a delete of some rows."""
  steps = STEPS[w.choose("view", list(STEPS))](w)
  s = Sync(w, steps, layout="one", fixed={})
  s.h.append(2)
  s.h.delete(Cmp(Fld("k"), "<", w.int("d", -20, 20)))
  s.refresh(batch_size=w.choose("batch", [None, 1]))
  s.judge()


def stepwise(w):
  """Refreshed after every commit of the source."""
  steps = STEPS[w.choose("view", ["add", "keep"])](w)
  s = Sync(w, steps, fixed={})
  b = w.choose("batch", [None, 1])
  s.h.append(1)
  s.refresh(batch_size=b)
  s.judge()
  s.h.step(["append", "delete", "upsert"])
  s.refresh(batch_size=b)
  s.judge()
  s.h.step(["append", "delete"], "b")
  s.refresh(batch_size=b)
  s.judge()


def several(w):
  """Two changes per refresh."""
  steps = w.choose("view", [[add_v(5)], [keep_v(">=", 0), add_v(3)]])
  s = Sync(w, steps, layout="one")
  s.h.append(2)
  s.refresh()
  s.judge()
  s.h.step(["upsert", "delete"], "b")
  s.h.step(["upsert", "delv", "append2"], "c")
  s.refresh(batch_size=w.choose("batch", [None, 2]))
  s.judge()


def targets(w):
  """Refreshed to a tag or a snapshot, then to the end; too far is refused."""
  steps = STEPS[w.choose("view", ["add", "keep"])](w)
  s = Sync(w, steps)
  s.h.append(2)
  s.h.ds.add_tag("t")
  first, rows = s.h.head(), list(s.h.rows)
  s.h.step(["append", "delete", "upsert"])
  w.check(
      w.raises(errors.VersionNotFoundError,
               lambda: s.refresh(s.h.head() + 1)), "refresh beyond the source")
  s.refresh(0)
  s.judge([], "refreshed to the empty snapshot")
  s.refresh(w.choose("target", ["t", first]))
  s.judge(rows, "refreshed to a version")
  try:
    none = ray_rows(s.mv.ray(), version=0)
  except Exception:  # pylint: disable=broad-except
    none = []
  w.check(not none, "rows of the empty snapshot")
  s.refresh()
  s.judge()


def again(w):
  """Nothing to do: refreshing again changes nothing."""
  steps = STEPS[w.choose("view", ["add", "keep"])](w)
  s = Sync(w, steps)
  if w.flag("empty source"):
    s.refresh()
    s.judge()
  s.h.append(2)
  if w.flag("more"):
    s.h.step(["append", "delete"])
  s.refresh()
  s.refresh()
  s.judge()
  s.h.append(1)
  s.refresh()
  s.judge()


def records(w):
  """Record fields in the source and in the view."""
  steps = w.choose("view", [[add_v(1, record=True)],
                            [keep_v("<", 2)],
                            [keep_v("<", 2), add_v(1, record=True)]])
  s = Sync(w, steps, spec=SRCR, layout=w.choose("layout", ["files", "one"]))
  s.h.append(2, 1)
  s.h.step(["append", "delete", "upsert"])
  s.refresh(batch_size=batch(w))
  s.judge()


SUBSET_SIG = "refresh of a filter that reads only some fields"


def subset(w):
  """A filter that reads only some of the fields."""
  spec = Spec([("v", "int"), ("k", "int"), ("u", "int"), ("rid", "int")],
              ["k"])
  fields = w.choose("fields", [["k", "v", "rid"], ["rid", "v", "k"]])
  steps = [keep_v("<", w.int("c", -20, 20), fields=fields)]
  then = w.flag("then project")
  if then:
    steps.append(project())
  s = Sync(w, steps, spec=spec, fixed={"u": lambda i: i})
  s.h.append(2)
  got = ray_rows(s.view.ray())
  same(w, got, meaning(s.h.rows, steps), "view")
  if then:
    s.refresh()
    s.judge()
    s.h.step(["delete", "append", "upsert"])
    s.refresh()
    s.judge()
    return
  w.check(all(set(r) == set(fields) for r in got),
          "columns of the view are the fields it reads")
  try:
    s.refresh()
  except KeyError as e:
    if "u" not in str(e):
      raise
    w.check(False, f"refresh: {e!r}", SUBSET_SIG)
    return
  s.judge()


def handles(w):
  """Other handles of the view and of the source."""
  steps = [add_v(w.int("n", -9, 9))]
  s = Sync(w, steps)
  loc = s.mv.storage.location
  s.h.append(2)
  old = MaterializedView.load(loc)
  s.refresh()
  s.judge(mv=old, what="older handle")
  s.h.step(["append", "delete", "upsert"])
  which = w.choose("handle", ["old", "fresh", "same"])
  mv = {"old": lambda: old, "fresh": lambda: MaterializedView.load(loc),
        "same": lambda: s.mv}[which]()
  s.refresh(mv=mv)
  s.judge(mv=mv)
  s.judge(mv=MaterializedView.load(loc))
  s.h.append(1)
  s.refresh()
  s.judge()


def branch(w):
  """Commits on a branch of the source are not those of main."""
  s = Sync(w, [add_v(1)])
  s.h.append(2)
  s.refresh()
  main = list(s.h.rows)
  s.h.ds.add_branch("b")
  s.h.ds.set_current_branch("b")
  s.h.append(1)
  s.h.ds.set_current_branch("main")
  s.h.rows = main
  s.h.append(1)
  s.refresh()
  s.judge()
  s.h.step(["append", "delete", "upsert"])
  s.refresh()
  s.judge()


def by_view(w):
  """The view itself: reads and diffs transform the source."""
  steps = STEPS[w.choose("view", ["add", "keep", "keep project", "add mul"])](w)
  s = Sync(w, steps, fixed={})
  s.h.append(1, 1)
  s.h.step(["append", "delete"])
  ro = RayOptions(max_parallelism=w.choose("par", [1, 3]),
                  enable_row_range_block=w.flag("blocks"))
  b = w.choose("batch", [None, 1])
  same(w, ray_rows(s.view.ray(ro), batch_size=b), meaning(s.h.rows, steps),
       "view")
  first = s.h.snaps[1]
  same(w, ray_rows(s.view.ray(ro), batch_size=b, version=1),
       meaning(first, steps), "older version of the view")
  got = [r for c in s.view.ray(ro).diff(0, 1, batch_size=b)
         for r in rows_of(c.data)]
  same(w, got, meaning(first, steps), "diff of the view")


def composite(w):
  """Keys of two fields: what shares just one of them stays."""
  spec = Spec([("k", "int"), ("g", w.choose("type", ["int", "str"])),
               ("v", "int"), ("rid", "int")],
              w.choose("keys", [["k", "g"], ["g", "k"]]))
  s = Sync(w, w.choose("view", [[add_v(1)], [keep_v("<", 2), add_v(3)]]),
           spec=spec, layout=w.choose("layout", ["files", "one"]))
  s.h.append(2, 1)
  s.refresh()
  s.judge()
  op = w.choose("op", ["delete", "delv", "both", "upsert"])
  if op == "upsert":
    s.h.upsert(s.h.mk.many(1))
  elif op == "both":
    one = s.h.rows[0]
    s.h.delete(Bin("and", Cmp(Fld("k"), "==", one["k"]),
                   Cmp(Fld("g"), "==", one["g"])))
  else:
    s.h.delete(Cmp(Fld("k" if op == "delete" else "v"), "<",
                   w.int("d", -20, 20)))
  s.refresh()
  s.judge()


def big(w):
  """A dozen source commits and hundreds of rows in one refresh."""
  s = Sync(w, [keep_v("<", w.choose("c", [1, 4])), add_v(2)], fixed=large.LFIX)
  s.h.distinct = False
  n = 5
  s.h.append(*([11] * 12))
  s.refresh(batch_size=w.choose("batch", [None, 10]))
  s.judge()
  for i in range(n):
    s.h.append(2)
    s.h.delete(Cmp(Fld("k"), "==", 7 * i))
  s.h.delete(Cmp(Fld("k"), ">=", large.cut(w, at=100)))
  s.refresh()
  s.judge()


BOUNDS += large.BOUND
SCENARIOS = [
    ("once", once),
    ("chains", chains),
    ("stepwise", stepwise),
    ("several", several),
    ("targets", targets),
    ("again", again),
    ("records", records),
    ("subset", subset),
    ("handles", handles),
    ("branch", branch),
    ("by_view", by_view),
    ("composite", composite),
    ("big", big),
]
