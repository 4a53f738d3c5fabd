"""C09: snapshots are immutable and never reused."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "up to 5 commits on main and up to 2 branches by up to 2 handles, with tag"
    " and branch additions and removals in between; 1 to 2 rows per commit")
ASSUMPTIONS = []
FIX = {"v": lambda i: i, "r": lambda i: b"r%d" % i}
REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
           ["r"])


class Log:
  """Everything that was ever visible under a snapshot ID or tag."""

  def __init__(self, w, h):
    self.w, self.h = w, h
    self.seen = {}
    self.protos = {}
    self.files = {}
    self.tags = {}
    self.note(h.ds)
    if h.head() == 0:
      self.seen[0] = []  # the empty snapshot of a new dataset

  def note(self, ds, new=None, rows=None):
    st = ds.storage
    st.reload()
    for sid in st.snapshot_ids:
      if sid not in self.protos:
        self.protos[sid] = str(st.snapshot(sid))
      for e in index_entries(ds, sid):
        f = e["_FILE"]
        if f not in self.files:
          self.files[f] = index_file(ds, f).to_pylist()
    if new is not None:
      self.w.check(new not in self.seen, f"snapshot ID {new} was used before",
                   "a snapshot ID is reused")
      self.seen[new] = list(rows)

  def tag(self, name, rows):
    self.tags[name] = list(rows)

  def judge(self, ds):
    w = self.w
    ds.storage.reload()
    for sid, rows in self.seen.items():
      if sid not in ds.storage.snapshot_ids:
        w.check(False, f"snapshot {sid} is gone", "a snapshot is gone")
        continue
      same(w, read_rows(ds, version=sid), rows, "read of a snapshot")
      w.check(str(ds.storage.snapshot(sid)) == self.protos[sid],
              "the metadata of a snapshot changed")
    for t, rows in self.tags.items():
      same(w, read_rows(ds, version=t), rows, "read of a tag")
    for f, rows in self.files.items():
      w.check(L.Eq(index_file(ds, f).to_pylist(), rows),
              "a data file was rewritten")


def commit(w, h, log, ops, tag=""):
  before = h.head()
  h.step(ops, tag)
  if h.head() != before:
    log.note(h.ds, h.head(), h.rows)


OPS = ["append", "delete", "upsert"]


def linear(w):
  h = Hist(w, w.choose("spec", [KV, REC]), layout="files", fixed=FIX)
  log = Log(w, h)
  h.append(1, 1)
  log.note(h.ds, h.head(), h.rows)
  commit(w, h, log, OPS, "a")
  h.ds.add_tag("t")
  log.tag("t", h.rows)
  commit(w, h, log, OPS, "b")
  log.judge(h.ds)
  log.judge(reopen(h.ds))


def branches(w):
  """Commits on main and a branch; the branch or tags may be removed."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  log = Log(w, h)
  h.append(1)
  log.note(h.ds, h.head(), h.rows)
  main = list(h.rows)
  h.ds.add_branch("b")
  order = w.choose("order", ["bm", "mb", "bbm", "bmb"])
  st = {"m": main, "b": list(main)}
  for i, o in enumerate(order):
    h.ds.set_current_branch("main" if o == "m" else "b")
    h.rows = st[o]
    commit(w, h, log, ["append", "delete"], str(i))
    st[o] = h.rows
  h.ds.set_current_branch("main")
  h.rows = st["m"]
  ev = w.choose("event", ["none", "remove", "remove+add", "tag+untag"])
  if ev.startswith("remove"):
    h.ds.remove_branch("b")
    if ev.endswith("add"):
      h.ds.add_branch("b")
  elif ev == "tag+untag":
    h.ds.add_tag("t", h.head())
    h.ds.remove_tag("t")
  if w.flag("fresh"):
    h.ds = reopen(h.ds)
  commit(w, h, log, ["append", "upsert"], "z")
  log.judge(h.ds)


def two_branches(w):
  h = Hist(w, KV, fixed=FIX)
  log = Log(w, h)
  h.append(1)
  log.note(h.ds, h.head(), h.rows)
  base = list(h.rows)
  h.ds.add_branch("b")
  h.ds.add_branch("c")
  st = {"main": base, "b": base, "c": base}
  seq = w.choose("seq", ["b c main", "c b c", "main b c", "b main b"])
  for i, br in enumerate(seq.split()):
    ds = h.ds
    if w.flag(f"fresh{i}"):
      ds = reopen(h.ds)
    ds.set_current_branch(br)
    h.ds, h.rows = ds, st[br]
    commit(w, h, log, ["append"], str(i))
    st[br] = h.rows
  h.ds.set_current_branch("main")
  h.ds.remove_branch("c")
  other = reopen(h.ds)
  h.ds, h.rows = other, st["main"]
  commit(w, h, log, ["append"], "z")
  log.judge(h.ds)


def handles(w):
  """Two handles taking turns, tags on old snapshots."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  log = Log(w, h)
  h.append(1)
  log.note(h.ds, h.head(), h.rows)
  hs = [h.ds, reopen(h.ds)]
  for i in range(3):
    h.ds = hs[w.choose("who", [0, 1])]
    h.ds.storage.reload()
    commit(w, h, log, ["append", "delete", "upsert"][:2 if i else 3], str(i))
    if i == 0:
      h.ds.add_tag("old", 1)
      log.tag("old", log.seen[1])
  for ds in hs:
    log.judge(ds)


def failed(w):
  """Refused and empty operations create and change nothing."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  log = Log(w, h)
  h.append(2)
  log.note(h.ds, h.head(), h.rows)
  ids = sorted(h.ds.storage.snapshot_ids)
  what = w.choose("what", ["insert", "nodelete", "noappend", "raise"])
  if what == "insert":
    h.insert(h.mk.many(1, k=h.rows[0]["k"]))
  elif what == "nodelete":
    h.delete(Cmp(Fld("v"), ">", 100))
  elif what == "noappend":
    h.append(0)
  else:

    def src():
      yield KV.table(h.mk.many(1))
      raise ValueError("source")

    w.check(w.raises(ValueError, lambda: h.runner().append_from(src)),
            "a source error is raised")
  w.check(sorted(reopen(h.ds).storage.snapshot_ids) == ids, "snapshot IDs")
  commit(w, h, log, ["append", "delete"], "z")
  log.judge(h.ds)


def big(w):
  """A line of a dozen commits, all versions read at the end."""
  h, tags = large.commits(w)
  if w.flag("fresh"):
    h.ds = reopen(h.ds)
  for sid, rows in h.snaps.items():
    same(w, read_rows(h.ds, version=sid), rows, "read of a snapshot")
  for t, rows in tags.items():
    same(w, read_rows(h.ds, version=t), rows, "read of a tag")


BOUNDS += large.BOUND
SCENARIOS = [
    ("linear", linear),
    ("branches", branches),
    ("two_branches", two_branches),
    ("handles", handles),
    ("failed", failed),
    ("big", big),
]
