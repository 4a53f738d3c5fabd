"""C10: a branch only sees its own commits."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from space.core.ops.change_data import ChangeType

BOUNDS = (
    "main, up to 2 branches and 2 tags, up to 5 commits in any order by up to"
    " 2 handles; append, delete, upsert, insert of 1 row")
ASSUMPTIONS = []
FIX = {"v": lambda i: i}


class Tree:
  """Reference state of every branch and tag."""

  def __init__(self, w, h):
    self.w, self.h = w, h
    self.rows = {"main": list(h.rows)}
    self.tags = {}
    self.base = {}  # snapshot a branch started from
    self.own = {}  # its own commits: [(snapshot, deleted, added)]

  def branch(self, name, ds=None):
    ds = ds or self.h.ds
    ds.add_branch(name)
    self.rows[name] = list(self.rows["main"])
    self.base[name] = ds.storage.metadata.current_snapshot_id
    self.own[name] = []

  def tag(self, name):
    self.h.ds.add_tag(name)
    self.tags[name] = list(self.rows["main"])

  def commit(self, name, ops, tag=""):
    h = self.h
    h.ds.set_current_branch(name)
    h.rows = self.rows[name]
    n = len(h.deltas)
    h.step(ops, tag)
    self.rows[name] = h.rows
    if name in self.own:
      self.own[name] += h.deltas[n:]

  def judge(self, ds):
    for b, rows in self.rows.items():
      ds.storage.reload()
      ds.set_current_branch(b)
      same(self.w, read_rows(ds), rows, "read of a branch"
           if b != "main" else "read of main")
      if b != "main":
        same(self.w, read_rows(ds, version=b), rows, "read of version=branch")
      if self.own.get(b):
        self.judge_feed(ds, b)
    ds.set_current_branch("main")
    for t, rows in self.tags.items():
      same(self.w, read_rows(ds, version=t), rows, "read of a tag")


  def judge_feed(self, ds, b):
    """The changes of a branch since its start are its own commits."""
    got = [(c.snapshot_id, c.type_, rows_of(c.data))
           for c in ds.local().diff(self.base[b], b)]
    for sid, deleted, added in self.own[b]:
      mine = [g for g in got if g[0] == sid]
      gone = [r for g in mine if g[1] == ChangeType.DELETE for r in g[2]]
      self.w.check(
          multiset_eq(gone, [{"k": r["k"]} for r in deleted], ["k"]),
          "deleted keys in the changes of a branch")
      same(self.w, [r for g in mine if g[1] == ChangeType.ADD for r in g[2]],
           added, "added rows in the changes of a branch")
    own = {d[0] for d in self.own[b]}
    self.w.check(not [g for g in got if g[0] not in own],
                 "changes of a branch list commits of another branch")


OPS = ["append", "delete", "upsert"]


def one_branch(w):
  h = Hist(w, KV, layout=w.choose("layout", ["one", "files"]), fixed=FIX)
  h.append(1, 1)
  t = Tree(w, h)
  t.tag("t")
  t.branch("b")
  for i, b in enumerate(w.choose("order", ["b", "bm", "mb", "bb"])):
    t.commit("main" if b == "m" else b, OPS, str(i))
  t.judge(h.ds)
  t.judge(reopen(h.ds))


def two_branches(w):
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1)
  t = Tree(w, h)
  t.branch("b")
  t.commit("main", ["append"], "m0")
  h.ds.set_current_branch("main")
  t.branch("c")
  t.tag("t")
  for i, b in enumerate(
      w.choose("order", ["b c", "c b", "b b main", "c main b", "main c"
                        ]).split()):
    t.commit(b, ["append", "delete"], str(i))
  t.judge(h.ds)
  t.judge(reopen(h.ds))


def from_branch(w):
  """A new branch starts from main, whatever the current branch is."""
  h = Hist(w, KV, fixed=FIX)
  h.append(1)
  t = Tree(w, h)
  t.branch("b")
  t.commit("b", ["append", "delete"], "0")
  if w.flag("back"):
    h.ds.set_current_branch("main")
  t.branch("c")
  t.commit("c", ["append"], "1")
  if w.flag("remove"):
    h.ds.remove_branch("b")
    del t.rows["b"]
    t.branch("b")
  t.judge(reopen(h.ds))


def two_handles(w):
  """Each handle works on its own branch."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1)
  t = Tree(w, h)
  t.branch("b")
  hs = {"main": h.ds, "b": reopen(h.ds)}
  for i, b in enumerate(w.choose("order", ["bm", "mb", "bmb", "mbm"])):
    b = "main" if b == "m" else b
    h.ds = hs[b]
    h.ds.set_current_branch(b)
    h.ds.storage.reload()
    t.commit(b, OPS if i == 0 else ["append", "delete"], str(i))
  for ds in hs.values():
    t.judge(ds)


def insert_branch(w):
  """Keys of another branch do not count for insert."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1)
  t = Tree(w, h)
  t.branch("b")
  t.commit("b", ["append"], "0")
  t.commit("main", ["insert", "upsert"], "1")
  t.commit("b", ["insert"], "2")
  t.judge(h.ds)


SCENARIOS = [
    ("one_branch", one_branch),
    ("two_branches", two_branches),
    ("from_branch", from_branch),
    ("two_handles", two_handles),
    ("insert_branch", insert_branch),
]
