"""C17: tags and branches always resolve to what they were given."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "sequences of up to 3 (quick) or 4 (thorough) of: add/remove tag/branch with"
    " 4 names (two free, the reserved one, the empty one) and snapshots given,"
    " implied or unknown, switching branches, commits on any branch; through one"
    " and two handles; three references to one snapshot; names like numbers,"
    " paths and other names; row values symbolic")
BUDGET = {"quick": 120, "thorough": 600}
ASSUMPTIONS = []
FIX = {"v": lambda i: i}
NAMES = ["a", "b", "main", ""]
REFUSED = (errors.UserInputError, errors.VersionNotFoundError,
           errors.VersionAlreadyExistError)


class Model:
  """Reference semantics."""

  def __init__(self, w, n=2):
    self.w = w
    self.ds = KV.create(w.dir())
    self.mk = Rows(w, KV, fixed=FIX, lo=-40, hi=40)
    self.snaps = {0: []}
    self.main = 0
    self.refs = {}
    self.cur = "main"
    for _ in range(n):
      self.commit("append")

  def head(self, name=None):
    name = name or self.cur
    return self.main if name == "main" else self.refs[name][1]

  def move(self, sid):
    if self.cur == "main":
      self.main = sid
    else:
      self.refs[self.cur] = ("branch", sid)

  def commit(self, op):
    rows = self.snaps[self.head()]
    if op == "append":
      new = self.mk.many(1)
      ok(self.w, self.ds.local().append(KV.table(new)), "append")
      rows = rows + new
    else:
      d = self.w.int("d", -40, 40)
      yes, rows = split(rows, Cmp(Fld("k"), "<", d))
      ok(self.w, self.ds.local().delete(pc.field("k") < d), "delete",
         (OK,) if yes else (SKIPPED,))
      if not yes:
        return
    sid = max(max(self.snaps), self.ds.storage.snapshot().snapshot_id)
    self.w.check(sid not in self.snaps, "a commit reused a snapshot ID")
    self.snaps[sid] = rows
    self.move(sid)

  def expect(self, fn, refusal, what):
    """fn is refused with one of the errors, or takes effect."""
    try:
      fn()
    except REFUSED as e:
      self.w.check(refusal is not None, f"{what}: refused with {e!r}",
                   f"{what}: refused")
      if refusal is not None:
        self.w.check(isinstance(e, refusal), f"{what}: {e!r}",
                     f"{what}: kind of error")
      return False
    self.w.check(refusal is None, f"{what}: accepted", f"{what}: accepted")
    return True

  def tag(self, name, sid):
    given = self.main if sid is None else sid
    bad = None
    if given not in self.snaps:
      bad = errors.VersionNotFoundError
    if name in ("", "main"):
      bad = REFUSED if bad else errors.UserInputError
    elif name in self.refs:
      bad = REFUSED if bad else errors.VersionAlreadyExistError
    if self.expect(lambda: self.ds.add_tag(name, sid), bad,
                   f"add_tag({name!r}, {sid})"):
      self.refs[name] = ("tag", given)

  def branch(self, name):
    bad = None
    if name in ("", "main"):
      bad = errors.UserInputError
    elif name in self.refs:
      bad = errors.VersionAlreadyExistError
    if self.expect(lambda: self.ds.add_branch(name), bad,
                   f"add_branch({name!r})"):
      self.refs[name] = ("branch", self.main)

  def remove(self, kind, name):
    bad = None
    if kind == "branch" and name == self.cur:
      bad = errors.UserInputError
    elif name not in self.refs or self.refs[name][0] != kind:
      bad = errors.VersionNotFoundError
    fn = (self.ds.remove_tag if kind == "tag" else self.ds.remove_branch)
    if self.expect(lambda: fn(name), bad, f"remove_{kind}({name!r})"):
      del self.refs[name]

  def switch(self, name):
    bad = None
    if name != "main":
      if name not in self.refs:
        bad = errors.VersionNotFoundError
      elif self.refs[name][0] != "branch":
        bad = errors.UserInputError
    if self.expect(lambda: self.ds.set_current_branch(name), bad,
                   f"set_current_branch({name!r})"):
      self.cur = name

  def step(self, tag, kinds, names=NAMES):
    w = self.w
    k = w.choose("op" + tag, kinds)
    if k in ("append", "delete"):
      self.commit(k)
    elif k == "tag":
      n = w.choose("name" + tag, names)
      self.tag(n, w.choose("sid" + tag, [None, 0, 1, 77] if n in "ab" else
                           [None, 77]))
    elif k == "branch":
      self.branch(w.choose("name" + tag, names))
    elif k in ("untag", "unbranch"):
      self.remove(k[2:], w.choose("name" + tag, names[:3]))
    else:
      self.switch(w.choose("name" + tag, names))

  def judge(self, ds, what, full=True):
    w, s = self.w, ds.storage
    got = {
        n: ("tag" if r.type == r.TAG else "branch", r.snapshot_id)
        for n, r in s.metadata.refs.items()
    }
    w.check(got == self.refs, f"{what}: references {got}, expected"
            f" {self.refs}", f"{what}: references")
    w.check(sorted(s.snapshot_ids) == sorted(self.snaps), f"{what}: snapshots")
    w.check(s.snapshot(self.main if ds.storage.current_branch == "main" else
                       None).snapshot_id == self.head(s.current_branch),
            f"{what}: head")
    want = sorted([(sid, n or "None") for sid in self.snaps for n in
                   ([m for m, (_, x) in self.refs.items() if x == sid] or
                    [None])])
    vs = sorted([(v["snapshot_id"], str(v["tag_or_branch"]))
                 for v in ds.versions().to_pylist()])
    w.check(vs == want, f"{what}: versions {vs}, expected {want}",
            f"{what}: versions()")
    if not full:
      return
    same(w, read_rows(ds), self.snaps[self.head(s.current_branch)],
         f"{what}: read")
    for n, (_, sid) in self.refs.items():
      same(w, read_rows(ds, version=n), self.snaps[sid],
           f"{what}: read of a reference")
    same(w, read_rows(ds, version="main"), self.snaps[self.main],
         f"{what}: read of the main branch")
    for n in ("a", "b"):
      if n not in self.refs:
        w.check(w.raises(errors.VersionNotFoundError, read_rows, ds, version=n),
                f"{what}: read of an unknown reference")


def settle(m, what="after"):
  m.judge(m.ds, what)
  m.judge(reopen(m.ds), what + ", fresh load")


ALL = ["append", "tag", "branch", "untag", "unbranch", "switch"]


def sequence(w):
  m = Model(w, 1)
  n = 4 if w.tier == "thorough" else 3
  for i in range(n):
    m.step(str(i), ["tag", "branch"] if i == 0 else ALL,
           NAMES if i == n - 2 else NAMES[:2])
    if i < n - 1:
      m.judge(m.ds, "meanwhile", False)
  settle(m)


def on_branches(w):
  """A branch and a tag exist and a branch is current."""
  m = Model(w, 1)
  m.branch("b")
  m.tag("a", 0)
  m.switch("b")
  m.commit("append")
  for i in range(2):
    m.step(str(i), ["delete"] + ALL)
  settle(m)


def tags_stay(w):
  """A tag keeps its snapshot over commits, deletes and branch removals."""
  m = Model(w, 2)
  m.tag("a", w.choose("sid", [None, 0, 1, 2]))
  m.branch("b")
  if w.flag("on_branch"):
    m.switch("b")
  for i in range(2):
    m.step(str(i), ["append", "delete"])
  if m.cur == "b":
    m.tag("c", w.choose("sid2", [None] + sorted(m.snaps)))
    m.switch("main")
  m.remove("branch", "b")
  m.commit("append")
  settle(m)


def reuse(w):
  """A removed name can be given to something else."""
  m = Model(w, 1)
  kinds = [w.choose(f"kind{i}", ["tag", "branch"]) for i in range(2)]
  sid = w.choose("sid", [None, 0])
  for i, k in enumerate(kinds):
    if k == "tag":
      m.tag("a", sid)
    else:
      m.branch("a")
      if w.flag(f"commit{i}"):
        m.switch("a")
        m.commit("append")
        m.switch("main")
    m.judge(m.ds, "meanwhile")
    m.commit(w.choose(f"op{i}", ["append", "delete"]))
    if i == 0:
      m.remove(k, "a")
  settle(m)


def two_handles(w):
  """Reference changes of one handle hold for the other."""
  m = Model(w, 1)
  one, two = m.ds, reopen(m.ds)
  for i in range(3):
    m.ds = w.choose(f"who{i}", [one, two])
    m.step(str(i), ["tag", "branch", "untag", "append"] if i else
           ["tag", "branch"], NAMES[:2] if i else NAMES[:1])
  for ds in (one, two):
    read_rows(ds)
    m.judge(ds, "after")


def siblings(w):
  """References to one snapshot part ways with the commits on each."""
  m = Model(w, 1)
  m.branch("a")
  m.branch("b")
  m.tag("c", None)
  order = w.choose("order", [["a", "b"], ["b", "a"], ["b", "main", "a"],
                             ["a", "a"], ["main", "b"]])
  for i, b in enumerate(order):
    m.switch(b)
    m.commit(w.choose(f"op{i}", ["append", "delete"]))
    if i == 0:
      m.judge(m.ds, "meanwhile")
      if w.flag("reopened"):
        m.ds = reopen(m.ds)
        m.cur = "main"
  settle(m)


ODD = ["1", "0", "Main", "main ", "a/b", "../x", "a.b", "\u00e9", "None", "ab",
       "77", "-1", "x" * 300]


def odd_names(w):
  """Names that look like snapshots, paths, or other names."""
  m = Model(w, 2)
  one, two = w.choose("names", [(n, ODD[(i + 1) % len(ODD)])
                                for i, n in enumerate(ODD)])
  m.tag(one, 1)
  m.branch(two)
  m.switch(two)
  m.commit("append")
  m.judge(m.ds, "meanwhile")
  m.tag("a", None)
  m.remove("tag", w.choose("gone", [one, "a", two]))
  settle(m)


def big(w):
  """A dozen tags and commits."""
  h, tags = large.commits(w)
  st = h.ds.storage
  gone = w.choose("gone", ["t0", "t3", "t9", "t10", "t11"])
  h.ds.remove_tag(gone)
  want = dict(tags)
  del want[gone]
  ds = reopen(h.ds)
  for d in (h.ds, ds):
    w.check(sorted(d.storage.metadata.refs) == sorted(want), "references")
    for t, rows in want.items():
      same(w, read_rows(d, version=t), rows, "read of a tag")
    w.check(w.raises(errors.VersionNotFoundError,
                     lambda: read_rows(d, version=gone)), "removed tag")
  v = ds.versions().to_pylist()
  w.check(sorted(x["tag_or_branch"] for x in v if x["tag_or_branch"]) ==
          sorted(want), "versions")


BOUNDS += large.BOUND
SCENARIOS = [
    ("sequence", sequence),
    ("on_branches", on_branches),
    ("tags_stay", tags_stay),
    ("reuse", reuse),
    ("two_handles", two_handles),
    ("siblings", siblings),
    ("odd_names", odd_names),
    ("big", big),
]
