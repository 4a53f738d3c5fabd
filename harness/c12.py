"""C12: concurrent writers never silently lose a commit."""
from harness.faults import *  # pylint: disable=wildcard-import,unused-wildcard-import

BOUNDS = (
    "two handles; the second runs one complete operation (append, delete,"
    " upsert, insert, tag or branch change, commit to another branch) before"
    " any one file step of the first one's append, delete, upsert, insert or"
    " append_parquet, up to the transaction's final check; and every order of"
    " up to 4 whole operations of two handles")
ASSUMPTIONS = [
    "not explored: another commit between the transaction's final check of the"
    " head and the replacement of the entry point (the code documents that"
    " window as unprotected)"
]
FIX = {"v": lambda i: i, "r": lambda i: b"r%d" % i}


def before_check(kind, path):
  """Steps up to the final check: no metadata or change log access yet."""
  b = os.path.basename(str(path))
  if "/changes/" in str(path):
    return False
  if b.startswith("metadata_"):
    return False
  return not (b.startswith("entrypoint") and kind != "read")


def apply_ref(w, rows, op, arg):
  """Rows after an operation in a serial execution, and whether it commits."""
  if op == "append":
    return rows + arg, True
  if op == "delete":
    yes, no = split(rows, arg)
    return no, bool(yes)
  if op == "upsert":
    keep = [r for r in rows if not bool(r["k"] == arg[0]["k"])]
    return keep + arg, True
  if op == "insert":
    dup = any(bool(r["k"] == arg[0]["k"]) for r in rows)
    return (rows, False) if dup else (rows + arg, True)
  raise AssertionError(op)


def perform(ds, op, arg, spec=KV):
  run = ds.local()
  if op == "append":
    return run.append(spec.table(arg))
  if op == "delete":
    return run.delete(arg.expr())
  if op == "upsert":
    return run.upsert(spec.table(arg))
  return run.insert(spec.table(arg))


def argument(w, h, op, tag):
  if op == "delete":
    return Cmp(Fld("k"), w.choose("cmp" + tag, ["==", "<"]),
               w.int("c" + tag, -40, 40))
  return h.mk.many(1)


DATA = ["append", "delete", "upsert", "insert"]


def during(w):
  """The other handle commits in the middle of a transaction."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1)
  base = list(h.rows)
  first, second = h.ds, reopen(h.ds)
  op1 = w.choose("op1", DATA)
  arg1 = argument(w, h, op1, "1")
  op2 = w.choose("op2", DATA)
  arg2 = argument(w, h, op2, "2")
  res = {}

  def other():
    res["r2"] = perform(second, op2, arg2)

  f = Fault(w, "call", w.int("at", 0, 30), other, reads=True,
            where=before_check)
  with f:
    r1 = perform(first, op1, arg1)
  judge(w, h, base, (op1, arg1, r1), (op2, arg2, res.get("r2")), f, first)


def judge(w, h, base, one, two, f, first):
  op1, arg1, r1 = one
  op2, arg2, r2 = two
  rows = base
  if r2 is not None:
    rows, c2 = apply_ref(w, rows, op2, arg2)
    w.check((r2.state == OK) == c2, "the undisturbed operation's state"
            f" {r2.state.name}", "the undisturbed operation's state")
    # at == 0 is before the transaction has read anything.
    if c2 and bool(f.at > 0):
      w.check(r1.state == FAILED, f"{op1} during which another handle"
              f" committed: state {r1.state.name}",
              "a transaction with a commit in between must fail")
      w.cover("conflict")
    else:
      w.cover("serial")
  if r1.state == OK:
    rows, _ = apply_ref(w, rows, op1, arg1)
  if r2 is None or not c2 or bool(f.at == 0):
    _, c1 = apply_ref(w, base if r2 is None else apply_ref(
        w, base, op2, arg2)[0], op1, arg1)
    w.check((r1.state == OK) == c1, f"{op1} without a commit in between:"
            f" state {r1.state.name}",
            "a transaction without a commit in between")
  for ds in (reopen(h.ds), first):
    same(w, read_rows(ds), rows, "rows after both operations")
  chain(w, reopen(h.ds), [r for r in (r1, r2) if r is not None])


def chain(w, ds, results, extra=1):
  """Every successful job is in the history of the head."""
  n = 0
  s = ds.storage.snapshot()
  while s.HasField("parent_snapshot_id"):
    n += 1
    s = ds.storage.snapshot(s.parent_snapshot_id)
  want = extra + sum(1 for r in results if r.state == OK)
  w.check(n == want, f"{n} commits in the history, {want} jobs succeeded",
          "history does not have every successful job")


def in_source(w):
  """The other handle commits while the data source is being read."""
  h = Hist(w, KV, layout=w.choose("layout", ["one", "files"]), fixed=FIX)
  h.append(1)
  base = list(h.rows)
  first, second = h.ds, reopen(h.ds)
  new = h.mk.many(2)
  op2 = w.choose("op2", ["append", "delete", "upsert"])
  arg2 = argument(w, h, op2, "2")
  at = w.choose("at", [0, 1, 2])
  res = {}

  def src():
    for i in range(3):
      if i == at:
        res["r2"] = perform(second, op2, arg2)
      if i < 2:
        yield KV.table(new[i:i + 1])

  r1 = first.local().append_from(src)
  rows, c2 = apply_ref(w, base, op2, arg2)
  if c2:
    w.check(r1.state == FAILED, "append with a commit in between must fail")
  else:
    ok(w, r1, "append")
    rows = rows + new
  same(w, read_rows(reopen(first)), rows, "rows after both")
  same(w, read_rows(first), rows, "rows after both, same handle")
  if r1.state == FAILED and w.flag("retry"):
    ok(w, first.local().append(KV.table(new)), "retry")
    same(w, read_rows(second), rows + new, "rows after a retry")


def references(w):
  """Tag and branch changes in the middle of a transaction are kept."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1)
  base = list(h.rows)
  h.ds.add_tag("t0")
  h.ds.add_branch("b0")
  first, second = h.ds, reopen(h.ds)
  op1 = w.choose("op1", ["append", "delete", "upsert"])
  arg1 = argument(w, h, op1, "1")
  ev = w.choose("event", ["tag", "branch", "untag", "unbranch",
                          "branch commit"])
  new = h.mk.many(1)

  def other():
    if ev == "tag":
      second.add_tag("t1")
    elif ev == "branch":
      second.add_branch("b1")
    elif ev == "untag":
      second.remove_tag("t0")
    elif ev == "unbranch":
      second.remove_branch("b0")
    else:
      second.storage.reload()
      second.set_current_branch("b0")
      ok(w, second.local().append(KV.table(new)), "append on a branch")

  f = Fault(w, "call", w.int("at", 0, 30), other, reads=True,
            where=before_check)
  with f:
    r1 = perform(first, op1, arg1)
  if not f.fired:
    other()
  rows, c1 = apply_ref(w, base, op1, arg1)
  w.check((r1.state == OK) == c1,
          "nothing committed to the branch of the transaction in between")
  ds = reopen(first)
  same(w, read_rows(ds), rows, "main")
  refs = {"t0", "b0"}
  refs = {"tag": refs | {"t1"}, "branch": refs | {"b1"},
          "untag": refs - {"t0"}, "unbranch": refs - {"b0"},
          "branch commit": refs}[ev]
  w.check(set(ds.storage.metadata.refs) == refs, "references")
  if ev == "branch commit":
    same(w, read_rows(ds, version="b0"), base + new, "the branch's commit")


def stale_references(w):
  """Reference changes through a handle that is behind undo nothing."""
  h = Hist(w, KV, fixed=FIX)
  h.append(1)
  h.ds.add_tag("t0")
  h.ds.add_branch("b0")
  stale = reopen(h.ds)
  ops = w.choose("between", ["append", "tag", "branch", "untag", "delete"])
  refs = {"t0", "b0"}
  if ops == "append":
    h.append(1)
  elif ops == "delete":
    h.delete(Cmp(Fld("v"), "==", 0))
  elif ops == "tag":
    h.ds.add_tag("t1")
    refs |= {"t1"}
  elif ops == "branch":
    h.ds.add_branch("b1")
    refs |= {"b1"}
  else:
    h.ds.remove_tag("t0")
    refs -= {"t0"}
  ids = sorted(h.ds.storage.snapshot_ids)
  ev = w.choose("event", ["tag", "branch", "untag", "unbranch"])
  if ev == "tag":
    stale.add_tag("new", w.choose("sid", [None, 0, 1]))
    refs |= {"new"}
  elif ev == "branch":
    stale.add_branch("new")
    refs |= {"new"}
  elif ev == "untag":
    if "t0" in refs:
      stale.remove_tag("t0")
      refs -= {"t0"}
    else:
      w.check(w.raises(errors.VersionNotFoundError, stale.remove_tag, "t0"),
              "removing a removed tag")
  else:
    stale.remove_branch("b0")
    refs -= {"b0"}
  for ds in (reopen(h.ds), h.ds):
    same(w, read_rows(ds), h.rows, "rows after a reference change")
    w.check(sorted(ds.storage.snapshot_ids) == ids, "snapshots")
    w.check(set(ds.storage.metadata.refs) == refs, "references")


def sequence(w):
  """Whole operations of two handles in any order all take effect."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  hs = [h.ds, reopen(h.ds)]
  rs = []
  for i in range(3):
    h.ds = hs[w.choose("who", [0, 1])]
    before = len(h.results)
    op = w.choose("op", ["append", "upsert", "delete"][:3 if i else 1])
    arg = argument(w, h, op, str(i))
    r = perform(h.ds, op, arg)
    rows, c = apply_ref(w, h.rows, op, arg)
    w.check(r.state == (OK if c else SKIPPED), "state of a whole operation")
    h.rows = rows
    rs.append(r)
    del before
  for ds in hs + [reopen(h.ds)]:
    same(w, read_rows(ds), h.rows, "rows after a sequence")
  chain(w, reopen(h.ds), rs, 0)


def on_branch(w):
  """Both handles write the same branch."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1)
  base = list(h.rows)
  h.ds.add_branch("b")
  first, second = h.ds, reopen(h.ds)
  first.set_current_branch("b")
  same_branch = w.flag("same_branch")
  if same_branch:
    second.set_current_branch("b")
  op1 = w.choose("op1", ["append", "delete", "upsert"])
  arg1 = argument(w, h, op1, "1")
  new = h.mk.many(1)
  res = {}

  def other():
    res["r2"] = perform(second, "append", new)

  f = Fault(w, "call", w.int("at", 0, 30), other, reads=True,
            where=before_check)
  with f:
    r1 = perform(first, op1, arg1)
  if not f.fired:
    return
  ok(w, res["r2"], "append")
  b, m = base, base
  if same_branch:
    b = b + new
    if bool(f.at > 0):
      w.check(r1.state == FAILED, "a commit to the same branch in between")
  else:
    m = m + new
    w.check((r1.state == OK) == apply_ref(w, base, op1, arg1)[1],
            "a commit to another branch in between")
  if r1.state == OK:
    b, _ = apply_ref(w, b, op1, arg1)
  ds = reopen(first)
  same(w, read_rows(ds), m, "main")
  same(w, read_rows(ds, version="b"), b, "branch")


SCENARIOS = [
    ("during", during, ("quick", "thorough"), ("conflict", "serial")),
    ("in_source", in_source),
    ("references", references),
    ("stale_references", stale_references),
    ("sequence", sequence),
    ("on_branch", on_branch),
]
