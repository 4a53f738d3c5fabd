"""C15: a live handle, a reloaded handle and a fresh load agree."""
from harness.faults import *  # pylint: disable=wildcard-import,unused-wildcard-import

BOUNDS = (
    "sequences of up to 3 operations (append, delete, upsert, insert, failed"
    " insert, tag and branch changes, branch commits, append_parquet) through 2"
    " handles, an I/O error in any one step of an operation; all values")
ASSUMPTIONS = []
FIX = {"v": lambda i: i, "r": lambda i: b"r%d" % i}
REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
           ["r"])


def view(ds, acted=False):
  """Everything a handle shows, with the rows apart.

  A handle that acted shows the result at once, others when they read.
  """
  rows = None if acted else read_rows(ds)
  s = ds.storage
  refs = {
      n: (r.type, r.snapshot_id, r.reference_name)
      for n, r in s.metadata.refs.items()
  }
  vs = ds.versions().to_pylist()
  shown = {
      "current": s.snapshot().snapshot_id,
      "main": s.metadata.current_snapshot_id,
      "ids": sorted(s.snapshot_ids),
      "refs": refs,
      "schema": ds.schema,
      "physical": s.physical_schema,
      "pks": ds.primary_keys,
      "records": ds.record_fields,
      "versions": sorted((v["snapshot_id"], str(v["tag_or_branch"]),
                          str(v["create_time"])) for v in vs),
      "index files": sorted(os.path.relpath(f, s.location)
                            for f in ds.index_files()),
      "parents": {
          i: s.snapshot(i).parent_snapshot_id for i in s.snapshot_ids
      },
  }
  return read_rows(ds) if acted else rows, shown


def agree(w, h, others, what, acted=True):
  """All handles show the reference rows and the same metadata."""
  fresh = reopen(h.ds)
  branch = h.ds.storage.current_branch
  if branch != "main":
    fresh.set_current_branch(branch)
  want_rows, want = view(fresh)
  same(w, want_rows, h.rows, f"{what}: fresh load")
  for name, ds in [("live", h.ds)] + others:
    if ds.storage.current_branch != branch:
      continue
    rows, v = view(ds, acted and name == "live")
    same(w, rows, h.rows, f"{what}: {name} handle")
    for k in want:
      w.check(v[k] == want[k], f"{what}: {name} handle shows {k} {v[k]}, a fresh"
              f" load {want[k]}", f"handles disagree on {k}")


def meta_event(w, h, tag, handle):
  ev = w.choose("meta" + tag, ["tag", "tag 0", "branch", "untag", "refused"])
  if ev == "tag":
    handle.add_tag("n" + tag)
  elif ev == "tag 0":
    handle.add_tag("z" + tag, 0)
  elif ev == "branch":
    handle.add_branch("b" + tag)
  elif ev == "untag":
    handle.remove_tag("t0")
  else:
    w.check(w.raises(Exception, handle.add_tag, "t0"), "a duplicate tag")
    w.check(w.raises(Exception, handle.add_branch, ""), "an empty name")
    w.check(w.raises(Exception, handle.remove_branch, "t0"), "not a branch")


def sequence(w):
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1, 1)
  h.ds.add_tag("t0")
  one, two = h.ds, reopen(h.ds)
  deep = w.tier == "thorough"
  for i in range(3 if deep else 2):
    h.ds = w.choose(f"who{i}", [one, two])
    if w.choose(f"kind{i}", ["data", "meta"]) == "meta":
      meta_event(w, h, str(i), h.ds)
    else:
      h.step(["append", "delete", "upsert", "insert"], str(i))
    agree(w, h, [("other", two if h.ds is one else one)], "after an operation")
    if i == 0 and "t0" not in h.ds.storage.metadata.refs:
      h.ds.add_tag("t0")


def records(w):
  h = Hist(w, REC, layout=options(0, 0, 0), fixed=FIX)
  h.append(1, 1)
  one, two = h.ds, reopen(h.ds)
  for i in range(2):
    h.ds = w.choose(f"who{i}", [one, two])
    h.step(["append", "delete", "upsert", "insert"], str(i))
    agree(w, h, [("other", two if h.ds is one else one)], "after an operation")


def branches(w):
  """One handle works on a branch; handles on the other one see no change."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1, 1)
  main = list(h.rows)
  h.ds.add_branch("b")
  one, two, three = h.ds, reopen(h.ds), reopen(h.ds)
  one.set_current_branch("b")
  two.set_current_branch("b")
  for i in range(2):
    h.ds = w.choose(f"who{i}", [one, two])
    h.step(["append", "delete", "upsert"], str(i))
    agree(w, h, [("other", two if h.ds is one else one)], "on a branch")
    same(w, read_rows(three), main, "a handle on main")
    w.check(three.storage.snapshot().snapshot_id == 1, "current snapshot of"
            " main")
  w.check(three.storage.current_branch == "main", "current branch of a handle")


def failures(w):
  """After an operation that fails, handles agree with the files."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1, 1)
  before = list(h.rows)
  one, two = h.ds, reopen(h.ds)
  op = w.choose("op", ["append", "upsert", "delete", "tag", "branch"])
  rows = h.mk.many(1)
  f = Fault(w, "error", w.int("at", 0, 40))
  with f:
    try:
      if op == "tag":
        one.add_tag("t")
      elif op == "branch":
        one.add_branch("b")
      elif op == "delete":
        one.local().delete(pc.field("v") == 0)
      else:
        getattr(one.local(), op)(KV.table(rows))
    except (Injected, OSError, RuntimeError):
      pass
  fresh = reopen(one)
  got = read_rows(fresh)
  ids = [r["rid"] for r in by_rid(got)]
  if ids == [r["rid"] for r in by_rid(before)]:
    h.rows = before
  else:
    if op == "append":
      h.rows = before + rows
    elif op == "delete":
      h.rows = [r for r in before if r["v"] != 0]
    elif op == "upsert":
      h.rows = [r for r in before if not bool(r["k"] == rows[0]["k"])] + rows
  h.ds = one
  agree(w, h, [("other", two)], "after a failed operation", acted=False)
  if w.flag("more"):
    h.ds = w.choose("who", [one, two])
    h.step(["append"], "x")
    agree(w, h, [("other", two if h.ds is one else one)],
          "after a failed and another operation")


def refused(w):
  """Refused operations leave all handles as they were."""
  h = Hist(w, KV, fixed=FIX)
  h.append(2)
  one, two = h.ds, reopen(h.ds)
  old = view(one)[1]
  rows = h.mk.many(1)
  rows[0]["k"] = h.rows[w.choose("dup", [0, 1])]["k"]
  r = one.local().insert(KV.table(rows))
  ok(w, r, "insert of an existing key", (FAILED,))
  agree(w, h, [("other", two)], "after a refused insert")
  w.check(view(one)[1] == old, "a refused insert changed something")
  h.ds = two
  h.step(["append", "upsert"], "x")
  agree(w, h, [("first", one)], "after another operation")


def lagging(w):
  """A handle that missed several commits catches up when it reads."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  one, two = h.ds, reopen(h.ds)
  n = w.choose("n", [1, 2, 3])
  h.append(1, 1)
  for i in range(n - 1):
    h.step(["append", "delete"] if i else ["append", "upsert"], str(i))
  how = w.choose("how", ["read", "filter", "diff", "fields"])
  if how == "diff":
    w.check(sum(c.data.num_rows for c in two.local().diff(0, 1)) == 2,
            "change feed by a lagging handle")
  elif how == "filter":
    c = w.int("c", -40, 40)
    same(w, read_rows(two, filter_=pc.field("k") < c),
         [r for r in h.rows if r["k"] < c], "filtered read by a lagging handle")
  elif how == "fields":
    got = read_rows(two, fields=["rid"])
    same(w, got, [{"rid": r["rid"]} for r in h.rows], "projected read")
  agree(w, h, [("lagging", two)], "lagging handle", acted=n > 1)


def told(w):
  """reload() tells whether another handle has changed the storage."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  one, two = h.ds, reopen(h.ds)
  if w.flag("rows before"):
    h.append(1)
    h.ds.add_tag("t0")
    two = reopen(one)
  old = reopen(one).storage.metadata
  h.ds = w.choose("who", [one, two])
  other = two if h.ds is one else one
  op = w.choose("op", ["data", "tag", "branch", "untag", "none"])
  if op == "data":
    h.step(["append", "delete", "upsert"])
  elif op == "tag":
    h.ds.add_tag("t")
  elif op == "branch":
    h.ds.add_branch("b")
  elif op == "untag":
    w.assume("t0" in old.refs)
    h.ds.remove_tag("t0")
  changed = reopen(one).storage.metadata != old
  w.check(h.ds.storage.reload() is False, "reload after an own change")
  w.check(other.storage.reload() is changed, "reload after another's change")
  w.check(other.storage.reload() is False, "reload again")
  agree(w, h, [("other", other)], "after a reload")


SCENARIOS = [
    ("told", told),
    ("sequence", sequence),
    ("records", records),
    ("branches", branches),
    ("failures", failures),
    ("refused", refused),
    ("lagging", lagging),
]
