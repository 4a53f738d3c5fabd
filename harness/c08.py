"""C08: the change feed reproduces the end version from the start version."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large as lg
from space.core.ops.change_data import ChangeType

BOUNDS = (
    "histories of up to 4 commits on 2 to 4 rows (and one delete in a file of"
    " 300 or 33000) over several files, main and"
    " branches, tags; every pair of snapshots; any batch size from 1 to 3;"
    " record fields, composite keys, append_parquet")
ASSUMPTIONS = ["primary keys of stored rows are distinct and not NULL"]


def feed(w, ds, a, b, **k):
  """[(snapshot, type, rows)] merged over batches."""
  out = []
  for c in ds.local().diff(a, b, **k):
    if k.get("batch_size"):
      w.check(c.data.num_rows <= k["batch_size"], "batch larger than asked")
    out.append((c.snapshot_id, c.type_, rows_of(c.data)))
  return out


def judge(w, h, a, b, deltas, pks, what="diff", **k):
  """deltas: [(snapshot, deleted rows, added rows)] from a to b."""
  got = feed(w, h.ds, a, b, **k)
  ids = [g[0] for g in got]
  order = [d[0] for d in deltas]
  pos = [order.index(i) if i in order else -1 for i in ids]
  w.check(-1 not in pos and pos == sorted(pos),
          f"{what}: snapshots {ids}, expected order {order}",
          what + ": snapshots")
  for sid, deleted, added in deltas:
    mine = [g for g in got if g[0] == sid]
    kinds = [g[1] for g in mine]
    dels = [i for i, t in enumerate(kinds) if t == ChangeType.DELETE]
    adds = [i for i, t in enumerate(kinds) if t == ChangeType.ADD]
    w.check(not dels or not adds or max(dels) < min(adds),
            f"{what}: deletions must come before additions")
    d = [r for g in mine if g[1] == ChangeType.DELETE for r in g[2]]
    w.check(all(set(r) == set(pks) for r in d),
            f"{what}: a deletion has exactly the primary keys")
    # A rewrite may report surviving rows nowhere: only the effective change.
    w.check(multiset_eq(d, [{k: r[k] for k in pks} for r in deleted], pks),
            f"{what}: deleted keys of a commit"
            f" ({len(d)} for {len(deleted)})", what + ": deleted keys")
    ad = [r for g in mine if g[1] == ChangeType.ADD for r in g[2]]
    same(w, ad, added, f"{what}: added rows")
  return got


FIX = {"v": lambda i: i, "r": lambda i: b"r%d" % i}
REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
           ["r"])


def history(w):
  spec = KV
  h = Hist(w, spec, layout=w.choose("layout", ["one", "files"]), fixed=FIX,
           distinct=True)
  h.append(2, 1)
  h.step(["delete", "upsert", "append"])
  h.step(["delete", "upsert"])
  for i in range(len(h.deltas) + 1):
    ids = [0] + [d[0] for d in h.deltas]
    for j in range(i + 1, len(ids)):
      judge(w, h, ids[i], ids[j], h.deltas[i:j], ["k"])


def records(w):
  h = Hist(w, REC, layout=w.choose("layout", ["groups", options(0, 0, 0)]),
           fixed=FIX, distinct=True)
  h.append(2, 1)
  h.step(["delete", "upsert", "append2"])
  h.step(["delete", "upsert"])
  judge(w, h, 0, h.head(), h.deltas, ["k"])


def batches(w):
  h = Hist(w, KV, layout=w.choose("layout", ["one", "groups", "files"]),
           fixed=FIX, distinct=True)
  h.append(2, 2)
  h.step(["delete", "upsert2"])
  judge(w, h, 0, h.head(), h.deltas, ["k"],
        batch_size=w.choose("n", [1, 2, 3]))


COMP = Spec([("a", "int"), ("v", "int"), ("b", "str"), ("rid", "int")],
            ["b", "a"])


def composite(w):
  h = Hist(w, COMP, layout="files", fixed=FIX, distinct=True)
  h.append(2, 1)
  h.delete(Cmp(Fld("a"), w.choose("op", ["<", "=="]), w.int("c", -40, 40)))
  h.upsert(h.mk.many(1))
  judge(w, h, 0, h.head(), h.deltas, ["a", "b"])


def versions(w):
  """Start and end given as tags, branches and IDs, across branches."""
  h = Hist(w, KV, layout="files", fixed=FIX, distinct=True)
  h.append(2)
  h.ds.add_tag("t1")
  base = h.head()
  h.ds.add_branch("b")
  h.append(1)
  main = h.head()
  main_rows, main_deltas = list(h.rows), list(h.deltas)
  h.ds.set_current_branch("b")
  h.rows, h.deltas = h.snaps[base], h.deltas[:1]
  h.step(["append", "delete"])
  h.step(["upsert", "append"])
  end = h.head()
  w.check(end != main, "branch and main heads differ")
  d = h.deltas[1:]
  judge(w, h, w.choose("start", ["t1", base]), w.choose("end", ["b", end]), d,
        ["k"], "diff of a branch")
  judge(w, h, "t1", main, main_deltas[1:], ["k"], "diff of main")
  if d:
    # A commit of the branch and one of main are in no line.
    bad = [(main, end), (end, main), (main, "b"), ("b", "t1"),
           (d[0][0], main)]
    a, b = w.choose("bad", bad)
    refused = w.raises(errors.UserInputError, lambda: feed(w, h.ds, a, b))
    w.check(refused, "a start that is no ancestor must be refused")


def removed_refs(w):
  """Removing tags and branches leaves every change feed readable."""
  h = Hist(w, KV, layout="files", fixed=FIX, distinct=True)
  h.append(1)
  h.ds.add_tag("t1")
  base = h.head()
  h.step(["append", "delete"], "1")
  h.ds.add_tag("t2")
  main_rows = list(h.rows)
  h.ds.add_branch("b")
  h.ds.set_current_branch("b")
  h.step(["append", "delete"], "b")
  h.ds.set_current_branch("main")
  main_deltas = [d for d in h.deltas if d[0] <= h.head()]
  b_deltas = list(h.deltas)
  b_head = h.deltas[-1][0]
  h.rows = main_rows
  h.step(["append", "upsert"], "2")
  main_deltas += [d for d in h.deltas if d not in b_deltas]
  for x in w.choose("removed", [("t2",), ("t1",), ("b",), ("b", "t2")]):
    if x == "b":
      h.ds.remove_branch(x)
    else:
      h.ds.remove_tag(x)
  ds = w.choose("ds", [h.ds, reopen(h.ds)])
  h.ds = ds
  judge(w, h, 0, h.head(), main_deltas, ["k"], "diff of main")
  judge(w, h, base, h.head(), main_deltas[1:], ["k"], "diff of main")
  judge(w, h, 0, b_head, b_deltas, ["k"], "diff of the branch's commit")


def refused(w):
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1)
  h.append(1)
  h.ds.add_tag("t")
  a, b = w.choose("ab", [(2, 1), (1, 1), (2, 0), ("t", 1), (2, "t"), (1, 0),
                         (0, 0)])
  w.check(w.raises(errors.UserInputError, lambda: feed(w, h.ds, a, b)),
          "a start not before the end must be refused")
  a, b = w.choose("cd", [(0, 9), (1, 77), ("x", 2), (0, "y")])
  w.check(
      w.raises((errors.UserInputError, errors.VersionNotFoundError),
               lambda: feed(w, h.ds, a, b)),
      "unknown versions must be refused")


def parquet(w):
  """Rows taken over by append_parquet are in the feed."""
  h = Hist(w, KV, layout="files", fixed=FIX, distinct=True)
  h.append(1)
  rows = h.new(3)
  d = w.dir("ext")
  os.makedirs(d)
  for i, c in enumerate([rows[:2], rows[2:]]):
    pq.write_table(KV.table(c), os.path.join(d, f"x{i}.parquet"))
  r = h.ds.local().append_parquet(os.path.join(d, "*.parquet"))
  ok(w, r, "append_parquet")
  h.rows = h.rows + rows
  h._done(r, [], rows)
  h.step(["delete", "upsert"])
  judge(w, h, 0, h.head(), h.deltas, ["k"])


def other_handle(w):
  """The feed sees commits of another handle; applying it gives the end."""
  h = Hist(w, KV, layout="files", fixed=FIX, distinct=True)
  h.append(2)
  reader = reopen(h.ds)
  h.step(["delete", "upsert"])
  h.step(["append", "delete"])
  state = list(h.snaps[1])
  if h.head() == 1:
    return
  for _, t, rows in feed(w, reader, 1, h.head()):
    if t == ChangeType.DELETE:
      for r in rows:
        state = [s for s in state if not bool(s["k"] == r["k"])]
    else:
      state = state + rows
  same(w, state, h.rows, "start plus feed")


def large(w):
  """Row positions beyond 8 and 16 bits."""
  n = w.choose("rows", [300, 33000])
  ds = KV.create(w.dir())
  x = w.int("x", 0, n + 5)
  ks = list(range(n))
  few = n > 300
  at = n - 2 if few else w.choose("at", [1, n - 2])
  vs = ks[:at] + [x] + ks[at + 1:]
  ok(w, ds.local().append(pa.Table.from_pydict(
      {"k": ks, "v": vs, "rid": ks}, schema=KV.schema)), "append")
  c = n - 2 if few else n - w.choose("from end", [2, 4])
  keep = not few and w.flag("keep the last")
  f = Cmp(Fld("v"), ">=", c)
  if keep:
    f = Bin("and", f, Cmp(Fld("v"), "!=", n - 1))
  gone = [i for i in range(n) if i != at and i >= c and
          not (keep and i == n - 1)]
  hit = L.And([x >= c] + ([x != n - 1] if keep else []))
  if bool(hit):
    gone = sorted(gone + [at])
  r = ds.local().delete(f.expr())
  ok(w, r, "delete", (OK,) if gone else (SKIPPED,))
  left = ds.local().read_all().column("rid").to_pylist()
  w.check(left == [i for i in range(n) if i not in gone], "rows left")
  if gone:
    (d,) = list(ds.local().diff(1, 2))
    w.check(d.type_ == ChangeType.DELETE and
            sorted(d.data.column("k").to_pylist()) == gone,
            "deleted keys of a large file")


def odd_keys(w):
  """Keys at the edges of their type."""
  kind = w.choose("kind", list(ODD))
  spec = Spec([("v", "int"), ("k", kind), ("rid", "int")], ["k"])
  h = Hist(w, spec, layout="files", fixed=FIX)
  for i in range(0, len(ODD[kind]), 3):
    h.append_rows([h.mk.one(k=k) for k in ODD[kind][i:i + 3]])
  c = w.choose("c", ODD[kind])
  if w.flag("upsert"):
    h.upsert([h.mk.one(k=c)])
  else:
    h.delete(Cmp(Fld("k"), "==", c))
  judge(w, h, 0, h.head(), h.deltas, ["k"])


def big(w):
  """A line of a dozen commits."""
  h, _ = lg.commits(w)
  ids = [0] + [d[0] for d in h.deltas]
  a, b = w.choose("span", [(0, -1), (3, -1), (5, 9), (-2, -1)])
  a, b = ids[a], ids[b]
  judge(w, h, a, b, [d for d in h.deltas if a < d[0] <= b], ["k"])


BOUNDS += lg.BOUND
SCENARIOS = [
    ("odd_keys", odd_keys),
    ("large", large),
    ("history", history),
    ("records", records),
    ("batches", batches),
    ("composite", composite),
    ("versions", versions),
    ("removed_refs", removed_refs),
    ("refused", refused),
    ("parquet", parquet),
    ("other_handle", other_handle),
    ("big", big),
]
