"""C33: reading a view applies its transforms to its source rows."""
from harness.mv import *  # pylint: disable=wildcard-import,unused-wildcard-import

BOUNDS = (
    "chains of up to 3 maps and filters (changed values, dropped, added and"
    " reordered columns, filters on keys and values) with symbolic constants;"
    " sources of up to 4 rows over up to 3 files and 2 commits, with record"
    " fields, deletes and upserts; read by the runner and as a Ray dataset, at"
    " the current and older versions, batch sizes 1 to 3, parallelism 1 to 3,"
    " with and without row range blocks; diffs between all versions")
BUDGET = {"quick": 120, "thorough": 600}
ASSUMPTIONS = RAY_ASSUMPTIONS + [
    "transforms are functions of the row that keep the primary key",
    "a read filter of a view is documented to apply to the source; only"
    " filters on fields that the transforms keep are used",
]
SPEC3 = Spec([("k", "int"), ("v", "int"), ("u", "int"), ("rid", "int")], ["k"])


def drop_u():
  """Reads three of four fields."""
  return Step(
      lambda view: view.map_batches(
          lambda b: {"v": b["v"], "rid": b["rid"], "k": b["k"]},
          input_fields=["k", "v", "rid"],
          output_schema=pa.schema([("v", pa.int64()), ("rid", pa.int64()),
                                   ("k", pa.int64())])),
      lambda r: {"v": r["v"], "rid": r["rid"], "k": r["k"]})


def both(n):
  """A column from two others, batches of a given size."""

  def fn(b):
    out = {c: b[c] for c in ("k", "v", "rid")}
    out["w"] = b["v"] + b["u"]
    return out

  return Step(
      lambda view: view.map_batches(
          fn, batch_size=n, output_schema=pa.schema([
              (c, pa.int64()) for c in ("k", "v", "rid", "w")])),
      lambda r: {"k": r["k"], "v": r["v"], "rid": r["rid"],
                 "w": r["v"] + r["u"]})


def all_of(fields, name):
  """Keeps whatever fields it gets and adds one: must get just its fields."""
  fields = list(fields)

  def fn(b):
    out = dict(b)
    out[name] = b["v"] * 2
    return out

  def row(r):
    out = {n: r[n] for n in fields}
    out[name] = r["v"] * 2
    return out

  return Step(
      lambda view: view.map_batches(
          fn, input_fields=fields, output_schema=pa.schema(
              [(n, pa.int64()) for n in fields + [name]])), row)


CHAINS = {
    "all of": lambda w: [all_of(["k", "v", "rid"], "x")],
    "all of all of": lambda w: [all_of(["v", "rid", "k", "u"], "x"),
                                all_of(["k", "rid", "v"], "y")],
    "add all of": lambda w: [add_v(w.int("n", -9, 9)),
                             all_of(["k", "v", "rid"], "x")],
    "keep all of keep": lambda w: [
        keep_v(">", w.int("c", -20, 20)), all_of(["k", "v", "rid"], "x"),
        keep_v("<", 5)],
    "add": lambda w: [add_v(w.int("n", -9, 9))],
    "keep": lambda w: [keep_v("<", w.int("c", -20, 20))],
    "keep k": lambda w: [keep_k("!=", w.int("c", -20, 20))],
    "add keep": lambda w: [add_v(w.int("n", -9, 9)), keep_v(">", 0)],
    "keep add": lambda w: [keep_v(">=", w.int("c", -20, 20)), add_v(3)],
    "add mul": lambda w: [add_v(2), mul_v(3)],
    "mul add": lambda w: [mul_v(3), add_v(2)],
    "keep keep": lambda w: [keep_v(">", -5), keep_v("<", w.int("c", -20, 20))],
    "drop": lambda w: [drop_u()],
    "both": lambda w: [both(1)],
    "both keep": lambda w: [both(2), keep_v("<", 1)],
    "drop keep": lambda w: [drop_u(), keep_v("<", w.int("c", -20, 20))],
    "keep drop add": lambda w: [keep_v("<", w.int("c", -20, 20)), drop_u(),
                                add_v(1)],
    "subset": lambda w: [keep_v("<", w.int("c", -20, 20),
                                fields=("rid", "v", "k"))],
    "subset drop": lambda w: [keep_v("<", 2, fields=("rid", "v", "k")),
                              drop_u()],
    "carried": lambda w: [carried(w.int("n", -9, 9))],
    "carried keep": lambda w: [carried(2), keep_v("<", 5)],
    "truthy": lambda w: [truthy(w.int("c", -20, 20),
                                w.choose("how", ["none", "zero", "empty"]))],
    "add keep project": lambda w: [add_v(2), keep_v(">", 2), project()],
}


def source(w, layout=None, fixed=None, **k):
  return Hist(w, SPEC3, layout=layout or w.choose("layout", ["files", "one"]),
              fixed={"u": lambda i: 10 * i, **(fixed or {})}, distinct=True,
              lo=-20, hi=20, **k)


def compare(w, got, want, what, v=None):
  same(w, got, want, what)
  if v is not None and got:
    w.check(sorted(got[0]) == sorted(want[0] if want else got[0]),
            f"{what}: columns {sorted(got[0])}", f"{what}: columns")


def ray_options(w):
  return RayOptions(max_parallelism=w.choose("par", [1, 3]),
                    enable_row_range_block=w.flag("blocks"))


def chain(w):
  """Every chain, read in both ways."""
  h = source(w)
  steps = CHAINS[w.choose("view", list(CHAINS))](w)
  h.append(2, 1)
  v = build(h.ds, steps)
  how = w.choose("how", ["runner", "read_all", "dataset"])
  b = w.choose("batch", [None, 1])
  want = meaning(h.rows, steps)
  if how == "runner":
    got = ray_rows(v.ray(), batch_size=b)
  elif how == "read_all":
    got = rows_of(v.ray().read_all(batch_size=b))
  else:
    got = v.ray_dataset(RayOptions(),
                        ReadOptions(batch_size=b)).take_all()
  compare(w, got, want, how, v)
  w.check(v.primary_keys == ["k"], "primary keys")
  same(w, read_rows(h.ds), h.rows, "source afterwards")


def options_(w):
  """Parallelism, row range blocks and batch sizes after deletes."""
  h = source(w, fixed=FIX)
  steps = CHAINS[w.choose("view", ["add", "keep", "both", "drop keep"])](w)
  h.append(*((2, 1) if w.tier == "thorough" else (1, 1)))
  h.step(["delete", "upsert", "append2"])
  v = build(h.ds, steps)
  got = ray_rows(v.ray(ray_options(w)),
                 batch_size=w.choose("batch", [None, 1, 2] if w.tier ==
                                      "quick" else [None, 1, 2, 3]))
  compare(w, got, meaning(h.rows, steps), "view", v)


def versions(w):
  """Older versions and tags; other handles; later commits."""
  h = source(w, layout="files", fixed=FIX)
  steps = CHAINS[w.choose("view", ["add", "keep", "keep add"])](w)
  h.append(2)
  v = build(h.ds if w.flag("this handle") else reopen(h.ds), steps)
  first = h.head()
  h.ds.add_tag("t")
  at = list(h.rows)
  h.step(["append", "delete", "upsert"])
  version = w.choose("version", [None, first, "t", 0])
  rows = {None: h.rows, first: at, "t": at, 0: []}[version]
  b = w.choose("batch", [None, 1])
  if version is None:
    got = ray_rows(v.ray(), batch_size=b)
  elif version == first and w.flag("dataset"):
    got = v.ray_dataset(
        read_options=ReadOptions(snapshot_id=first, batch_size=b)).take_all()
  else:
    got = ray_rows(v.ray(), version=version, batch_size=b)
  compare(w, got, meaning(rows, steps), f"version {version}", v)


def diffs(w):
  """diff of a view: keys of deleted rows, transformed added rows."""
  h = source(w, layout="files", fixed=FIX)
  steps = CHAINS[w.choose("view", ["add", "keep", "drop keep", "both",
                                   "add keep project", "all of all of",
                                   "add all of"])](w)
  h.append(2)
  h.step(["append2", "delete", "upsert"])
  v = build(h.ds, steps)
  start = w.choose("start", [0, 1])
  if start == h.head():
    w.check(
        w.raises(errors.UserInputError,
                 lambda: list(v.ray().diff(start, h.head()))),
        "diff of one version")
    return
  changes = list(
      v.ray(ray_options(w)).diff(start, h.head(),
                                 batch_size=w.choose("batch", [None, 1])))
  order = [c.snapshot_id for c in changes]
  w.check(order == sorted(order), "diff: order of snapshots")
  for sid, deleted, added in h.deltas:
    cs = [c for c in changes if c.snapshot_id == sid]
    if sid <= start:
      w.check(not cs, "diff: a snapshot before the start")
      continue
    kinds = [c.type_.name for c in cs]
    w.check(kinds == sorted(kinds, reverse=True) if kinds else True,
            f"diff: {kinds}: additions before deletions",
            "diff: order of changes")
    gone = [r for c in cs if c.type_.name == "DELETE"
            for r in rows_of(c.data)]
    w.check(len(gone) == len(deleted) and L.And([
        L.Or([L.Eq(g["k"], d["k"]) for g in gone]) for d in deleted]),
            "diff: deleted keys")
    new = [r for c in cs if c.type_.name == "ADD" for r in rows_of(c.data)]
    compare(w, new, meaning(added, steps), "diff: added rows", v)


def records(w):
  """Record fields pass through filters and maps."""
  h = Hist(w, SRCR, layout=w.choose("layout", ["files", "one"]), fixed=FIX,
           distinct=True)
  steps = w.choose("view", [[add_v(1, record=True)], [keep_v("<", 1)],
                            [keep_v("<", 2), add_v(1, record=True)],
                            [project()]])
  h.append(2, 1)
  h.step(["append", "delete", "upsert"])
  v = build(h.ds, steps)
  got = ray_rows(v.ray(ray_options(w)), batch_size=w.choose("batch", [None, 1]))
  compare(w, got, meaning(h.rows, steps), "view", v)


def filtered(w):
  """A filter of the read, on a key that the transforms keep."""
  h = source(w, fixed=FIX)
  steps = CHAINS[w.choose("view", ["add", "keep", "drop"])](w)
  h.append(2, 1)
  v = build(h.ds, steps)
  c = Cmp(Fld("k"), w.choose("op", ["<", "=="]), w.int("f", -20, 20))
  want = meaning(split(h.rows, c)[0], steps)
  compare(w, ray_rows(v.ray(), filter_=c.expr()), want, "filtered", v)


def refused(w):
  """`fields` of a view's read is refused; unknown input fields are, too."""
  h = source(w, layout="one", fixed=FIX)
  h.append(1)
  v = build(h.ds, [w.choose("view", [add_v(1), keep_v("<", 1)])])
  w.check(
      w.raises(errors.UserInputError,
               lambda: ray_rows(v.ray(), fields=["k"])), "fields of a view")
  w.check(
      w.raises(errors.UserInputError,
               lambda: h.ds.filter(lambda r: True, input_fields=["v"])),
      "input fields without the primary key")
  w.check(
      w.raises(errors.UserInputError,
               lambda: v.filter(lambda r: True, input_fields=["k", "zz"])),
      "unknown input fields")
  w.check(
      w.raises(errors.UserInputError, lambda: v.map_batches(
          lambda b: b, output_schema=pa.schema([("v", pa.int64())]))),
      "an output without the primary key")
  w.check(
      w.raises(errors.VersionNotFoundError,
               lambda: ray_rows(v.ray(), version="zz")), "unknown version")


SCENARIOS = [
    ("chain", chain),
    ("options", options_),
    ("versions", versions),
    ("diffs", diffs),
    ("records", records),
    ("filtered", filtered),
    ("refused", refused),
]
