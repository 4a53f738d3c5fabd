"""C26: join returns exactly the matching pairs."""
from harness.rayh import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

from space import JoinOptions, Range

BOUNDS = (
    "0 to 3 rows on each side over up to 3 files and 2 manifests, symbolic keys"
    " (repeated ones and NULLs included) of 4 types, key range cut at up to 2"
    " symbolic points, every selection and order of 2 other fields per side,"
    " record fields with and without reference reads, sides that are filtered"
    " or mapped views, after deletes, composite primary keys")
BUDGET = {"quick": 150, "thorough": 600}
ASSUMPTIONS = RAY_ASSUMPTIONS + [
    "fields other than the key have different names on both sides (documented"
    " limitation of the code)",
    "the partition function covers the key range without overlap, as in the"
    " documentation",
]


def sides(w, kind="int", recs=(), pks=("k",)):
  left = Spec([("k", kind), ("a", "int"), ("r", "bin"), ("lid", "int")],
              list(pks), recs)
  right = Spec([("b", "int"), ("k", kind), ("rid", "int")], ["k"])
  return left, right


def fill(w, h, sizes, **k):
  """Rows over files of one or several appends."""
  for i, chunk in enumerate(sizes):
    if chunk:
      h.append(*chunk, **k)


def nan(x):
  return isinstance(x, float) and x != x


def pairs(w, left, right, lf, rf):
  """Expected rows; keys are compared on this path."""
  out = []
  for a in left:
    for b in right:
      if a["k"] is None or b["k"] is None or nan(a["k"]) or nan(b["k"]):
        continue
      if bool(L.Eq(a["k"], b["k"])):
        r = {"k": a["k"]}
        r.update({n: a[n] for n in lf if n != "k"})
        r.update({n: b[n] for n in rf if n != "k"})
        out.append(r)
  return out


def same_pairs(w, got, want, what="join"):
  key = lambda r: (r.get("lid", -1), r.get("rid", -1))
  g, x = sorted(got, key=key), sorted(want, key=key)
  w.check([key(r) for r in g] == [key(r) for r in x],
          f"{what}: pairs {[key(r) for r in g]}, expected"
          f" {[key(r) for r in x]}", f"{what}: wrong pairs")
  if [key(r) for r in g] != [key(r) for r in x]:
    return
  if x:
    w.check(all(list(r) == list(x[0]) for r in g), f"{what}: columns")
    w.check(L.And([cells_equal(a, b, list(x[0])) for a, b in zip(g, x)]),
            f"{what}: wrong values")


def run(w, view, batch=None, options_=None):
  ro = RayOptions(max_parallelism=2, enable_row_range_block=w.flag("blocks")
                  if batch else True)
  out = []
  for t in view.ray(ro).read(batch_size=batch,
                             join_options=options_ or JoinOptions()):
    out += t.to_pylist()
  return out


FIXL = {"a": lambda i: i, "r": lambda i: b"r%d" % i, "lid": lambda i: 50 + i}
FIXR = {"b": lambda i: 10 * i}
SHAPES = [([[2]], [[1, 1]]), ([[1], [1]], [[1], [1]]), ([[1, 1]], [[2], [1]]),
          ([[]], [[1]]), ([[2]], [[]]), ([[]], [[]])]


def two(w, kind="int", shapes=SHAPES, recs=(), pks=("k",), layout="files",
        nullable=()):
  ls, rs = sides(w, kind, recs, pks)
  fixl = dict(FIXL)
  fixl["lid"] = lambda i: 50 + i
  hl = Hist(w, ls, layout=layout, fixed=fixl, nullable=nullable, lo=-20, hi=20)
  hr = Hist(w, rs, layout=layout, fixed=FIXR, nullable=nullable, lo=-20, hi=20)
  a, b = w.choose("shape", shapes)
  fill(w, hl, a)
  fill(w, hr, b)
  return hl, hr


def keys(w):
  """Any distribution of the keys; no partitioning."""
  hl, hr = two(w, w.choose("kind", ["int", "str", "float", "bin"]))
  view = hl.ds.join(hr.ds, keys=["k"])
  names = ["a", "r", "lid"]
  same_pairs(w, run(w, view), pairs(w, hl.rows, hr.rows, names, ["b", "rid"]))


def swapped(w):
  """The other way round; joined against a copy of itself is refused."""
  hl, hr = two(w, shapes=SHAPES[:3])
  view = hr.ds.join(hl.ds, keys=["k"])
  want = pairs(w, hr.rows, hl.rows, ["b", "rid"], ["a", "r", "lid"])
  same_pairs(w, run(w, view), want)


def partitions(w):
  """The range cut at symbolic points, with the end included or not."""
  hl, hr = two(w, shapes=SHAPES[:3])
  cuts = sorted_cuts(w)

  def fn(r):
    pts = [c for c in cuts if bool(c > r.min_) and bool(c < r.max_)]
    out, lo = [], r.min_
    for c in pts:
      out.append(Range(lo, c, False))
      lo = c
    out.append(Range(lo, r.max_, r.include_max))
    return out

  view = hl.ds.join(hr.ds, keys=["k"])
  got = run(w, view, None, JoinOptions(partition_fn=fn))
  same_pairs(w, got, pairs(w, hl.rows, hr.rows, ["a", "r", "lid"],
                           ["b", "rid"]))


def at_the_cut(w):
  """Rows at, before and after a cut, on both sides."""
  hl, hr = two(w, shapes=[([[2, 1]], [[1, 1, 1]]), ([[1], [2]], [[3]])])
  for h in (hl, hr):
    w.assume(bool(L.Eq(h.rows[0]["k"], -20)))
    w.assume(bool(L.Eq(h.rows[2]["k"], 20)))
  c = w.int("c", -20, 20)

  def fn(r):
    if not bool(c > r.min_) or not bool(c < r.max_):
      return [r]
    return [Range(r.min_, c, False), Range(c, r.max_, r.include_max)]

  view = hl.ds.join(hr.ds, keys=["k"])
  got = run(w, view, None, JoinOptions(partition_fn=fn))
  same_pairs(w, got, pairs(w, hl.rows, hr.rows, ["a", "r", "lid"],
                           ["b", "rid"]))


def sorted_cuts(w):
  c = [w.int("c0", -20, 20), w.int("c1", -20, 20)]
  w.assume(c[0] < c[1])
  return c if w.flag("two cuts") else c[:1]


def gaps(w):
  """Partitions without any row are fine."""
  hl, hr = two(w, shapes=[([[1, 1]], [[1, 1]])])

  def fn(r):
    return [Range(r.min_, -3, False), Range(-3, 0, False), Range(0, 4, False),
            Range(4, r.max_, True)]

  for h in (hl, hr):
    w.assume(bool(L.Eq(h.rows[0]["k"], -10)) and bool(
        L.Eq(h.rows[1]["k"], 10)))
  view = hl.ds.join(hr.ds, keys=["k"])
  got = run(w, view, None, JoinOptions(partition_fn=fn))
  same_pairs(w, got, pairs(w, hl.rows, hr.rows, ["a", "r", "lid"],
                           ["b", "rid"]))


def fields(w):
  """Selections and orders of the fields of both sides; batches."""
  hl, hr = two(w, shapes=SHAPES[1:2] if w.tier == "quick" else SHAPES[:2],
               recs=w.choose("recs", [[], ["r"]]))
  lf = w.choose("lf", [None, ["lid", "a"], ["r", "lid"], ["lid", "k", "r"],
                       ["k", "a", "lid"]])
  rf = w.choose("rf", [None, ["rid"], ["rid", "b"], ["k", "rid"]])
  view = hl.ds.join(hr.ds, keys=["k"],
                    left_fields=None if lf is None else list(lf),
                    right_fields=None if rf is None else list(rf))
  order = lf or ["a", "r", "lid"]
  want = pairs(w, hl.rows, hr.rows, order, rf or ["b", "rid"])
  full = w.tier == "thorough" or lf == rf
  same_pairs(w, run(w, view, w.choose("batch", [None, 1]) if full else None),
             want)
  w.check(view.schema.names == ["k"] + [
      n for n in order + (rf or ["b", "rid"]) if n != "k"
  ], "fields of the view's schema")
  logical = {f.name: f.type for h in (hl, hr) for f in h.spec.schema}
  w.check(all(f.type == logical[f.name] for f in view.schema),
          "types of the view's schema")
  w.check(sorted(view.record_fields) == [n for n in hl.spec.records
                                         if n in order], "record fields")
  w.check(view.primary_keys == ["k"], "primary key")


def references(w):
  """Reference reads give the addresses of the record field."""
  ls, rs = sides(w, recs=["r"])
  hl = Hist(w, ls, layout=w.choose("layout", ["files", "one"]), fixed=FIXL)
  hr = Hist(w, rs, layout="files", fixed=FIXR)
  hl.append(2, 1)
  hr.append(2)
  swap = w.flag("swap")
  if swap:
    view = hr.ds.join(hl.ds, keys=["k"], right_reference_read=True)
  else:
    lf = w.choose("lf", [None, ["r", "lid"], ["lid", "r", "a"]])
    view = hl.ds.join(hr.ds, keys=["k"], left_fields=lf and list(lf),
                      left_reference_read=True)
  refs = {r["lid"]: r["r"] for r in read_rows(hl.ds, reference_read=True)}
  left = [{**r, "r": refs[r["lid"]]} for r in hl.rows]
  if swap:
    want = pairs(w, hr.rows, left, ["b", "rid"], ["a", "r", "lid"])
  else:
    want = pairs(w, left, hr.rows, lf or ["a", "r", "lid"], ["b", "rid"])
  same_pairs(w, run(w, view), want)
  w.check(list(view.record_fields) == ["r"], "record fields")
  w.check(view.schema.field("r").type == hl.ds.storage.physical_schema.field(
      "r").type, "address type in the view's schema")
  w.check(all(f.type == (hl.spec if f.name in ("k", "a", "lid") else
                         hr.spec).schema.field(f.name).type
              for f in view.schema if f.name != "r"),
          "types in the view's schema")


def nulls(w):
  """NULL keys match nothing."""
  ls, rs = sides(w)
  hl = Hist(w, ls, layout="files", fixed=FIXL, nullable=["k"])
  hr = Hist(w, rs, layout="files", fixed=FIXR, nullable=["k"])
  shape = w.choose("shape", [([[1], [1]], [[2]]), ([[1, 1]], [[1], [1]])])
  fill(w, hl, shape[0])
  fill(w, hr, shape[1])
  view = hl.ds.join(hr.ds, keys=["k"])
  same_pairs(w, run(w, view), pairs(w, hl.rows, hr.rows, ["a", "r", "lid"],
                                    ["b", "rid"]))


def history(w):
  """After deletes and upserts, also by a handle that has not seen them."""
  hl, hr = two(w, shapes=[([[2]], [[1, 1]])])
  view = (reopen(hl.ds) if w.flag("stale") else hl.ds).join(hr.ds, keys=["k"])
  w.distinct([r["k"] for r in hl.rows])
  op = w.choose("op", ["delete", "append", "upsert"])
  if op == "delete":
    hl.delete(Cmp(Fld("k"), "<", w.int("d", -20, 20)))
  elif op == "append":
    hl.append(1)
  else:
    hl.upsert(hl.mk.many(1))
  want = pairs(w, hl.rows, hr.rows, ["a", "r", "lid"], ["b", "rid"])
  same_pairs(w, run(w, view), want)


def composite(w):
  """The key is one of several primary keys, in any position."""
  hl, hr = two(w, shapes=SHAPES[:2], pks=w.choose("pks", [
      ("a", "k"), ("k", "lid"), ("lid", "a", "k")]))
  view = hl.ds.join(hr.ds, keys=["k"])
  same_pairs(w, run(w, view), pairs(w, hl.rows, hr.rows, ["a", "r", "lid"],
                                    ["b", "rid"]))


def views(w):
  """Sides that are views keeping the key."""
  ls, rs = sides(w, pks=w.choose("pks", [("k",), ("a", "k")]))
  hl = Hist(w, ls, layout="files", fixed=FIXL)
  hr = Hist(w, rs, layout="files", fixed=FIXR)
  hl.append(2)
  hr.append(1, 1)
  kind = w.choose("kind", ["map", "filter", "reordered map"])
  left = hl.rows
  if kind == "filter":
    v = hl.ds.filter(lambda row: row["lid"] != 50)
    left = [r for r in left if r["lid"] != 50]
    order = ["a", "r", "lid"]
  elif kind == "map":
    v = hl.ds.map_batches(lambda b: {**b, "lid": b["lid"] + 100},
                          output_schema=ls.schema)
    left = [{**r, "lid": r["lid"] + 100} for r in left]
    order = ["a", "r", "lid"]
  else:
    v = hl.ds.map_batches(
        lambda b: {"lid": b["lid"], "a": b["a"], "k": b["k"]},
        output_schema=pa.schema([("lid", pa.int64()), ("a", pa.int64()),
                                 ("k", pa.int64())]))
    order = ["lid", "a"]
  swap = w.flag("swap")
  if swap:
    view = hr.ds.join(v, keys=["k"])
    want = pairs(w, hr.rows, left, ["b", "rid"], order)
  else:
    view = v.join(hr.ds, keys=["k"])
    want = pairs(w, left, hr.rows, order, ["b", "rid"])
  same_pairs(w, run(w, view), want)


def refused(w):
  """Joins that make no sense are refused."""
  hl, hr = two(w, shapes=SHAPES[:1])
  bad = lambda fn: w.check(w.raises(errors.UserInputError, fn), "not refused")
  bad(lambda: hl.ds.join(hr.ds, keys=["a"]))
  bad(lambda: hl.ds.join(hr.ds, keys=["k", "a"]))
  bad(lambda: hl.ds.join(hr.ds, keys=[]))
  bad(lambda: hl.ds.join(hr.ds, keys=["k"], left_fields=["k"]))
  bad(lambda: hl.ds.join(hr.ds, keys=["k"], right_fields=[]))
  bad(lambda: hl.ds.join(hr.ds, keys=["k"], left_fields=["z"]))
  view = hl.ds.join(hr.ds, keys=["k"])
  bad(lambda: list(view.ray().read(fields=["k"])))
  bad(lambda: list(view.ray().read(reference_read=True)))
  # Neither is applied, so they must not be ignored.
  bad(lambda: list(view.ray().read(filter_=pc.field("lid") == 50)))
  bad(lambda: list(view.ray().read(version=1)))
  itself = hl.ds.join(Dataset.load(hl.ds.storage.location), keys=["k"],
                      left_fields=["a"], right_fields=["lid"])
  bad(lambda: list(itself.ray().read(version=0)))


def odd_keys(w):
  """Keys at the edges of their type."""
  kind = w.choose("kind", list(ODD))
  hl, hr = two(w, kind, shapes=[([[]], [[]])])
  odd = ODD[kind]
  hl.append_rows([hl.mk.one(k=k) for k in odd[:4]])
  hl.append_rows([hl.mk.one(k=k) for k in odd[4:]])
  hr.append_rows([hr.mk.one(k=k) for k in odd[::2]])
  hr.append_rows([hr.mk.one(k=w.choose("c", odd))])
  names = ["a", "r", "lid"]
  same_pairs(w, run(w, hl.ds.join(hr.ds, keys=["k"])),
             pairs(w, hl.rows, hr.rows, names, ["b", "rid"]))


def unknown_stats(w):
  """Files without key statistics take part in the join."""
  kind = w.choose("kind", ["float", "str", "bin"])
  hl, hr = two(w, kind, shapes=[([[]], [[]])])
  odd = {"float": float("nan"), "str": w.choose("long", ["", "x" * 5000]),
         "bin": b""}[kind]
  for h, n in ((hl, "left"), (hr, "right")):
    for j, x in enumerate(w.choose(n, [
        "odd", "odd+1 1", "1 odd+1"] if kind == "float" else [
            "odd", "odd 1"] + (["odd+1"] if len(odd) < 4096 else [])).split()):
      rows = [h.mk.one(k=odd)] if x.startswith("odd") else []
      if x != "odd":
        rows.append(h.mk.one())
      h.append_rows(rows)
  names = ["a", "r", "lid"]
  opts = None
  if w.flag("cut"):
    opts = JoinOptions(partition_fn=lambda r: [
        Range(r.min_, r.max_, False), Range(r.max_, r.max_, True)])
  same_pairs(w, run(w, hl.ds.join(hr.ds, keys=["k"]), options_=opts),
             pairs(w, hl.rows, hr.rows, names, ["b", "rid"]))


def big(w):
  """Hundreds of rows on both sides, cut into ranges."""
  ls, rs = sides(w)
  fl = {**FIXL, "k": lambda i: i * 7 % 132}
  fr = {**FIXR, "k": lambda i: i * 5 % 144}
  hl = Hist(w, ls, layout="files", fixed=fl)
  hr = Hist(w, rs, layout="files", fixed=fr)
  hl.append(*([22] * 6))
  hr.append(*([36] * 2))
  hr.append(*([36] * 2))
  c = large.cut(w, at=60)
  parts = w.flag("parts")

  def fn(r):
    return [Range(r.min_, c, False), Range(c, 100, False),
            Range(100, r.max_, r.include_max)]

  got = run(w, hl.ds.join(hr.ds, keys=["k"]), None,
            JoinOptions(partition_fn=fn) if parts else None)
  right = {}
  for r in hr.rows:
    right.setdefault(r["k"], []).append(r)
  want = [{"k": a["k"], "a": a["a"], "r": a["r"], "lid": a["lid"],
           "b": b["b"], "rid": b["rid"]}
          for a in hl.rows for b in right.get(a["k"], [])]
  same_pairs(w, got, want)


BOUNDS += large.BOUND
SCENARIOS = [
    ("unknown_stats", unknown_stats),
    ("odd_keys", odd_keys),
    ("keys", keys),
    ("swapped", swapped),
    ("partitions", partitions),
    ("at_the_cut", at_the_cut),
    ("gaps", gaps),
    ("fields", fields),
    ("references", references),
    ("nulls", nulls),
    ("history", history),
    ("composite", composite),
    ("views", views),
    ("refused", refused),
    ("big", big),
]
