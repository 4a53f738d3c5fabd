"""C31: operations leave their arguments unchanged; reads can be repeated."""
from harness.mv import *  # pylint: disable=wildcard-import,unused-wildcard-import

from space import JoinOptions, Range
from space.core.random_access import RandomAccessDataSource

BOUNDS = (
    "one call, and the same call with the same objects again, of every public"
    " operation that takes a table, dict, list, source function, schema, filter"
    " or options object (local and Ray), on datasets of up to 3 rows with"
    " symbolic cells; datasets, map, filter and chained views, joins")
ASSUMPTIONS = RAY_ASSUMPTIONS
FIXED = {"v": lambda i: i, "r": lambda i: b"r%d" % i}


class Same:
  """Remembers arguments and compares them later."""

  def __init__(self, w, **args):
    self.w, self.args = w, args
    self.was = {n: self._copy(a) for n, a in args.items()}

  def _copy(self, a):
    if isinstance(a, list):
      return [self._copy(x) for x in a]
    if isinstance(a, dict):
      return {k: self._copy(x) for k, x in a.items()}
    if isinstance(a, (ReadOptions, RayOptions, JoinOptions, FileOptions,
                      ParquetWriterOptions, ArrayRecordOptions)):
      return (type(a).__name__, {k: self._copy(x) for k, x in vars(a).items()})
    if isinstance(a, pa.Table):
      return (a.schema, a.to_pylist())
    return a

  def _eq(self, a, b):
    if isinstance(a, list):
      return (isinstance(b, list) and len(a) == len(b) and
              L.And([self._eq(x, y) for x, y in zip(a, b)]))
    if isinstance(a, tuple):
      return L.And([self._eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
      return (list(a) == list(b) and
              L.And([self._eq(a[k], b[k]) for k in a]))
    if a is b:
      return True
    if isinstance(a, (pa.Schema, pc.Expression)):
      return a.equals(b)
    if a is None or b is None:
      return False
    if isinstance(a, (E.Sym, int, float, str, bytes)):
      return L.Eq(a, b)
    return False

  def judge(self, what):
    for n, a in self.args.items():
      self.w.check(self._eq(self._copy(a), self.was[n]),
                   f"{what}: {n} was changed", f"{what}: {n} changed")


def data(w, spec, rows, form):
  if form == "table":
    return spec.table(rows)
  if form == "extra":
    # Columns that are not stored, in another order.
    return {"x": [0] * len(rows), **{n: [r[n] for r in rows]
                                     for n in spec.names[::-1]},
            "y": [b"y"] * len(rows)}
  return {n: [r[n] for r in rows] for n in spec.names}


def runner_of(w, ds, ro=None, fo=None):
  if w.choose("runner", ["local", "ray"]) == "local":
    return ds.local(fo)
  return ds.ray(ro, fo)


def writes(w):
  """append, append_from, insert, upsert, delete."""
  spec = w.choose("spec", [SRC, SRCR])
  fo, ro = options(0, 0, 0), RayOptions(max_parallelism=3)
  pks, recs = list(spec.pks), list(spec.records)
  schema = spec.schema
  s = Same(w, schema=schema, primary_keys=pks, record_fields=recs)
  loc = w.dir()
  ds = Dataset.create(loc, schema, pks, recs)
  s.judge("create")
  mk = Rows(w, spec, fixed=FIXED)
  a, b, c = mk.many(1), mk.many(2), mk.many(1)
  w.distinct([r["k"] for r in a + b])
  r = runner_of(w, ds, ro, fo)
  opts = Same(w, file_options=fo, ray_options=ro)
  form = w.choose("form", ["table", "dict", "extra"])
  d = data(w, spec, a, form)
  s = Same(w, data=d)
  ok(w, r.append(d), "append")
  s.judge("append")
  op = w.choose("op", ["append_from", "append_from list", "insert", "upsert",
                       "delete", "append again"])
  rows = list(a)
  if op.startswith("append_from"):
    ds1, ds2 = data(w, spec, b[:1], form), data(w, spec, b[1:], form)
    fns = [lambda: iter([ds1]), lambda: iter([ds2])]
    given = fns if op.endswith("list") else (lambda: iter([ds1, ds2]))
    s = Same(w, first=ds1, second=ds2, sources=fns)
    ok(w, r.append_from(given), op)
    s.judge(op)
    rows += b
  elif op == "delete":
    f = pc.field("k") == a[0]["k"]
    s = Same(w, filter_=f)
    ok(w, r.delete(f), "delete")
    s.judge("delete")
    rows = []
  elif op == "append again":
    ok(w, r.append(d), "append")
    s.judge("append again")
    got = read_rows(ds)
    w.check(len(got) == 2 and
            L.And([cells_equal(x, a[0], spec.names) for x in got]),
            "appending the same object again")
    opts.judge(op)
    return
  else:
    if op == "upsert":
      b = c + b[:1]
      w.assume(L.And([c[0]["k"] == a[0]["k"], L.Not(b[1]["k"] == a[0]["k"])]))
      rows = []
    d = data(w, spec, b, form)
    s = Same(w, data=d)
    ok(w, getattr(r, op)(d), op)
    s.judge(op)
    rows += b
  opts.judge(op)
  same(w, read_rows(ds), rows, op)


def setup(w, spec=SRCR, n=2, **k):
  h = Hist(w, spec, layout="files", fixed=FIXED, distinct=True, lo=-20, hi=20,
           **k)
  h.append(n)
  return h


def reads(w):
  """read, read_all, diff: twice with the same objects."""
  h = setup(w)
  h.step(["append", "delete"])
  fields = w.choose("fields", [["v", "k", "rid"], ["r", "rid"], ["rid", "r", "k"],
                               None])
  f = w.choose("filter", [None, pc.field("k") < 3])
  ro = RayOptions(max_parallelism=2)
  jo = JoinOptions()
  s = Same(w, fields=fields, filter_=f, ray_options=ro, join_options=jo)
  kind = w.choose("runner", ["local", "ray", "dataset"])
  want = [{n: r[n] for n in (fields or SRCR.names)} for r in h.rows
          if f is None or bool(r["k"] < 3)]
  if kind == "dataset":
    opts = ReadOptions(f, fields, batch_size=w.choose("batch", [None, 1]))
    s2 = Same(w, read_options=opts)
    for i in (1, 2):
      got = h.ds.ray_dataset(ro, opts, jo).take_all()
      s2.judge("ray_dataset")
      same(w, got, want, f"ray_dataset {i}")
  else:
    r = h.ds.local() if kind == "local" else h.ds.ray(ro)
    for i in (1, 2):
      got = rows_of(r.read_all(filter_=f, fields=fields, join_options=jo))
      same(w, got, want, f"read {i}")
    changes = [[(c.snapshot_id, c.type_.name, rows_of(c.data))
                for c in r.diff(0, h.head())] for _ in (1, 2)]
    w.check(
        L.And([L.Eq(x[2], y[2]) for x, y in zip(*changes)]) and
        [x[:2] for x in changes[0]] == [x[:2] for x in changes[1]],
        "diff repeated")
  s.judge("read")


VIEWS = {
    "map": lambda w: [add_v(2)],
    "keep": lambda w: [keep_v("<", w.int("c", -20, 20))],
    "project": lambda w: [project()],
    "keep map": lambda w: [keep_v("<", 1), add_v(1)],
    "map project": lambda w: [add_v(2), project()],
    "project keep": lambda w: [project(), keep_k("<", 0)],
    "three": lambda w: [add_v(2), keep_v(">", 2), project()],
}


def views(w):
  """A view read twice with the same options; it and its inputs stay."""
  h = setup(w, spec=SRC, n=2)
  steps = VIEWS[w.choose("view", list(VIEWS))](w)
  inner = h.ds
  v = build(h.ds, steps)
  ro = RayOptions(max_parallelism=2, enable_row_range_block=w.flag("blocks"))
  opts = ReadOptions(batch_size=w.choose("batch", [None, 1]))
  s = Same(w, read_options=opts, ray_options=ro)
  want = meaning(h.rows, steps)
  for i in (1, 2):
    same(w, v.ray_dataset(ro, opts).take_all(), want, f"ray_dataset {i}")
    s.judge("ray_dataset of a view")
  # The same options serve another view and the dataset itself.
  same(w, inner.ray_dataset(ro, opts).take_all(), h.rows, "dataset")
  other = [add_v(7)]
  same(w, build(h.ds, other).ray_dataset(ro, opts).take_all(),
       meaning(h.rows, other), "another view")
  s.judge("ray_dataset of a dataset")
  same(w, ray_rows(v.ray(ro)), want, "read")
  s.judge("read of a view")


def definitions(w):
  """The lists given to map_batches, filter, join and materialize."""
  h = setup(w, spec=SRCR, n=2)
  fields = w.choose("fields", [["rid", "k"], ["k", "v", "rid"]])
  recs = []
  schema = pa.schema([("rid", pa.int64()), ("k", pa.int64())])
  s = Same(w, input_fields=fields, output_record_fields=recs,
           output_schema=schema)
  v = h.ds.map_batches(lambda b: {"rid": b["rid"], "k": b["k"]},
                       input_fields=fields, output_schema=schema,
                       output_record_fields=recs, batch_size=1)
  s.judge("map_batches")
  want = [{"rid": r["rid"], "k": r["k"]} for r in h.rows]
  same(w, ray_rows(v.ray()), want, "view")
  s.judge("read of a view")
  keep = ["v", "rid", "k"]
  s2 = Same(w, input_fields=keep)
  f = h.ds.filter(lambda r: r["v"] < 1, input_fields=keep)
  s2.judge("filter")
  same(w, ray_rows(f.ray()),
       [{n: r[n] for n in keep} for r in h.rows if r["v"] < 1], "filter")
  s2.judge("read of a filter")
  mv = v.materialize(w.dir("mv"))
  fo, ro = options(0, 0, 0), RayOptions(max_parallelism=2)
  s3 = Same(w, file_options=fo, ray_options=ro)
  for r in mv.ray(ro, fo).refresh():
    ok(w, r, "refresh")
  same(w, rows_of(mv.local().read_all()), want, "materialized view")
  s.judge("refresh")
  s3.judge("refresh")


def joins(w):
  """The lists and options given to join."""
  left = setup(w, spec=SRCR, n=2)
  spec = Spec([("k", "int"), ("w", "int"), ("rid2", "int")], ["k"])
  n = [0]

  def rid2(i):
    return 300 + i

  right = Hist(w, spec, fixed={"w": lambda i: i, "rid2": rid2}, distinct=True,
               lo=-20, hi=20)
  right.append(2)
  lf = w.choose("left", [["v", "rid"], ["rid", "k", "v"], ["r", "rid"], None])
  rf = w.choose("right", [["rid2"], ["rid2", "k"], None])
  keys = ["k"]
  jo = JoinOptions(partition_fn=w.choose("cut", [None, lambda r: [r]]))
  s = Same(w, left_fields=lf, right_fields=rf, keys=keys, join_options=jo)
  names = ["k"] + [f for f in (lf or SRCR.names) if f != "k"] + [
      f for f in (rf or spec.names) if f != "k"]
  want = []
  for a in left.rows:
    for b in right.rows:
      if bool(L.Eq(a["k"], b["k"])):
        want.append({f: {**b, **a}[f] for f in names})
  for i in (1, 2):
    v = left.ds.join(right.ds, keys=keys, left_fields=lf, right_fields=rf)
    s.judge("join")
    for j in (1, 2):
      got = [r for t in v.ray().read(join_options=jo) for r in t.to_pylist()]
      key = lambda r: (r["rid"], r["rid2"])
      g, x = sorted(got, key=key), sorted(want, key=key)
      w.check([key(r) for r in g] == [key(r) for r in x], f"join {i} {j}: rows",
              "join: wrong rows")
      if len(g) == len(x):
        w.check(L.And([cells_equal(p_, q_, names) for p_, q_ in zip(g, x)]),
                "join: wrong values")
      s.judge("read of a join")


def random_access(w):
  """feature_fields, addresses and index lists."""
  h = setup(w, spec=SRCR, n=2)
  kind = w.choose("given", ["location", "storage"])
  feature = {"r": h.ds.storage.location if kind == "location" else h.ds.storage}
  arr = w.flag("array_record")
  addr = h.ds.local().read_all(fields=["r"], reference_read=True)
  given = w.flag("addresses")
  was = dict(feature)
  idx = [1, 0]
  for i in (1, 2):
    src = RandomAccessDataSource(feature, addr if given else None,
                                 use_array_record_data_source=arr)
    w.check(list(feature) == ["r"] and feature["r"] is was["r"],
            f"feature_fields was changed ({kind})", "feature_fields changed")
    its = list(src)
    w.check(sorted(its) == sorted(r["r"] for r in h.rows), f"elements {i}")
    w.check(src[idx] == [its[1], its[0]] and
            src.__getitems__(idx) == [its[1], its[0]] and idx == [1, 0],
            "elements by a list of indexes, twice")


SCENARIOS = [
    ("writes", writes),
    ("reads", reads),
    ("views", views),
    ("definitions", definitions),
    ("joins", joins),
    ("random_access", random_access),
]
