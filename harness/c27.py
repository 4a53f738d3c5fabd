"""C27: a materialized view's definition survives persistence."""
from harness.mv import *  # pylint: disable=wildcard-import,unused-wildcard-import

from space import DirCatalog

BOUNDS = (
    "chains of 1 to 3 transforms out of map (two kinds that do not commute,"
    " projection in another field order, batch size) and filter (all or some"
    " fields), functions closing over symbolic integers, 2 to 3 source rows"
    " with symbolic cells; loaded right after creation, after commits, tags"
    " and branches of the view's storage, through a catalog, from a"
    " materialized view of a materialized view, and next to other views with"
    " the same functions")
ASSUMPTIONS = RAY_ASSUMPTIONS + [
    "user functions that cloudpickle can persist (closures, lambdas, partials)",
    "the source stays at its location; joins cannot be materialized",
]


def named(names, n):
  """Checks the columns it gets, and adds to v."""

  def fn(b):
    out = {c: b[c] for c in b}
    out["v"] = b["v"] + (n if set(b) == set(names) else 1000)
    return out

  def apply(view):
    return view.map_batches(
        fn, input_fields=list(names), output_schema=pa.schema(
            [(f, pa.int64()) for f in names]))

  return Step(apply, lambda r: {c: (r[c] + n if c == "v" else r[c])
                                for c in names})


def counted(size):
  """Writes the number of rows of its batch."""

  def fn(b):
    n = len(b["rid"])
    out = dict(b)
    out["v"] = b["v"] * 0 + n
    return out

  return Step(
      lambda view: view.map_batches(
          fn, output_schema=pa.schema([(f.name, f.type) for f in view.schema]),
          batch_size=size), None)


def transform(w, kind, tag):
  c = w.int("c" + tag, -9, 9)
  return {
      "add": lambda: add_v(c),
      "mul": lambda: mul_v(2),
      "keep": lambda: keep_v("<", c),
      "keepk": lambda: keep_k(">=", c),
      "carried": lambda: carried(c),
      "named": lambda: named(["v", "rid", "k"], c),
      "lambda": lambda: Step(
          lambda view: view.filter(lambda r: r["v"] != c),
          lambda r: r if bool(r["v"] != c) else None),
  }[kind]()


KINDS = ["add", "mul", "keep", "keepk", "named", "lambda", "carried"]


def same_definition(w, a, b):
  """Everything a view says of itself."""
  w.check(a.schema.equals(b.schema), "schema of the loaded view",
          "schema of the loaded view")
  w.check(
      [(f.name, f.type) for f in a.schema] == [(f.name, f.type)
                                               for f in b.schema],
      "fields of the loaded view")
  w.check(list(a.primary_keys) == list(b.primary_keys),
          "primary keys of the loaded view")
  w.check(sorted(a.record_fields) == sorted(b.record_fields),
          "record fields of the loaded view")
  w.check(set(a.sources) == set(b.sources), "sources of the loaded view")


def loaded(w, s_mv, view, rows, steps):
  """The loaded view does what the created one does."""
  mv = MaterializedView.load(s_mv.storage.location)
  same_definition(w, view, mv.view)
  same(w, ray_rows(view.ray()), meaning(rows, steps), "created view")
  same(w, ray_rows(mv.view.ray()), meaning(rows, steps), "loaded view",
       sig="loaded view")
  return mv


def source(w, n=2, loc="src", spec=SRC, **k):
  h = Hist(w, spec, location=w.dir(loc), distinct=True, lo=-9, hi=9, **k)
  h.append(n)
  return h


def refreshed(w, mv, want, what="refresh through the loaded view"):
  for r in mv.ray(RayOptions(max_parallelism=2)).refresh():
    w.check(r.state in (OK, SKIPPED), f"{what}: {r.state.name}"
            f" {r.error_message}", what + " failed")
  same(w, rows_of(mv.local().read_all()), want, what)


def one(w):
  h = source(w)
  steps = [transform(w, w.choose("t", KINDS), "")]
  view = build(h.ds, steps)
  mv = loaded(w, view.materialize(w.dir("mv")), view, h.rows, steps)
  refreshed(w, mv, meaning(h.rows, steps))


def two(w):
  h = source(w, fixed={"k": lambda i: i})
  steps = [
      transform(w, w.choose("t1", KINDS), "1"),
      transform(w, w.choose("t2", KINDS), "2")
  ]
  view = build(h.ds, steps)
  mv = loaded(w, view.materialize(w.dir("mv")), view, h.rows, steps)
  refreshed(w, mv, meaning(h.rows, steps))


def three(w):
  h = source(w, 1, fixed={"k": lambda i: i})
  kinds = ["add", "mul", "keep", "named"]
  steps = [
      transform(w, w.choose(f"t{i}", kinds), str(i)) for i in (1, 2, 3)
  ]
  view = build(h.ds, steps)
  loaded(w, view.materialize(w.dir("mv")), view, h.rows, steps)


def fields(w):
  """Field subsets in any order, in one transform and in the next."""
  spec = Spec([("v", "int"), ("k", "int"), ("u", "int"), ("rid", "int")],
              ["k"])
  h = source(w, spec=spec, fixed={"k": lambda i: i})
  first = w.choose("first", [["v", "k", "rid"], ["rid", "u", "v", "k"],
                             ["k", "rid", "v"], ["u", "k", "v", "rid"]])
  steps = [named(first, w.int("c", -9, 9))]
  if w.flag("subset filter"):
    steps.insert(0, keep_v("<", w.int("d", -9, 9), fields=first))
  left = ["rid", "k", "v"]
  if w.flag("more"):
    steps.append(named(left, 1))
  view = build(h.ds, steps)
  mv = loaded(w, view.materialize(w.dir("mv")), view, h.rows, steps)
  refreshed(w, mv, meaning(h.rows, steps))


def shapes(w):
  """Record fields, renamed and new fields, several keys, other types."""
  spec = Spec([("a", "str"), ("r", "bin"), ("v", "int"), ("b", "int"),
               ("rid", "int")], w.choose("pks", [["a"], ["b", "a"]]), ["r"])
  h = source(w, spec=spec)
  c = w.int("c", -9, 9)
  rec = w.flag("keep the record field")
  other = w.choose("type", ["same", "float", "list"])

  def fn(b):
    out = {"rid": b["rid"], "a": b["a"], "b": b["b"], "x": b["v"] + c,
           "z": b["r"]}
    if other == "float":
      out["f"] = b["b"]
    return out

  out = [("rid", pa.int64()), ("z", pa.binary()), ("b", pa.int64()),
         ("x", pa.int64()), ("a", pa.string())]
  if other == "float":
    out.append(("f", pa.int64()))
  step = Step(
      lambda view: view.map_batches(fn, input_fields=["rid", "a", "b", "v", "r"
                                                     ],
                                    output_schema=pa.schema(out),
                                    output_record_fields=["z"]
                                    if rec else None),
      lambda r: dict({"rid": r["rid"], "a": r["a"], "b": r["b"],
                      "x": r["v"] + c, "z": r["r"]},
                     **({"f": r["b"]} if other == "float" else {})))
  view = build(h.ds, [step])
  mv = loaded(w, view.materialize(w.dir("mv")), view, h.rows, [step])
  w.check(mv.storage.record_fields == (["z"] if rec else []),
          "record fields of the storage")
  w.check(sorted(mv.storage.primary_keys) == sorted(spec.pks),
          "primary keys of the storage")
  refreshed(w, mv, meaning(h.rows, [step]))


def batches(w):
  """The batch size of a map."""
  h = source(w, w.choose("rows", [2, 3]), fixed={"k": lambda i: i})
  size = w.choose("size", [None, 1, 2])
  steps = [counted(size)]
  if w.flag("under another"):
    steps.append(add_v(0))
  view = build(h.ds, steps)
  a = view.materialize(w.dir("mv"))
  got = by_rid(ray_rows(view.ray()))
  mv = MaterializedView.load(a.storage.location)
  same_definition(w, view, mv.view)
  same(w, ray_rows(mv.view.ray()), got, "batch sizes of the loaded view")
  if size:
    w.check(got[0]["v"] <= size, "batch size of the created view")


def neighbours(w):
  """Views of the same and of other sources do not get mixed up."""
  h1, h2 = source(w, 1, "a"), source(w, 1, "b")
  c, d = w.int("c", -9, 9), w.int("d", -9, 9)
  views = [(h1, [add_v(c)]), (h2, [add_v(d)]), (h1, [add_v(d), mul_v(2)]),
           (h2, [keep_v("<", c)])]
  i = w.choose("i", [0, 1, 2, 3])
  j = w.choose("j", [0, 1, 2, 3])
  built = []
  for n in (i, j):
    h, steps = views[n]
    v = build(h.ds, steps)
    built.append((h, steps, v, v.materialize(w.dir(f"mv{len(built)}"))))
  if w.flag("same view again"):
    h, steps, v, _ = built[0]
    built.append((h, steps, v, v.materialize(w.dir("mv2"))))
  for h, steps, v, mv in built:
    m = loaded(w, mv, v, h.rows, steps)
    w.check(list(m.view.sources) == [h.ds.storage.location],
            "source of the loaded view")
    refreshed(w, m, meaning(h.rows, steps))


def history(w):
  """The definition stays through later commits of the storage."""
  h = source(w)
  steps = [add_v(w.int("c", -9, 9)), keep_v("<", w.int("d", -9, 9))]
  view = build(h.ds, steps)
  mv = view.materialize(w.dir("mv"))
  refreshed(w, mv, meaning(h.rows, steps), "refresh")
  then = w.choose("then", ["refresh", "tag", "branch", "external"])
  if then == "refresh":
    h.step(["append", "delete", "upsert"])
    refreshed(w, mv, meaning(h.rows, steps), "refresh")
  elif then == "tag":
    mv.dataset.add_tag("t")
    mv.dataset.add_tag("u")
    mv.dataset.remove_tag("t")
  elif then == "branch":
    mv.dataset.add_branch("b")
    mv.dataset.remove_branch("b")
  else:
    mv.local().delete(pc.field("rid") == -1)
  again = loaded(w, mv, view, h.rows, steps)
  h.append(1)
  refreshed(w, again, meaning(h.rows, steps))


def nested(w):
  """A view of a materialized view."""
  h = source(w)
  s1, s2 = [add_v(w.int("c", -9, 9))], [keep_v("<", w.int("d", -9, 9))]
  first = build(h.ds, s1).materialize(w.dir("mv1"))
  refreshed(w, first, meaning(h.rows, s1), "refresh")
  view = build(first.dataset, s2)
  mv = loaded(w, view.materialize(w.dir("mv2")), view, meaning(h.rows, s1), s2)
  w.check(list(mv.view.sources) == [first.storage.location],
          "source of the nested view")
  refreshed(w, mv, meaning(h.rows, s1 + s2))


def catalog(w):
  """Through a catalog."""
  cat = DirCatalog(w.dir("cat"))
  ds = cat.create_dataset("src", SRC.schema, ["k"], [])
  h = Hist(w, SRC, ds=ds, distinct=True, lo=-9, hi=9)
  h.append(2)
  steps = [transform(w, w.choose("t", ["add", "keep"]), "")]
  view = build(h.ds, steps)
  cat.materialize("mv", view)
  mv = cat.dataset("mv")
  w.check(isinstance(mv, MaterializedView), "kind of the loaded view")
  same_definition(w, view, mv.view)
  same(w, ray_rows(mv.view.ray()), meaning(h.rows, steps), "loaded view")
  refreshed(w, mv, meaning(h.rows, steps))


def moved(w):
  """The materialized view's folder moves."""
  h = source(w)
  steps = [add_v(w.int("c", -9, 9)), keep_v("<", 2)]
  view = build(h.ds, steps)
  old = view.materialize(w.dir("mv"))
  if w.flag("refreshed"):
    refreshed(w, old, meaning(h.rows, steps), "refresh")
  os.rename(w.dir("mv"), w.dir("elsewhere"))
  mv = MaterializedView.load(w.dir("elsewhere"))
  same_definition(w, view, mv.view)
  same(w, ray_rows(mv.view.ray()), meaning(h.rows, steps), "moved view")
  h.append(1)
  refreshed(w, mv, meaning(h.rows, steps))
  w.check(not os.path.exists(w.dir("mv")), "the old location is not used")


SCENARIOS = [
    ("moved", moved),
    ("one", one),
    ("two", two),
    ("three", three),
    ("fields", fields),
    ("shapes", shapes),
    ("batches", batches),
    ("neighbours", neighbours),
    ("history", history),
    ("nested", nested),
    ("catalog", catalog),
]
