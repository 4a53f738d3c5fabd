"""C16: the schema survives persistence and field IDs are unique."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import

from space.core.schema.types import File, TfFeatures

BOUNDS = (
    "schemas of 1 to 5 top level fields; types: int64, int32, float64, float32,"
    " string, bytes, bool, File, TfFeatures (record fields) and lists and structs"
    " of them, nested up to depth 3 and width 2; 1 to 2 primary keys and up to"
    " 2 record fields anywhere; names equal at different levels")
ASSUMPTIONS = [
    "field names with dots are outside (Arrow's reader takes them as paths)",
    "types the Substrait conversion refuses are not 'supported'; nullability"
    " flags and user metadata of fields are not part of the statement",
    "TfFeatures with a non-record field is outside (no physical type)",
]
SCALARS = {
    "int64": pa.int64, "int32": pa.int32, "float64": pa.float64,
    "float32": pa.float32, "string": pa.string, "binary": pa.binary,
    "bool": pa.bool_, "file": lambda: File("dir/x"),
}
ALL = list(SCALARS)
NEST = ["int64", "string", "file", "list", "struct"]


def features(n):
  from tensorflow_datasets import features as f
  return TfFeatures(
      f.FeaturesDict({
          "image": f.Tensor(shape=(n,), dtype=np.uint8),
          "label": {"x": f.Scalar(dtype=np.int64)}
      }))


def type_of(w, tag, depth, leaves=None):
  """(type, value maker) of any type up to a depth."""
  kinds = list(leaves or ALL) + (["list", "struct"] if depth else [])
  k = w.choose("ty" + tag, list(dict.fromkeys(kinds)))
  if k == "list":
    t, v = type_of(w, tag + "l", depth - 1, ["int64", "string", "file"])
    return pa.list_(t), lambda i: [v(i), v(i + 1)]
  if k == "struct":
    # The inner names repeat the outer ones.
    parts = [("a", *type_of(w, tag + "s", depth - 1, ["int64", "binary"]))]
    if w.flag("wide" + tag):
      parts.append(("r", *type_of(w, tag + "t", 0, ["string", "float64"])))
    return (pa.struct([pa.field(n, t) for n, t, _ in parts]),
            lambda i: {n: v(i) for n, _, v in parts})
  return SCALARS[k](), {
      "int64": lambda i: i, "int32": lambda i: i, "float64": lambda i: i + .5,
      "float32": lambda i: i + .5, "string": lambda i: f"s{i}",
      "binary": lambda i: b"b%d" % i, "bool": lambda i: i % 2 == 0,
      "file": lambda i: f"f{i}",
  }[k]


def ids_of(t, out):
  """All field IDs of persisted types, nested ones included."""
  kind = t.WhichOneof("kind")
  m = getattr(t, kind)
  out.append(m.type_variation_reference)
  if kind == "list":
    ids_of(m.type, out)
  elif kind == "struct":
    for x in m.types:
      ids_of(x, out)
  return out


def same_type(a, b):
  """Equal types, including names of nested fields and extension state."""
  if isinstance(a, (File, TfFeatures)):
    return (type(a) is type(b) and
            a.__arrow_ext_serialize__() == b.__arrow_ext_serialize__())
  if pa.types.is_list(a):
    return pa.types.is_list(b) and same_type(a.value_type, b.value_type)
  if pa.types.is_struct(a):
    return (pa.types.is_struct(b) and a.num_fields == b.num_fields and all(
        a.field(i).name == b.field(i).name and
        same_type(a.field(i).type, b.field(i).type)
        for i in range(a.num_fields)))
  return a == b and not isinstance(b, (File, TfFeatures))


def storage_type(t):
  """Type of the values of a field in an index file."""
  if isinstance(t, File):
    return pa.string()
  if pa.types.is_list(t):
    return pa.list_(storage_type(t.value_type))
  if pa.types.is_struct(t):
    return pa.struct([(t.field(i).name, storage_type(t.field(i).type))
                      for i in range(t.num_fields)])
  return t


def judge(w, ds, schema, pks, recs, what):
  s = ds.schema
  w.check(s.names == schema.names, f"{what}: names {s.names}", "names")
  for i, f in enumerate(schema):
    w.check(same_type(f.type, s.field(i).type),
            f"{what}: type {s.field(i).type} of {f.name}, given {f.type}",
            "type of a field")
  w.check(ds.primary_keys == pks, f"{what}: primary keys")
  w.check(ds.record_fields == recs, f"{what}: record fields")
  ids = []
  for t in ds.storage.metadata.schema.fields.struct.types:
    ids_of(t, ids)
  w.check(len(set(ids)) == len(ids), f"{what}: field IDs {ids}",
          "field IDs are not unique")
  ph = ds.storage.physical_schema
  w.check(ph.names == schema.names, f"{what}: physical names")
  tops = [ids_of(t, [])[0]
          for t in ds.storage.metadata.schema.fields.struct.types]
  for sch in (s, ph):
    got = [int(f.metadata[b"PARQUET:field_id"]) for f in sch]
    w.check(got == tops, f"{what}: IDs of top level fields {got}",
            "IDs of top level fields")
  for i, f in enumerate(schema):
    if f.name not in recs:
      w.check(ph.field(i).type == storage_type(f.type),
              f"{what}: physical type of {f.name}", "physical type")
  return tops


def both(w, schema, pks, recs, rows):
  loc = w.dir()
  ds = Dataset.create(loc, schema, pks, recs)
  a = judge(w, ds, schema, pks, recs, "created")
  ld = Dataset.load(loc)
  b = judge(w, ld, schema, pks, recs, "loaded")
  w.check(a == b, "IDs changed by loading")
  plain = pa.schema([(f.name, storage_type(f.type) if f.name not in recs else
                      pa.binary()) for f in schema])
  for n, d in enumerate((ds, ld)):
    t = pa.Table.from_pydict(
        {f.name: [r[f.name] for r in rows[n]] for f in plain}, schema=plain)
    ok(w, d.local().append(t), "append")
  ld = Dataset.load(loc)
  judge(w, ld, schema, pks, recs, "loaded after appends")
  for f in ld.index_files():
    fs = pq.read_schema(f)
    w.check(fs.names == schema.names, "columns of a data file")
    got = [int(x.metadata[b"PARQUET:field_id"]) for x in fs]
    w.check(got == a, f"field IDs {got} of a data file, expected {a}",
            "field IDs of a data file")
  got = read_rows(ld)
  want = rows[0] + rows[1]
  w.check(len(got) == len(want), "rows")
  if len(got) == len(want):
    w.check(
        L.And([
            L.Eq(g[n], x[n]) for g, x in zip(got, want) for n in schema.names
        ]), "values read back")


def rows_for(w, schema, makers, fixed=()):
  out = []
  for i in range(2):
    r = {}
    for f in schema:
      r[f.name] = makers[f.name](10 * i)
    r.update(fixed(i) if fixed else {})
    out.append([r])
  return out


def nested(w):
  """One field of any type up to depth 2 (3 in thorough) around a key."""
  t, v = type_of(w, "x", 3 if w.tier == "thorough" else 2)
  fields = [("k", pa.int64()), ("x", t), ("a", pa.string())]
  at = w.choose("at", [0, 1, 2])
  fields.insert(at, fields.pop(0))
  schema = pa.schema(fields)
  ks = [w.int("k0"), w.int("k1")]
  both(w, schema, ["k"], [], rows_for(
      w, schema, {"k": lambda i: ks[i // 10], "x": v,
                  "a": lambda i: f"a{i}"}))


def two(w):
  """Two nested fields and a record field between them."""
  t1, v1 = type_of(w, "x", 1, ["int64", "file"])
  t2, v2 = type_of(w, "y", 1, ["string", "bool"])
  fields = [("x", t1), ("r", pa.binary()), ("y", t2), ("k", pa.int64())]
  if w.flag("record_first"):
    fields = [fields[1], fields[0]] + fields[2:]
  schema = pa.schema(fields)
  ks = [w.int("k0"), w.int("k1")]
  both(w, schema, ["k"], ["r"], rows_for(
      w, schema, {"k": lambda i: ks[i // 10], "x": v1, "y": v2,
                  "r": lambda i: b"r%d" % i}))


def keys(w):
  """Every scalar type as one of two primary keys."""
  n1, n2 = w.choose("t1", ALL), w.choose("t2", ALL)
  mk = lambda n, tag: cell(w, tag, {
      "int64": "int", "int32": "int", "float64": "float", "float32": "float",
      "string": "str", "binary": "bin", "bool": "bool", "file": "str"}[n])
  schema = pa.schema([("s", pa.struct([("a", pa.int64())])),
                      ("a", SCALARS[n1]()), ("b", SCALARS[n2]())])
  pks = w.choose("pks", [["a"], ["a", "b"], ["b", "a"]])
  vals = [[mk(n1, f"a{i}"), mk(n2, f"b{i}")] for i in range(2)]
  both(w, schema, pks, [], rows_for(
      w, schema, {"s": lambda i: {"a": i}, "a": lambda i: vals[i // 10][0],
                  "b": lambda i: vals[i // 10][1]}))


def records(w):
  """Features as record fields; their definition is persisted too."""
  n = w.choose("n", [1, 3])
  kinds = [w.choose(f"r{i}", ["features", "binary"]) for i in range(2)]
  ty = {"features": lambda: features(n), "binary": pa.binary}
  fields = [("k", pa.string()), ("r", ty[kinds[0]]()), ("q", ty[kinds[1]]()),
            ("l", pa.list_(pa.struct([("r", pa.int64()),
                                      ("q", pa.string())])))]
  order = w.choose("order", [[0, 1, 2, 3], [1, 3, 0, 2], [3, 2, 1, 0]])
  schema = pa.schema([fields[i] for i in order])
  recs = w.choose("recs", [["r", "q"], ["q", "r"]])
  ks = [w.str_("k0"), w.str_("k1")]
  both(w, schema, ["k"], recs, rows_for(
      w, schema, {"k": lambda i: ks[i // 10], "r": lambda i: b"r%d" % i,
                  "q": lambda i: b"q%d" % i,
                  "l": lambda i: [{"r": i, "q": "x"}]}))


def files(w):
  """Directories of File fields, anywhere in the schema."""
  d = [w.choose(f"d{i}", ["", "x", "/abs/y", "é \" %"]) for i in range(2)]
  schema = pa.schema([
      ("f", File(d[0])), ("s", pa.struct([("f", File(d[1])),
                                          ("k", pa.int64())])),
      ("k", pa.int64()), ("l", pa.list_(File(d[0])))
  ])
  ks = [w.int("k0"), w.int("k1")]
  both(w, schema, w.choose("pks", [["k"], ["f"], ["k", "f"]]), [], rows_for(
      w, schema, {"f": lambda i: f"f{i}", "k": lambda i: ks[i // 10],
                  "s": lambda i: {"f": "x", "k": i},
                  "l": lambda i: [f"l{i}"]}))
  ld = Dataset.load(w.base + "/d1").schema
  w.check(ld.field("f").type.full_path("n") == os.path.join(d[0], "n"),
          "full path of a file")
  w.check(ld.field("s").type.field(0).type.full_path("n") == os.path.join(
      d[1], "n"), "full path of a nested file")


SCENARIOS = [
    ("nested", nested),
    ("two", two),
    ("keys", keys),
    ("records", records),
    ("files", files),
]
