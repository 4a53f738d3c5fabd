"""C28: serializers transform only their own fields, value by value."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import

from array_record.python import array_record_module as ar
import tensorflow_datasets as tfds
from tensorflow_datasets import features as tf_f

from space.core.random_access import RandomAccessDataSource
from space.core.schema.types import TfFeatures
from space.core.serializers import DictSerializer, FieldSerializer

BOUNDS = (
    "dicts of up to 4 fields, every subset of them with a serializer, lists of 0"
    " to 3 symbolic values (the same value twice included); datasets with up to"
    " 2 TfFeatures record fields next to plain fields, in any order, created and"
    " loaded, values through append, upsert, reads and random access")
ASSUMPTIONS = [
    "TensorFlow's own codec (FeaturesDict.serialize_example and"
    " deserialize_example) is replaced by an invertible one that differs between"
    " features and is computed on the symbolic value; NULL values are outside",
]
BASE = 1


def encode(v, off):
  if isinstance(v, E.Sym):
    return E.SymStr((v + off).t, "bytes")
  return E.str_of(v + off).encode()


def decode(b, off):
  if isinstance(b, E.SymStr):
    return E.SymInt(b.t) - off
  return E.atom_of(b) - off


class Codec(tf_f.FeaturesDict):
  """A features dict whose codec shifts a value by its own offset."""

  def __init__(self, off):
    super().__init__({"x": tf_f.Scalar(dtype=np.int64)})
    self.off = off

  def to_json(self):
    return {"codec": self.off}

  def serialize_example(self, example_data):
    return encode(example_data["x"], self.off)

  def deserialize_example(self, serialized_example, **_):
    return {"x": decode(serialized_example, self.off)}


_from_json = tf_f.FeaturesDict.from_json


def from_json(value):
  return Codec(value["codec"]) if "codec" in value else _from_json(value)


tf_f.FeaturesDict.from_json = staticmethod(from_json)
tfds.as_numpy = lambda x: x


class Shift(FieldSerializer):
  """A serializer that is not an Arrow type."""

  def __init__(self, off):
    self.off = off

  def serialize(self, value):
    return encode(value["x"], self.off)

  def deserialize(self, value_bytes):
    return {"x": decode(value_bytes, self.off)}


NAMES = ["a", "b", "c", "d"]


def values_equal(a, b):
  if isinstance(a, dict) or isinstance(b, dict):
    return (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and
            L.And([values_equal(a[k], b[k]) for k in a]))
  if isinstance(a, list) or isinstance(b, list):
    return (isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and
            L.And([values_equal(x, y) for x, y in zip(a, b)]))
  return L.Eq(a, b)


def equal(w, got, want, what):
  w.check(list(sorted(got)) == list(sorted(want)), f"{what}: fields",
          f"{what}: fields")
  for n in want:
    w.check(values_equal(list(got[n]), list(want[n])),
            f"{what}: values of {n}", f"{what}: wrong values")


def dicts(w):
  """A dict of columns and any assignment of serializers to them."""
  n = w.choose("fields", [1, 2, 3, 4])
  names = NAMES[:n]
  if w.flag("reversed"):
    names = names[::-1]
  size = w.choose("size", [0, 1, 2, 3])
  with_ser = [f for f in names if w.flag("ser " + f)]
  extra = w.flag("serializer of another field")
  sers = {f: Shift(BASE * (i + 1)) for i, f in enumerate(with_ser)}
  if extra:
    sers["zz"] = Shift(BASE * 9)
  d = {}
  for f in names:
    vals = [w.int(f"{f}{i}", 0, 9) for i in range(size)]
    d[f] = [{"x": v} for v in vals] if f in with_ser else vals
  before = {f: list(v) for f, v in d.items()}
  s = DictSerializer(dict(sers))
  out = s.serialize(d)
  equal(w, d, before, "input after serialize")
  want = {
      f: [encode(v["x"], sers[f].off) for v in before[f]]
         if f in with_ser else before[f] for f in names
  }
  equal(w, out, want, "serialize")
  back = s.deserialize(out)
  equal(w, out, want, "input after deserialize")
  equal(w, back, before, "deserialize")
  part = names[:1]
  equal(w, s.serialize({f: before[f] for f in part}),
        {f: want[f] for f in part}, "serialize of some fields")
  for f in NAMES + ["zz", "no"]:
    w.check(s.field_serializer(f) is sers.get(f), "field_serializer of " + f,
            "field_serializer")


def fields_of(w):
  """Fields of a dataset: which are TfFeatures and in which order."""
  layout = w.choose("layout", [
      ["k", "f", "v", "rid"],
      ["f", "rid", "g", "k", "v"],
      ["g", "r", "k", "f", "rid"],
      ["k", "rid", "r", "v"],
  ])
  kinds = {"k": pa.int64(), "v": pa.int64(), "rid": pa.int64(),
           "r": pa.binary()}
  kinds["f"] = TfFeatures(Codec(BASE))
  kinds["g"] = TfFeatures(Codec(2 * BASE))
  schema = pa.schema([(n, kinds[n]) for n in layout])
  records = [n for n in layout if n in "fgr"]
  return layout, schema, records


def make(w, layout, i):
  row = {"k": i, "v": 10 * i, "rid": 100 + i, "r": b"r%d" % i}
  for n in "fg":
    row[n] = {"x": w.int(f"{n}{i}", 0, 9)}
  return {n: row[n] for n in layout}


def columns(rows, names):
  return {n: [r[n] for r in rows] for n in names}


def deserialized(ds, **k):
  t = ds.local().read_all(**k)
  return ds.storage.serializer().deserialize(t.to_pydict())


def back(w, ds, rows, names, what, **k):
  got = deserialized(ds, **k)
  order = sorted(range(len(got["rid"])), key=lambda i: got["rid"][i])
  got = {n: [got[n][i] for i in order] for n in got}
  want = sorted(rows, key=lambda r: r["rid"])
  equal(w, got, columns(want, names), what)


def dataset(w):
  """Serialized values through a dataset."""
  layout, schema, records = fields_of(w)
  ds = Dataset.create(w.dir("d"), schema, ["k"], records)
  if w.flag("loaded"):
    ds = Dataset.load(w.dir("d"))
  rows = [make(w, layout, i) for i in range(w.choose("n", [1, 2, 3]))]
  opts = w.choose("files", [LAYOUTS["one"], options(0, 0, 0)])
  s = ds.storage.serializer()
  data = columns(rows, layout)
  out = s.serialize(data)
  equal(w, data, columns(rows, layout), "input after serialize")
  for n in layout:
    if n in ("f", "g"):
      off = BASE if n == "f" else 2 * BASE
      w.check(
          L.And([
              L.Eq(a, encode(r[n]["x"], off)) for a, r in zip(out[n], rows)
          ]), "serialized values of " + n, "serialize: wrong values")
    else:
      w.check(out[n] == [r[n] for r in rows], "plain values of " + n,
              "serialize: plain values changed")
  ok(w, ds.local(opts).append(out), "append")
  back(w, ds, rows, layout, "read")
  more = [make(w, layout, len(rows)), make(w, layout, len(rows) + 1)]
  if w.flag("upsert"):
    more[0]["k"] = 0
    ok(w, ds.local(opts).upsert(s.serialize(columns(more, layout))), "upsert")
    rows = rows[1:] + more
  else:
    ok(w, ds.local(opts).append(s.serialize(columns(more, layout))), "append")
    rows = rows + more
  back(w, ds, rows, layout, "read of the handle")
  back(w, Dataset.load(w.dir("d")), rows, layout, "read of a loaded dataset")
  names = ["rid"] + [n for n in layout if n in "fg"][:1]
  back(w, ds, rows, names, "read of some fields", fields=names)


def random_access(w):
  """Elements of random access, deserialized."""
  layout, schema, records = fields_of(w)
  ds = Dataset.create(w.dir("d"), schema, ["k"], records)
  rows = [make(w, layout, i) for i in range(w.choose("n", [2, 3]))]
  opts = w.choose("files", [LAYOUTS["one"], options(0, 0, 0)])
  s = ds.storage.serializer()
  ok(w, ds.local(opts).append(s.serialize(columns(rows, layout))), "append")
  if w.flag("delete"):
    ok(w, ds.local().delete(pc.field("k") == 0), "delete")
    rows = rows[1:]
  feats = [n for n in layout if n in "fg"]
  if not feats:
    w.check(
        w.raises(
            errors.UserInputError, lambda: RandomAccessDataSource(
                {"r": ds.storage}, deserialize=True, use_array_record_data_source=
                False)), "deserialize of a field without a serializer")
    return
  names = feats[:w.choose("fields", [1, len(feats)])]
  ard = w.flag("array record source")
  if ard and len(names) > 1:
    names = names[:1]
  raw = w.flag("raw")
  src = RandomAccessDataSource({n: ds.storage for n in names},
                               deserialize=not raw,
                               use_array_record_data_source=ard)
  w.check(len(src) == len(rows), "length")
  if len(src) != len(rows):
    return

  def want(i, n):
    v = rows[i][n]
    return encode(v["x"], BASE if n == "f" else 2 * BASE) if raw else v

  n = names[0]
  single = len(names) == 1

  def part(x, f):
    return x if single else x[f]

  its = list(src)
  idx = list(range(len(rows)))
  for f in names:
    got = [part(x, f) for x in its]
    if not ard:
      w.check(
          L.And([values_equal(g, want(i, f)) for i, g in enumerate(got)]),
          "elements of " + f, "elements")
    else:
      # Record files come in any order: the elements are a permutation.
      import itertools
      w.check(
          L.Or([
              L.And([
                  values_equal(got[i], want(p, f)) for i, p in enumerate(perm)
              ]) for perm in itertools.permutations(idx)
          ]), "elements of " + f, "elements")
    w.check(
        L.And([values_equal(part(src[i], f), got[i]) for i in idx]),
        "elements by index", "elements by index")
    lst = src[idx[::-1]]
    lst = list(lst) if single else list(lst[f])
    w.check(values_equal(lst, got[::-1]), "elements by a list",
            "elements by a list")


def load(w):
  """append_array_record hands deserialized records to the index function."""
  feat = w.flag("features")
  schema = pa.schema([("k", pa.int64()), ("f", TfFeatures(Codec(BASE)) if feat
                                          else pa.binary()),
                      ("rid", pa.int64())])
  ds = Dataset.create(w.dir("d"), schema, ["k"], ["f"])
  d = w.dir("ext")
  os.makedirs(d)
  vals = [{"x": w.int(f"x{i}", 0, 9)} for i in range(3)]
  for name, part in (("a", vals[:2]), ("b", vals[2:])):
    x = ar.ArrayRecordWriter(os.path.join(d, name), options="group_size:1")
    for v in part:
      x.write(encode(v["x"], BASE))
    x.close()
  seen = []

  def index(rec):
    w.check(list(rec) == ["f"] and len(rec["f"]) == 1, "argument of index_fn")
    seen.append(rec["f"][0])
    return {"k": rec["f"][0]["x"] if feat else 7, "rid": 100 + len(seen)}

  ok(w, ds.local().append_array_record(d + "/*", index), "load")
  rows = read_rows(ds)
  w.check(len(rows) == 3 and len(seen) == 3, "rows")
  for r in rows:
    v = seen[r["rid"] - 101]
    if feat:
      w.check(L.Eq(r["k"], v["x"]), "index field")
      w.check(values_equal(decode(r["f"], BASE), v["x"]), "record of the row")
    else:
      w.check(L.Eq(r["f"], v), "record of the row")
  got = [decode(r["f"], BASE) for r in rows]
  w.check(
      multiset_eq([{"x": g} for g in got], vals, ["x"]), "records of the files")


SCENARIOS = [
    ("load", load),
    ("dicts", dicts),
    ("dataset", dataset),
    ("random_access", random_access),
]
