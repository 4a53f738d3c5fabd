"""C18: create never overwrites and rejects invalid schemas."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import

from space.core.schema.types import File, TfFeatures
from space.core.storage import Storage

BOUNDS = (
    "3 fields of every combination of 10 types, every list of up to 2 primary"
    " keys and 2 record fields over the 3 fields and a missing name; existing"
    " dataset with a history of up to 2 operations, 6 ways of naming its"
    " location, created again as dataset or materialized view")
ASSUMPTIONS = [
    "two creations at the same time are not explored (the existence check is"
    " documented as not atomic)"
]
FIX = {"v": lambda i: i}


def features():
  from tensorflow_datasets import features as f
  import numpy as np
  return TfFeatures(f.FeaturesDict({"x": f.Scalar(dtype=np.int64)}))


TYPES_ = {
    "int64": (lambda: pa.int64(), True, False),
    "string": (lambda: pa.string(), True, False),
    "binary": (lambda: pa.binary(), True, True),
    "bool": (lambda: pa.bool_(), True, False),
    "float64": (lambda: pa.float64(), True, False),
    "list": (lambda: pa.list_(pa.int64()), False, False),
    "list of binary": (lambda: pa.list_(pa.binary()), False, False),
    "struct": (lambda: pa.struct([("x", pa.binary())]), False, False),
    "file": (lambda: File("d"), True, False),
    "features": (features, False, True),
}
FEW = ["int64", "binary", "list", "struct", "file", "features"]
LISTS = [[], ["a"], ["b"], ["a", "b"], ["b", "c"], ["z"], ["a", "z"], ["c"]]
RECS = [[], ["b"], ["c"], ["b", "c"], ["z"], ["c", "z"], ["a"]]


def valid(types, pks, recs):
  if not pks:
    return False
  for k in pks:
    if k not in types or not TYPES_[types[k]][1]:
      return False
  for r in recs:
    if r not in types or r in pks or not TYPES_[types[r]][2]:
      return False
  return True


def judge(w, loc, types, pks, recs, create=Dataset.create):
  schema = pa.schema([(n, TYPES_[t][0]()) for n, t in types.items()])
  good = valid(types, pks, recs)
  what = f"create({types}, {pks}, {recs})"
  try:
    ds = create(loc, schema, pks, recs)
  except errors.UserInputError as e:
    w.check(not good, f"{what} refused: {e}", "a valid schema is refused")
    w.check(w.raises((FileNotFoundError, OSError), Dataset.load, loc),
            f"{what} refused but leaves a dataset",
            "a refused creation leaves a dataset")
    return None
  w.check(good, f"{what} accepted", "an invalid schema is accepted")
  for d in (ds, Dataset.load(loc)):
    w.check(list(d.primary_keys) == pks and list(d.record_fields) == recs and
            d.schema.names == list(types), f"{what}: definition",
            "definition of the created dataset")
    w.check(read_rows(d) == [], "a new dataset has rows")
  return ds


def keys(w):
  """Types of primary keys."""
  types = {n: w.choose("t" + n, list(TYPES_)) for n in "ab"}
  types["c"] = "int64"
  judge(w, w.dir(), types, w.choose("pks", LISTS), [])


def records(w):
  types = {"a": "int64"}
  types.update({n: w.choose("t" + n, FEW) for n in "bc"})
  judge(w, w.dir(), types, w.choose("pks", [["a"], ["a", "b"], ["b"], []]),
        w.choose("recs", RECS))


def storage(w):
  """By Storage.create and after a refused attempt at the same place."""
  loc = w.dir()
  types = {"a": w.choose("ta", FEW), "b": w.choose("tb", FEW), "c": "int64"}
  args = w.choose("pks", [["a"], ["b"], ["z"]]), w.choose("recs", RECS[:3])

  def create(l, s, p, r):
    Storage.create(l, s, p, r)
    return Dataset.load(l)

  ds = judge(w, loc, types, *args, create=create)
  if ds is None:
    ds = judge(w, loc, {"a": "int64", "b": "binary"}, ["a"], ["b"])
    w.check(ds is not None, "a valid creation after a refused one")


WAYS = {
    "same": lambda p: p,
    "/": lambda p: p + "/",
    "//": lambda p: p.replace("/", "//"),
    ".": lambda p: p + "/.",
    "..": lambda p: p + "/data/..",
    "relative": os.path.relpath,
}


def double(batch):
  return batch


def again(w):
  """Creating where a dataset exists."""
  h = Hist(w, KV, layout="files", fixed=FIX)
  h.append(1, 1)
  h.ds.add_tag("t")
  h.step(["append", "delete", "upsert"])
  loc = h.ds.storage.location
  before = {f: digest(f) for f in live_files(h.ds)}
  entry = digest(p(loc, "metadata", "entrypoint.txtpb"))
  names = sorted(h.ds.storage.metadata.refs)
  at = WAYS[w.choose("way", list(WAYS))](loc)
  how = w.choose("how", ["same", "other", "storage", "view", "bad"])
  schema, pks, recs = KV.schema, ["k"], []
  if how in ("other", "storage"):
    schema, pks, recs = pa.schema([("x", pa.string()),
                                   ("y", pa.binary())]), ["x"], ["y"]
  if how == "view":
    src = KV.create(w.dir("source"))
    v = src.map_batches(double, KV.schema)
    refused = w.raises(errors.StorageExistError, v.materialize, at)
  elif how == "bad":
    refused = w.raises(errors.UserInputError, Dataset.create, at, schema, [],
                       recs)
  else:
    fn = Storage.create if how == "storage" else Dataset.create
    refused = w.raises(errors.StorageExistError, fn, at, schema, pks, recs)
  w.check(refused, f"creation over an existing dataset ({how}) is not refused",
          "creation over an existing dataset is not refused")
  w.check(digest(p(loc, "metadata", "entrypoint.txtpb")) == entry,
          "the entry point changed")
  w.check({f: digest(f) for f in before} == before, "files changed")
  for ds in (h.ds, Dataset.load(loc)):
    same(w, read_rows(ds), h.rows, "the existing dataset")
    for sid, rows in h.snaps.items():
      same(w, read_rows(ds, version=sid), rows, "the existing snapshots")
    w.check(sorted(ds.storage.metadata.refs) == names, "references")
    w.check(ds.schema.equals(KV.create(w.dir()).schema), "schema")
  h.step(["append"])
  same(w, read_rows(Dataset.load(loc)), h.rows, "a later append")


SCENARIOS = [
    ("keys", keys),
    ("records", records),
    ("storage", storage),
    ("again", again),
]
