"""C02: delete removes exactly the rows matching the filter."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
from harness import large

BOUNDS = (
    "3 to 5 rows over up to 3 files, row groups and manifests, up to 3 deletes;"
    " filters as in C04 over keys and values incl. NULL cells; int64, string,"
    " float64, bool and composite keys; record fields, struct and list columns")
ASSUMPTIONS = ["a row matches iff the filter is true for it (NULL: kept)"]
ALL_OPS = ["==", "!=", "<", "<=", ">", ">="]


def settle(w, h, what="read after delete"):
  got = read_rows(h.ds)
  w.observe("rows", by_rid(got))
  same(w, got, h.rows, what)
  same(w, read_rows(reopen(h.ds)), h.rows, what + " by a fresh load")


def delete(w, h, cond):
  n, before = len(h.rows), h.head()
  r = h.delete(cond)
  w.cover({0: "nothing"}.get(n - len(h.rows), "all" if not h.rows else "some"))
  w.check((h.head() == before) == (len(h.rows) == n),
          "a delete commits iff a row matches")
  if r.state == OK:
    w.check(r.storage_statistics_update.num_rows == len(h.rows) - n,
            "reported deleted rows")
  return r


COVER = ("nothing", "some", "all")


def key_cmp(w):
  h = Hist(w, KV, layout=w.choose("layout", ["one", "groups", "files"]))
  h.append(2, 1)
  delete(w, h, Cmp(Fld("k"), w.choose("op", ALL_OPS), w.int("c")))
  settle(w, h)


def value_cmp(w):
  h = Hist(w, KV, layout=w.choose("layout", ["groups", "files"]),
           nullable=["v"], fixed={"k": lambda i: 10 - i})
  h.append(2, 1)
  op, c = w.choose("op", ALL_OPS), w.int("c")
  delete(w, h, Cmp(Fld("v"), op, c) if w.flag("left") else Cmp(c, op, Fld("v")))
  settle(w, h)


def manifests(w):
  """Rows over several manifests with several files each."""
  h = Hist(w, KV, layout="files")
  h.append(1, 1)
  h.append(1, 1)
  delete(w, h, Cmp(Fld("k"), w.choose("op", ["==", "<", ">="]), w.int("c")))
  settle(w, h)


def repeated(w):
  h = Hist(w, KV, layout="files", fixed={"v": lambda i: i})
  h.append(2, 1)
  for i in range(2):
    delete(w, h, Cmp(Fld("k"), w.choose("op", ["==", "<", ">"]), w.int("c")))
  if w.flag("more"):
    h.append(1)
    delete(w, h, Cmp(Fld("v"), ">=", 3))
  settle(w, h)


def logic(w):
  h = Hist(w, KV, layout="files")
  h.append(2, 1)
  a = Cmp(Fld("k"), w.choose("op", ["==", "<"]), w.int("c"))
  b = Cmp(Fld(w.choose("f2", ["k", "v"])), w.choose("op2", ["!=", ">"]),
          w.int("d"))
  delete(w, h, Bin(w.choose("conn", ["and", "or"]), a, b))
  settle(w, h)


def null_logic(w):
  """NULL operands in AND and OR; IS NULL; IN."""
  h = Hist(w, KV, layout="files", nullable=["v"])
  h.append(2, 1)
  a = Cmp(Fld("k"), "<", w.int("c"))
  b = Cmp(Fld("v"), "==", w.int("d"))
  cond = {
      "and": lambda: a & b,
      "or": lambda: b | a,
      "isnull": lambda: IsNull("v"),
      "isin": lambda: IsIn("k", [3, 7]),
      "notnull": lambda: Neg(IsNull("v")),
      "notv": lambda: Neg(b),
  }[w.choose("shape", ["and", "or", "isnull", "isin", "notnull", "notv"])]()
  delete(w, h, cond)
  settle(w, h)


def null_keys(w):
  h = Hist(w, KV, layout=w.choose("layout", ["one", "files"]),
           nullable=["k"], fixed={"v": lambda i: i})
  h.append(2, 1)
  delete(w, h, Cmp(Fld("k"), w.choose("op", ALL_OPS), w.int("c")))
  settle(w, h)


REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("s", "bin"),
            ("rid", "int")], ["k"], ["s", "r"])


def records(w):
  h = Hist(w, REC, layout=w.choose("layout", ["one", "groups", "files"]),
           fixed={
               "r": lambda i: b"r%d" % i,
               "s": lambda i: b"s%d" % (7 * i),
               "v": lambda i: i
           })
  h.append(2, 1)
  delete(w, h, Cmp(Fld("k"), w.choose("op", ["==", "<", ">="]), w.int("c")))
  settle(w, h)
  h.append(1)
  delete(w, h, Cmp(Fld("k"), ">", w.int("e")))
  settle(w, h)


KINDS = {}


def odd_keys(w):
  kind = w.choose("kind", list(ODD))
  spec = Spec([("v", "int"), ("k", kind), ("rid", "int")], ["k"])
  h = Hist(w, spec, layout="files", fixed={"v": lambda i: i})
  mk = h.mk
  for i in range(0, len(ODD[kind]), 3):
    h.append_rows([mk.one(k=k) for k in ODD[kind][i:i + 3]])
  delete(w, h, Cmp(Fld("k"), w.choose("op", ["==", "<", ">="]),
                   cell(w, "any c", kind) if w.flag("any") else
                   w.choose("c", ODD[kind])))
  settle(w, h)


def kinds(w):
  kind = w.choose("kind", [
      "int32", "float", "float32", "str", "bin", "bool"])
  spec = Spec([("v", "int"), ("k", kind), ("rid", "int")], ["k"])
  h = Hist(w, spec, layout="files", fixed={"v": lambda i: i})
  h.append(2, 1)
  op = w.choose("op", ALL_OPS if kind != "bool" else ["==", "!="])
  delete(w, h, Cmp(Fld("k"), op, cell(w, "c", kind)))
  settle(w, h)


WIDE = Spec([("s", "x"), ("l", "x"), ("a", "int"), ("v", "int"), ("b", "int"),
             ("rid", "int")], ["b", "a"],
            schema=pa.schema([
                ("s", pa.struct([("x", pa.int64()), ("y", pa.string())])),
                ("l", pa.list_(pa.int64())), ("a", pa.int64()),
                ("v", pa.int64()), ("b", pa.int64()), ("rid", pa.int64())
            ]))


def composite(w):
  h = Hist(w, WIDE, layout="files", fixed={
      "s": lambda i: {"x": i, "y": None if i == 1 else str(i)},
      "l": lambda i: None if i == 2 else list(range(i)),
      "v": lambda i: i
  })
  h.append(2, 1)
  a = Cmp(Fld("a"), w.choose("op", ["==", "<="]), w.int("c"))
  b = Cmp(Fld("b"), w.choose("op2", ["!=", ">"]),
          Fld("a") if w.flag("field") else w.int("d"))
  delete(w, h, Bin(w.choose("conn", ["and", "or"]), a, b))
  settle(w, h)


def after_upsert(w):
  h = Hist(w, KV, layout=w.choose("layout", ["one", "files"]),
           fixed={"v": lambda i: i})
  h.append(2, 1)
  h.upsert(h.mk.many(1))
  delete(w, h, Cmp(Fld("k"), w.choose("op", ["==", "<"]), w.int("c")))
  settle(w, h)


def empty(w):
  """Deleting from an empty dataset, or everything twice."""
  h = Hist(w, KV)
  c = w.int("c")
  delete(w, h, Cmp(Fld("k"), "<", c))
  settle(w, h)
  h.append(1, 1)
  delete(w, h, Cmp(Fld("rid"), ">", 0))
  settle(w, h)
  delete(w, h, Cmp(Fld("k"), "<", c))
  settle(w, h)
  h.append(1)
  settle(w, h)


def on_branch(w):
  """A delete works on the current branch's rows only."""
  h = Hist(w, KV, layout="files", fixed={"v": lambda i: i})
  h.append(1, 1)
  main = list(h.rows)
  h.ds.add_branch("b")
  h.ds.set_current_branch("b")
  h.append(1)
  delete(w, h, Cmp(Fld("k"), w.choose("op", ["==", "<"]), w.int("c")))
  same(w, read_rows(h.ds), h.rows, "branch after delete")
  h.ds.set_current_branch("main")
  same(w, read_rows(h.ds), main, "main after a delete on a branch")


def big_file(w):
  """One file with several row groups, survivors in each."""
  h = Hist(w, KV, layout=options(w.int("rg", 0, 200), w.int("fl", 0, 300)),
           fixed={"v": lambda i: i, "k": lambda i: 10 * i})
  h.append(2, 2, 2)
  delete(w, h, w.choose("cond", [0, 1, 2]) and Cmp(
      Fld("k"), ">", w.int("c", 0, 60)) or Cmp(Fld("k"), "==", w.int(
          "c", 0, 60)))
  settle(w, h)


def big(w):
  """Hundreds of rows in a dozen files."""
  large.deletes(w)


BOUNDS += large.BOUND
SCENARIOS = [
    ("key_cmp", key_cmp, ("quick", "thorough"), COVER),
    ("value_cmp", value_cmp, ("quick", "thorough"), COVER),
    ("manifests", manifests, ("quick", "thorough"), COVER),
    ("repeated", repeated, ("quick", "thorough"), COVER),
    ("logic", logic),
    ("null_logic", null_logic),
    ("null_keys", null_keys),
    ("records", records),
    ("kinds", kinds),
    ("odd_keys", odd_keys),
    ("composite", composite),
    ("after_upsert", after_upsert),
    ("empty", empty),
    ("on_branch", on_branch),
    ("big_file", big_file),
    ("big", big),
]
