"""Sizes beyond the small scopes: hundreds of rows, dozens of files, commits.

Most cells are concrete; what is decided for all values are the bounds of
filters, one key or one threshold.
"""
from harness.rayh import *  # pylint: disable=wildcard-import,unused-wildcard-import

N = 1056
BOUND = (
    "; and a larger history (over 1000 rows, or dozens of files, or a dozen"
    " commits) of concrete cells with one symbolic key or filter bound")
BIG = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
           ["r"])
# Keys are spread over the files, so that files overlap.
LFIX = {"k": lambda i: i * 7 % N, "v": lambda i: i % 5,
        "r": lambda i: b"r%d" % i}


def filled(w, spec=KV, per=24, n=N, layout="files", fixed=None, appends=2,
           **k):
  """n rows in chunks of `per`, by a few appends."""
  h = k.pop("cls", Hist)(w, spec, layout=layout, fixed=fixed or LFIX, **k)
  per_append = n // appends
  for _ in range(appends):
    sizes = [per] * (per_append // per)
    if per_append % per:
      sizes.append(per_append % per)
    h.append(*sizes)
  return h


def cut(w, name="cut", at=120, width=4):
  """A bound anywhere in a small range."""
  return w.int(name, at, at + width)


def deletes(w):
  """Deletes over hundreds of rows in a dozen files."""
  h = filled(w, layout=w.choose("layout", ["files", "groups"]))
  a = cut(w)
  h.delete(Cmp(Fld("k"), ">=", a) & Cmp(Fld("k"), "<", 250))
  h.judge("read after a delete")
  h.delete(Cmp(Fld("v"), "==", w.choose("v", [0, 4])))
  h.judge("read after two deletes")
  return h


def upserts(w):
  """An upsert of dozens of keys, and an insert of as many."""
  h = filled(w)
  x = cut(w, at=N - 2)
  rows = [h.mk.one(k=3 * i, v=100) for i in range(40)] + [h.mk.one(k=x, v=100)]
  h.upsert(rows)
  h.judge("read after an upsert")
  y = cut(w, "new", at=N + 38)
  rows = [h.mk.one(k=N + i, v=200) for i in range(10, 40)]
  rows.insert(20, h.mk.one(k=y, v=200))
  h.insert(rows)
  h.judge("read after an insert")
  return h


def filters(w, read=None):
  """Filtered reads over two dozen files."""
  h = filled(w, per=11, appends=3)
  a = cut(w)
  cond = w.choose("form", [0, 1, 2])
  cond = [
      Cmp(Fld("k"), ">=", a), Cmp(Fld("k"), "==", a),
      Cmp(Fld("k"), "<", a) & Cmp(Fld("v"), "!=", 2)
  ][cond]
  yes, _ = split(h.rows, cond)
  got = (read or read_rows)(h.ds, filter_=cond.expr())
  same(w, got, yes, "filtered read")


def appended(w, cls=Hist, **k):
  """Hundreds of rows in one table or many; with record files."""
  rec = w.choose("rec", [None, 100])
  lay = w.choose("layout", [options(None, None, rec), options(2000, 4000, rec),
                            options(0, 0, rec)])
  h = cls(w, BIG, layout=lay, fixed={**LFIX}, **k)
  i = w.int("odd", 0, 3)
  rows = h.new(N)
  rows[130]["k"] = i
  h.append_rows(rows)
  h.judge("read")
  if w.flag("more"):
    h.append_rows(h.new(37))
    h.judge("read")
  return h


def commits(w, n=12, spec=KV, cls=Hist, **k):
  """A long line of commits, with a tag on each."""
  h = cls(w, spec, layout="files", fixed=LFIX, distinct=False, **k)
  tags = {}
  for i in range(n):
    if i % 4 == 3:
      h.delete(Cmp(Fld("k"), "<", 7 * i if i != n - 1 else cut(w, at=30,
                                                               width=20)))
    else:
      h.append(2)
    h.ds.add_tag(f"t{i}")
    tags[f"t{i}"] = list(h.rows)
  return h, tags
