"""C30: a catalog lists and opens exactly what was created in it."""
from harness.mv import *  # pylint: disable=wildcard-import,unused-wildcard-import

from space import DirCatalog

BOUNDS = (
    "histories of up to 4 creations (datasets of several shapes, materialized"
    " views of map and filter, refused creations) over 4 names with unrelated"
    " files and directories in the catalog folder, before and after; symbolic"
    " rows; two handles of the catalog; absolute and relative locations")
ASSUMPTIONS = RAY_ASSUMPTIONS + [
    "names are plain file names (no separators)",
    "the catalog folder exists when it is listed",
    "a folder whose entry point is a folder itself must not be listed; how"
    " opening it fails is not looked at",
]
SHAPES = {
    "kv": KV,
    "rec": REC,
    "two": Spec([("a", "str"), ("k", "int"), ("v", "int"), ("rid", "int")],
                ["k", "a"]),
}
NAMES = ["a", "b", "a.b", "metadata"]


def junk(w, loc, tag):
  """Things in the folder that are no storages."""
  kind = w.choose("junk" + tag, [
      "none", "file", "empty", "dir", "metadata", "entry dir", "deeper"])
  if kind == "none":
    return []
  os.makedirs(loc, exist_ok=True)
  n = f"junk{tag}"
  j = os.path.join(loc, n)
  if kind == "file":
    with open(j, "wb") as f:
      f.write(b"x")
  elif kind == "empty":
    os.makedirs(j)
  elif kind == "dir":
    os.makedirs(j + "/data")
    with open(j + "/entrypoint", "wb") as f:
      f.write(b"x")
  elif kind == "metadata":
    os.makedirs(j + "/metadata")
    with open(j + "/metadata/other", "wb") as f:
      f.write(b"x")
  elif kind == "entry dir":
    os.makedirs(j + "/metadata/entrypoint.txtpb")
    return []
  elif kind == "deeper":
    KV.create(j + "/inner")
  return [n]


class Cat:
  """A catalog and what was created in it."""

  def __init__(self, w, loc=None):
    self.w = w
    self.loc = loc or w.dir("cat")
    self.cat = DirCatalog(self.loc)
    self.made = {}

  def create(self, name, shape):
    w, spec = self.w, SHAPES[shape]
    make = lambda: self.cat.create_dataset(name, spec.schema, spec.pks, spec.
                                           records)
    if name in self.made:
      w.check(w.raises(errors.StorageExistError, make),
              "creating an existing name")
      return
    ds = make()
    w.check(isinstance(ds, Dataset), "kind of the created dataset")
    h = Hist(w, spec, ds=ds, distinct=True, fixed=FIX, lo=-9, hi=9)
    h.append(1)
    self.made[name] = ("ds", h, None, None)

  def materialize(self, name, of, steps):
    w = self.w
    h = self.made[of][1]
    view = build(h.ds, steps)
    make = lambda: self.cat.materialize(name, view)
    if name in self.made:
      w.check(w.raises(errors.StorageExistError, make),
              "materializing to an existing name")
      return
    mv = make()
    w.check(isinstance(mv, MaterializedView), "kind of the materialized view")
    mv.ray().refresh()
    self.made[name] = ("mv", h, steps, meaning(h.rows, steps))

  def judge(self, unknown=(), cat=None):
    w = self.w
    cat = cat or self.cat
    infos = cat.datasets()
    got = sorted((i.name, os.path.normpath(i.location)) for i in infos)
    want = sorted((n, os.path.normpath(os.path.join(self.loc, n)))
                  for n in self.made)
    w.check(got == want, f"listed {got}, expected {want}", "listing")
    for i in infos:
      w.check(os.path.isdir(i.location), "location of a listed dataset")
    for n, (kind, h, steps, rows) in self.made.items():
      x = cat.dataset(n)
      if kind == "ds":
        w.check(isinstance(x, Dataset) and not isinstance(x, MaterializedView),
                f"kind of {n}", "kind")
        same(w, read_rows(x), h.rows, "content of a dataset")
        w.check(x.schema.names == h.spec.names, "schema of a dataset")
        w.check(list(x.primary_keys) == h.spec.pks, "keys of a dataset")
        w.check(list(x.record_fields) == h.spec.records, "record fields")
        loc = x.storage.location
      else:
        w.check(isinstance(x, MaterializedView), f"kind of {n}", "kind")
        same(w, rows_of(x.local().read_all()), rows,
             "content of a materialized view")
        same(w, ray_rows(x.view.ray()), meaning(h.rows, steps), "its view")
        loc = x.storage.location
      w.check(os.path.normpath(loc) == os.path.normpath(
          os.path.join(self.loc, n)), "location of an opened dataset")
    for n in list(unknown) + ["nothing"]:
      if n not in self.made:
        w.check(
            w.raises(errors.StorageNotFoundError, lambda n=n: cat.dataset(n)),
            f"opening {n}", "opening an unknown name")


def creations(w):
  c = Cat(w)
  unknown = junk(w, c.loc, "1")
  c.create(w.choose("n1", NAMES), w.choose("s1", list(SHAPES)))
  c.create(w.choose("n2", NAMES), w.choose("s2", ["kv", "rec"]))
  if w.flag("third"):
    c.create(w.choose("n3", ["a", "b"]), "kv")
  c.judge(unknown + NAMES, DirCatalog(c.loc) if w.flag("other") else None)


def views(w):
  c = Cat(w)
  c.create("a", "kv")
  n = w.choose("n", ["b", "a", "m"])
  steps = w.choose("t", [[add_v(1)], [keep_v("<", 0)], [keep_v("<", 0),
                                                        add_v(2)]])
  if w.flag("before"):
    c.create("b", "kv")
  c.materialize(n, w.choose("of", sorted(c.made)), steps)
  unknown = junk(w, c.loc, "1")
  if w.flag("again"):
    c.materialize("m", "a", [add_v(w.int("n", -9, 9))])
  c.judge(unknown + NAMES)
  c.judge(cat=DirCatalog(c.loc))


def junk_around(w):
  """Unrelated entries before and after a creation; nothing at all."""
  c = Cat(w)
  unknown = junk(w, c.loc, "1")
  made = w.flag("made")
  if made:
    c.create("a", "kv")
  os.makedirs(c.loc, exist_ok=True)
  unknown += junk(w, c.loc, "2")
  c.judge(unknown)
  # A directory of another storage's files becomes one when created there.
  n = w.choose("name", ["b"] + [
      u for u in unknown if os.path.isdir(os.path.join(c.loc, u)) and
      not os.path.exists(os.path.join(c.loc, u, "metadata"))
  ])
  c.create(n, "kv")
  c.judge(unknown)


def use(w):
  """What is opened is the same storage: changes are seen by others."""
  c = Cat(w)
  c.create("a", "kv")
  c.create("b", "rec")
  n = w.choose("n", ["a", "b"])
  _, h, _, _ = c.made[n]
  old = c.cat.dataset(n)
  h.ds = c.cat.dataset(n)
  h.step(["append", "delete", "upsert"])
  same(w, read_rows(old), h.rows, "earlier opened handle")
  c.judge()
  c.judge(cat=DirCatalog(c.loc))
  h.ds.add_tag("t")
  w.check(
      c.cat.dataset(n).storage.lookup_reference("t").snapshot_id == h.head(),
      "tag through the catalog")


def relative(w):
  """Relative locations, trailing separators."""
  cwd = os.getcwd()
  base = w.dir("base")
  os.makedirs(base)
  os.chdir(base)
  try:
    c = Cat(w, w.choose("loc", ["cat", "./cat", "cat/", "x/../cat", ".",
                                base + "/cat/"]))
    if c.loc.startswith("x"):
      os.makedirs("x")
    c.create("a", "kv")
    c.create("b", "rec")
    if w.flag("view"):
      c.materialize("m", "a", [add_v(1)])
    c.judge(["x"])
  finally:
    os.chdir(cwd)


def folders(w):
  """Names with a folder in them are names of their own."""
  c = Cat(w)
  names = ["a", "x/a", "x/b", "x/y/a", "a/b"]
  first = w.choose("first", names)
  second = w.choose("second", [n for n in names if n != first])
  made = {}
  for n in (first, second):
    os.makedirs(os.path.join(c.loc, os.path.dirname(n)), exist_ok=True)
    spec = SHAPES["kv"]
    ds = c.cat.create_dataset(n, spec.schema, spec.pks, spec.records)
    made[n] = Hist(w, spec, ds=ds, fixed=FIX, lo=-9, hi=9)
    made[n].append(1)
  for n, h in made.items():
    x = c.cat.dataset(n)
    same(w, read_rows(x), h.rows, "content of a dataset in a folder")
    w.check(
        os.path.normpath(x.storage.location) == os.path.normpath(
            os.path.join(c.loc, n)), "location of a dataset in a folder")
  for n in names:
    if n not in made:
      w.check(
          w.raises(errors.StorageNotFoundError, lambda n=n: c.cat.dataset(n)),
          f"opening {n}", "opening an unknown name")
  listed = [i.name for i in c.cat.datasets()]
  w.check([n for n in listed if "/" not in n] == [n for n in made
                                                   if "/" not in n],
          f"listed {listed}", "listing")


SCENARIOS = [
    ("folders", folders),
    ("creations", creations),
    ("views", views),
    ("junk_around", junk_around),
    ("use", use),
    ("relative", relative),
]
