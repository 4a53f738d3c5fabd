"""C14: a dataset can be moved."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import
import shutil

BOUNDS = (
    "15 location shapes before and after the move (absolute, relative, nested,"
    " trailing separators, dots, parent references, from another working"
    " directory); histories of up to 3 operations before and 2 after; rename and"
    " copy; with and without record fields; 15 unusual names of the location"
    " and the working directory as the location")
BUDGET = {"quick": 120, "thorough": 600}
ASSUMPTIONS = [
    "external files given to append_parquet / append_array_record stay where"
    " they are: they are referenced in place and are not part of the move",
    "the working directory does not change while a handle on a relative"
    " location is in use",
    "a relative location does not start with '~' or look like a URI (a:b):"
    " Arrow's path handling gives these another meaning in some calls",
]
FIX = {"v": lambda i: i, "r": lambda i: b"r%d" % i}
REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
           ["r"])

# Shapes of the path of directory `name` below the base directory; the process
# is in <base>/cwd.
SHAPES = {
    "abs": lambda b, n: f"{b}/cwd/{n}",
    "abs/": lambda b, n: f"{b}/cwd/{n}/",
    "abs//": lambda b, n: f"{b}//cwd/{n}//",
    "abs/.": lambda b, n: f"{b}/cwd/./{n}/.",
    "abs/..": lambda b, n: f"{b}/cwd/x/../{n}",
    "rel": lambda b, n: n,
    "rel/": lambda b, n: n + "/",
    "rel//": lambda b, n: n + "//",
    "./rel": lambda b, n: "./" + n,
    "./rel/": lambda b, n: f"./{n}/",
    "x/../rel": lambda b, n: f"x/../{n}",
    "../cwd/rel": lambda b, n: f"../cwd/{n}",
    "nested": lambda b, n: f"x/y/{n}",
    "abs nested/": lambda b, n: f"{b}/cwd/x/y/{n}/",
    "parent": lambda b, n: f"../{n}",
}


class Cwd:

  def __init__(self, w):
    self.base = w.dir("root")
    os.makedirs(self.base + "/cwd/x/y")

  def __enter__(self):
    self.old = os.getcwd()
    os.chdir(self.base + "/cwd")
    return self

  def __exit__(self, *a):
    os.chdir(self.old)
    return False


def tree(path):
  out = {}
  for d, _, fs in os.walk(path):
    for f in fs:
      out[os.path.join(d, f)] = digest(os.path.join(d, f))
  return out


def judge(w, h, ds, what):
  w.check(sorted(ds.storage.snapshot_ids) == sorted(h.snaps),
          f"{what}: snapshots")
  for sid, rows in h.snaps.items():
    same(w, read_rows(ds, version=sid), rows, f"{what}: snapshot")
  same(w, read_rows(ds), h.rows, f"{what}: read")
  n = 0
  for i, (sid, gone, new) in enumerate(h.deltas):
    cs = list(ds.local().diff(sid - 1, sid))
    n += len(cs)
    got = [r for c in cs if c.type_.name == "ADD" for r in c.data.to_pylist()]
    w.check(set(x["rid"] for x in new) <= set(x["rid"] for x in got),
            f"{what}: change feed", f"{what}: change feed")
    del i, gone


def run(w, spec, layout, before, after, shapes, names=("one", "two")):
  with Cwd(w) as c:
    s1, s2 = w.choose("before", shapes), w.choose("after", shapes)
    p1, p2 = SHAPES[s1](c.base, names[0]), SHAPES[s2](c.base, names[1])
    f1, f2 = os.path.realpath(p1), os.path.realpath(p2)
    h = Hist(w, spec, location=p1, layout=layout, fixed=FIX)
    h.append(1, 1)
    for i, ops in enumerate(before):
      h.step(ops, f"b{i}")
    h.ds.add_tag("t")
    judge(w, h, h.ds, "before the move")
    how = w.choose("how", ["move", "copy"])
    if how == "move":
      os.rename(f1, f2)
    else:
      shutil.copytree(f1, f2)
      kept = tree(f1)
    h.ds = Dataset.load(p2)
    judge(w, h, h.ds, "after the move")
    if how == "copy":
      # Nothing may come from the old location.
      hide = f1 + ".hidden"
      os.rename(f1, hide)
      judge(w, h, h.ds, "after the copy")
      os.rename(hide, f1)
    for i, ops in enumerate(after):
      h.step(ops, f"a{i}")
    h.ds.add_branch("new")
    judge(w, h, h.ds, "operations after the move")
    judge(w, h, Dataset.load(f2), "fresh load")
    if how == "copy":
      w.check(tree(f1) == kept, "the old location was changed")
      same(w, read_rows(Dataset.load(f1)), h.snaps[max(h0(kept, h))],
           "content at the old location")
    else:
      w.check(not os.path.exists(f1), "the old location was created again")
    # Everything the dataset wrote is below its location.
    extra = [
        f for f in tree(c.base)
        if not f.startswith(f2 + "/") and not f.startswith(f1 + "/")
    ]
    w.check(not extra, f"files outside the location: {extra[:2]}",
            "files outside the location")


def h0(kept, h):
  """Snapshots at the old location."""
  n = sum(1 for f in kept if os.path.basename(f).startswith("change_"))
  return sorted(h.snaps)[:n + 1]


def shapes(w):
  run(w, KV, "one", [], [["append"]], list(SHAPES))


# Names that occur in the paths a dataset writes, or need care in paths.
NAMES = ["data", "metadata", "m", "a b", "\u00e4", "[x]", "*", "%41", "x#y",
         "..x", "...", "-r", "a.tmp", "x.parquet", "x" * 200]


def names(w):
  """Names of the location."""
  n = w.choose("name", range(len(NAMES)))
  run(w, REC, "one", [["delete", "upsert"][:1]], [["append", "upsert"][1:]],
      ["rel", "abs"], names=(NAMES[n], NAMES[(n + 1) % len(NAMES)]))


def here(w):
  """The location is the working directory."""
  with Cwd(w) as c:
    loc = w.choose("loc", [".", "./", "./.", "../cwd", "x/.."])
    h = Hist(w, REC, location=loc, layout="files", fixed=FIX)
    h.append(1, 1)
    h.step(["delete", "upsert"], "b")
    judge(w, h, h.ds, "in the working directory")
    judge(w, h, Dataset.load(c.base + "/cwd"), "by its absolute path")
    shutil.copytree(c.base + "/cwd", c.base + "/copy")
    os.rename(c.base + "/cwd", c.base + "/gone")
    os.mkdir(c.base + "/cwd")
    h.ds = Dataset.load(c.base + "/copy")
    h.step(["append", "upsert"], "a")
    judge(w, h, h.ds, "after the copy")


def operations(w):
  deep = w.tier == "thorough"
  run(w, KV, "files", [["append", "delete", "upsert"][0 if deep else 1:]],
      [["append2", "delete", "upsert", "insert"][0 if deep else 1:]],
      ["abs//", "rel/", "x/../rel"] + (["abs"] if deep else []))


def records(w):
  run(w, REC, w.choose("layout", ["one", options(0, 0, 0)]),
      [["delete", "upsert"]], [["append", "delete", "upsert"]],
      ["abs/", "../cwd/rel"] + (["rel"] if w.tier == "thorough" else []))


def again(w):
  """Several moves, handles opened before and after."""
  with Cwd(w) as c:
    h = Hist(w, REC, location="d0", layout="files", fixed=FIX)
    h.append(1, 1)
    cur = "d0"
    for i in range(3 if w.tier == "thorough" else 2):
      to = w.choose(f"to{i}", ["x/d", "d/", f"{c.base}/d"])
      to = to.rstrip("/") + str(i) + ("/" if to.endswith("/") else "")
      os.rename(cur.rstrip("/"), to.rstrip("/"))
      cur = to
      h.ds = Dataset.load(cur)
      h.step(["append", "delete", "upsert"] if i else ["delete", "upsert"],
             str(i))
    judge(w, h, Dataset.load(os.path.realpath(cur)), "after three moves")


SCENARIOS = [
    ("shapes", shapes),
    ("operations", operations),
    ("records", records),
    ("again", again),
    ("names", names),
    ("here", here),
]
