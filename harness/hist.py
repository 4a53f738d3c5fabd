"""Histories of operations with a reference state, and storage inspection."""
from harness.common import *  # pylint: disable=wildcard-import,unused-wildcard-import


class Hist:
  """Runs operations on a dataset and keeps the rows it must hold."""

  def __init__(self, w, spec, location=None, layout="one", ds=None, lo=-40,
               hi=40, fixed=(), nullable=(), distinct=False, unique=False):
    self.w, self.spec, self.layout = w, spec, layout
    self.ds = ds or spec.create(location or w.dir())
    self.mk = Rows(w, spec, fixed=fixed, nullable=nullable, lo=lo, hi=hi)
    self.rows = []
    self.distinct = distinct
    self.unique = unique
    self.results = []
    self.pending = []
    # snapshot ID -> rows; and per commit (ID, deleted rows, added rows).
    self.snaps = {self.head(): []}
    self.deltas = []

  def head(self):
    s = self.ds.storage
    return s.snapshot().snapshot_id

  def runner(self):
    l = self.layout
    return self.ds.local(LAYOUTS[l] if isinstance(l, str) else l)

  def new(self, n, **given):
    rs = self.mk.many(n, **given)
    if self.distinct:
      # Rows already made for the same operation count, too.
      self.w.distinct([
          tuple(r[k] for k in self.spec.pks)
          for r in self.rows + self.pending + rs
      ])
    return rs

  def _done(self, r, deleted, added):
    self.results.append(r)
    if r.state == OK:
      h = self.head()
      self.snaps[h] = list(self.rows)
      self.deltas.append((h, deleted, added))
    return r

  def append(self, *sizes, **given):
    """One append of chunks of the given sizes."""
    chunks = []
    for n in sizes:
      chunks.append(self.new(n, **given))
      self.pending = [r for c in chunks for r in c]
    self.pending = []
    rows = [r for c in chunks for r in c]
    r = self.runner().append_from(
        lambda: iter([self.spec.table(c) for c in chunks]))
    ok(self.w, r, "append", (OK,) if rows else (SKIPPED,))
    self.rows = self.rows + rows
    return self._done(r, [], rows)

  def append_rows(self, rows):
    r = self.runner().append(self.spec.table(rows))
    ok(self.w, r, "append", (OK,) if rows else (SKIPPED,))
    self.rows = self.rows + rows
    return self._done(r, [], rows)

  def delete(self, cond):
    yes, no = split(self.rows, cond)
    r = self.runner().delete(cond.expr())
    ok(self.w, r, "delete", (OK,) if yes else (SKIPPED,))
    self.rows = no
    return self._done(r, yes, [])

  def key_eq(self, a, b):
    return L.And([L.Eq(a[k], b[k]) for k in self.spec.pks])

  def upsert(self, rows):
    """rows must have distinct keys."""
    gone, keep = [], []
    for r in self.rows:
      hit = bool(L.Or([self.key_eq(r, n) for n in rows]))
      (gone if hit else keep).append(r)
    r = self.runner().upsert(self.spec.table(rows))
    ok(self.w, r, "upsert", (OK,) if rows else (SKIPPED,))
    self.rows = keep + list(rows)
    return self._done(r, gone, list(rows))

  def insert(self, rows):
    dup = bool(
        L.Or([self.key_eq(r, n) for n in rows for r in self.rows] + [
            self.key_eq(a, b) for i, a in enumerate(rows) for b in rows[:i]
        ]))
    r = self.runner().insert(self.spec.table(rows))
    if dup:
      ok(self.w, r, "insert of an existing key", (FAILED,))
    else:
      ok(self.w, r, "insert", (OK,) if rows else (SKIPPED,))
      self.rows = self.rows + list(rows)
    return self._done(r, [], list(rows))

  def step(self, ops, tag=""):
    """One operation of the given kinds, chosen on this path."""
    w = self.w
    op = w.choose("op" + tag, ops)
    k = self.spec.pks[0]
    if op == "append":
      self.append(1)
    elif op == "append2":
      self.append(1, 1)
    elif op == "delete":
      self.delete(Cmp(Fld(k), "<", w.int("d" + tag, -40, 40)))
    elif op == "deleq":
      self.delete(Cmp(Fld(k), "==", w.int("d" + tag, -40, 40)))
    elif op == "delv":
      self.delete(Cmp(Fld("v"), "<", w.int("d" + tag, -40, 40)))
    elif op == "upsert":
      self.upsert(self.mk.many(1))
    elif op == "upsert2":
      rs = self.mk.many(2)
      w.distinct([tuple(r[k] for k in self.spec.pks) for r in rs])
      self.upsert(rs)
    elif op == "insert":
      self.insert(self.mk.many(1))
    elif op == "branch":
      raise AssertionError
    else:
      raise AssertionError(op)
    return op

  def judge(self, what="read", ds=None):
    got = read_rows(ds or self.ds)
    same(self.w, got, self.rows, what)
    return got


# -- inspection of the stored files ---------------------------------------------
def p(location, *parts):
  return os.path.join(location, *parts)


def manifest_rows(ds, snapshot_id=None):
  """[(manifest file, [row dict])] of a snapshot."""
  s = ds.storage.snapshot(snapshot_id)
  return [(f, pq.read_table(p(ds.storage.location, f)).to_pylist())
          for f in s.manifest_files.index_manifest_files]


def record_manifest_rows(ds, snapshot_id=None):
  s = ds.storage.snapshot(snapshot_id)
  return [(f, pq.read_table(p(ds.storage.location, f)).to_pylist())
          for f in s.manifest_files.record_manifest_files]


def index_entries(ds, snapshot_id=None):
  return [r for _, rows in manifest_rows(ds, snapshot_id) for r in rows]


def index_file(ds, path):
  return pq.read_table(p(ds.storage.location, path))


def field_id_of(ds, name):
  """Field ID of a top level field, from the stored schema."""
  f = ds.storage.physical_schema.field(name)
  return int(f.metadata[b"PARQUET:field_id"])


def live_files(ds):
  """Full paths of all files reachable from the metadata of a dataset."""
  st = ds.storage
  out = set()
  for sid in st.snapshot_ids:
    s = st.snapshot(sid)
    if s.change_log_file:
      out.add(s.change_log_file)
    for f, rows in manifest_rows(ds, sid):
      out.add(f)
      out.update(r["_FILE"] for r in rows)
    for f, rows in record_manifest_rows(ds, sid):
      out.add(f)
      out.update(r["_FILE"] for r in rows)
  return {p(st.location, f) for f in out}


def digest(path):
  with open(path, "rb") as f:
    return f.read()
