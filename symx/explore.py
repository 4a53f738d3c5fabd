"""Exploration of all paths of a set of scenarios over a pool of processes."""
from __future__ import annotations
import multiprocessing.connection as mpc
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import deque

from symx import engine, run_path

SLICE = 0.4
PATH_SECONDS = 25


def _alarm(*_):
  raise engine.PathLimit("path time limit")


def scratch_root():
  for d in ("/dev/shm", tempfile.gettempdir()):
    if os.path.isdir(d) and os.access(d, os.W_OK):
      return d
  return tempfile.gettempdir()


class _Monitor:
  """Records which functions of the code under test ran."""

  def __init__(self, src):
    self.src = src
    self.seen = set()
    mon = sys.monitoring
    self.id = 4
    try:
      mon.use_tool_id(self.id, "symx")
    except ValueError:
      return
    mon.register_callback(self.id, mon.events.PY_START, self._cb)
    mon.set_events(self.id, mon.events.PY_START)

  def _cb(self, code, _off):
    if code.co_filename.startswith(self.src) and not code.co_name.startswith(
        "<"):
      self.seen.add((code.co_filename[len(self.src) + 1:], code.co_qualname))
    return sys.monitoring.DISABLE


def _worker(conn, scenarios, tier, idx, root, src, sample_every):
  signal.signal(signal.SIGINT, signal.SIG_IGN)
  signal.signal(signal.SIGALRM, _alarm)
  mon = _Monitor(src)
  base = os.path.join(root, f"w{idx}")
  n = 0
  while True:
    try:
      msg = conn.recv()
    except EOFError:
      break
    if msg is None:
      break
    si, prefixes = msg
    name, fn = scenarios[si]
    stack = list(prefixes)
    out = []
    t0 = time.monotonic()
    while stack and time.monotonic() - t0 < SLICE:
      pre = stack.pop()
      n += 1
      signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS)
      try:
        r = run_path.run_symbolic(fn, pre, base, tier, n % sample_every == 1)
      finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
      stack.extend(r.pop("alts"))
      out.append(r)
    funcs = list(mon.seen)
    mon.seen.clear()
    try:
      conn.send((si, out, stack, funcs))
    except Exception:  # pylint: disable=broad-except
      traceback.print_exc()
      break
  shutil.rmtree(base, ignore_errors=True)
  os._exit(0)


class ScenarioState:

  def __init__(self, name):
    self.name = name
    self.queue = deque([[]])
    self.busy = 0
    self.paths = 0
    self.feasible = 0
    self.dead = 0
    self.rng = random.Random(1)
    self.decisions = 0
    self.queries = 0
    self.solver_s = 0.0
    self.unknown = 0
    self.checks = 0
    self.cover = {}
    self.concretized = {}
    self.underapprox = 0
    self.inconclusive = {}
    self.failures = {}  # (msg, sig) -> list of failure dicts
    self.fail_count = {}
    self.samples = []
    self.pending = []  # inconclusive path models to run concretely

  @property
  def done(self):
    return not self.queue and not self.busy

  def absorb(self, r, keep):
    self.paths += 1
    st = r["status"]
    if st == "dead":
      self.dead += 1
    else:
      self.feasible += 1
    self.decisions += r["decisions"]
    self.queries += r["queries"]
    self.solver_s += r["solver_s"]
    self.unknown += r["unknown"]
    self.checks += r["checks"]
    for c in r["cover"]:
      self.cover[c] = self.cover.get(c, 0) + 1
    if r["concretized"]:
      self.underapprox += 1
      for c in r["concretized"]:
        self.concretized[c] = self.concretized.get(c, 0) + 1
    if st in ("limit", "unmodelled"):
      self.inconclusive[r["detail"]] = self.inconclusive.get(r["detail"], 0) + 1
      if r["sample"] and len(self.pending) < 40:
        self.pending.append(r["sample"])
    for f in r["failures"]:
      k = (f["msg"], f["sig"])
      self.fail_count[k] = self.fail_count.get(k, 0) + 1
      l = self.failures.setdefault(k, [])
      # The first ones, and some drawn from all others.
      if len(l) < keep + 6:
        l.append(f)
      else:
        i = self.rng.randrange(self.fail_count[k])
        if keep <= i < keep + 6:
          l[i] = f
    if st == "ok" and r["sample"] and not r["failures"]:
      if len(self.samples) < 400:
        self.samples.append(r["sample"])


def explore(scenarios, tier, deadline, src, workers=None, keep=3,
            sample_every=9, stop=None):
  """scenarios: [(name, fn)].  Returns (states, functions, finished).

  stop(failure) ends the exploration early.
  """
  workers = workers or min(8, os.cpu_count() or 4)
  root = tempfile.mkdtemp(prefix="symx-", dir=scratch_root())
  states = [ScenarioState(n) for n, _ in scenarios]
  funcs = set()
  procs = []
  try:
    for i in range(workers):
      a, b = mpc.Pipe()
      pid = os.fork()
      if pid == 0:
        try:
          a.close()
          for pr in procs:
            pr[1].close()
          _worker(b, scenarios, tier, i, root, src, sample_every)
        except BaseException:  # pylint: disable=broad-except
          traceback.print_exc()
        os._exit(1)
      b.close()
      procs.append((pid, a))
    idle = [c for _, c in procs]
    conns = [c for _, c in procs]
    rr = 0
    while True:
      now = time.monotonic()
      if now < deadline:
        while idle:
          order = [(rr + k) % len(states) for k in range(len(states))]
          pick = None
          # Scenarios with the fewest paths run first.
          cand = [s for s in order if states[s].queue]
          if cand:
            pick = min(cand, key=lambda s: (states[s].busy * 50 + states[s].paths))
          if pick is None:
            break
          rr = pick + 1
          st = states[pick]
          batch = []
          take = 1 if len(st.queue) < 16 else min(8, len(st.queue) // 8)
          for _ in range(max(1, take)):
            batch.append(st.queue.popleft())
          st.busy += 1
          idle.pop().send((pick, batch))
      if len(idle) == len(conns):
        break
      ready = mpc.wait([c for c in conns if c not in idle], timeout=1.0)
      for c in ready:
        try:
          si, out, left, fs = c.recv()
        except (EOFError, ConnectionResetError):
          conns.remove(c)
          raise RuntimeError("a worker died")
        st = states[si]
        st.busy -= 1
        for r in out:
          st.absorb(r, keep)
          if stop and any(stop(f) for f in r["failures"]):
            deadline = 0
        st.queue.extend(left)
        funcs.update(fs)
        idle.append(c)
      if deadline and time.monotonic() > deadline + 60:
        break
  finally:
    for pid, c in procs:
      try:
        c.send(None)
      except Exception:  # pylint: disable=broad-except
        pass
      c.close()
    t = time.monotonic()
    for pid, _ in procs:
      while True:
        r, _st = os.waitpid(pid, os.WNOHANG)
        if r:
          break
        if time.monotonic() - t > 3:
          os.kill(pid, signal.SIGKILL)
          os.waitpid(pid, 0)
          break
        time.sleep(0.01)
    shutil.rmtree(root, ignore_errors=True)
  return states, funcs, all(s.done for s in states)
