"""Run one scenario once, in either mode."""
from __future__ import annotations
import signal
import traceback

from symx import engine as E
from symx import fakeio, fakepa, futures, install, raystub, stepfs
from symx.world import ConcreteDead, World, canon, evaluate


def _reset(base):
  install.reset_path_state()
  fakeio.reset_files()
  fakepa.reset_placeholders()
  fakeio.STEP_HOOK[0] = None
  stepfs.SCRATCH[0] = base


def _tb(e):
  tb = traceback.extract_tb(e.__traceback__)
  return [f"{f.filename}:{f.lineno} {f.name}" for f in tb[-6:]]


def run_symbolic(fn, prefix, base, tier, want_sample):
  """Execute fn along prefix; explore nothing else."""
  p = E.Path(prefix)
  E.set_cur(p)
  _reset(base)
  w = World(base, None, p, tier)
  futures.reset(w)
  status, detail = "ok", None
  try:
    fn(w)
  except E.PathDead:
    status = "dead"
  except E.PathLimit as e:
    status, detail = "limit", str(e)
  except E.Unmodelled as e:
    status, detail = "unmodelled", str(e) + " @ " + " < ".join(_tb(e)[-3:])
  except (RecursionError, raystub.StubUnmodelled) as e:
    status, detail = "unmodelled", repr(e)
  except Exception as e:  # pylint: disable=broad-except
    status = "exception"
    detail = f"{type(e).__name__}: {e}"[:300]
    try:
      w._fail(f"unexpected {type(e).__name__}", f"exc:{type(e).__name__}",
              p.get_model())
      w.failures[-1]["trace"] = _tb(e)
      w.failures[-1]["detail"] = detail
    except E.Steer:
      pass
  finally:
    fakeio.STEP_HOOK[0] = None
  r = {
      "status": status,
      "detail": detail,
      "decisions": len(p.decisions),
      "alts": p.alternatives,
      "queries": p.queries,
      "solver_s": p.solver_s,
      "unknown": p.unknown,
      "checks": w.checks,
      "failures": w.failures,
      "cover": sorted(set(w.covered)),
      "concretized": sorted(set(p.concretized)),
      "sample": None,
  }
  if want_sample or status in ("limit", "unmodelled"):
    try:
      m = p.get_model()
      r["sample"] = {
          "values": p.values(m),
          "obs": canon(evaluate(w.observations, m)) if status == "ok" else None,
          "expect_fail": bool(w.failures),
      }
    except E.Steer:
      pass
  E.set_cur(None)
  return r


class Hang(BaseException):
  """The real code used up the processor time of one replay."""


HANG_CPU_S = 25.0  # a replay takes a fraction of a second


def _on_timer(signum, frame):
  raise Hang()


def run_concrete(fn, values, base, tier):
  signal.signal(signal.SIGPROF, _on_timer)
  signal.setitimer(signal.ITIMER_PROF, HANG_CPU_S, 1.0)
  try:
    return _run_concrete(fn, values, base, tier)
  finally:
    signal.setitimer(signal.ITIMER_PROF, 0)


def _run_concrete(fn, values, base, tier):
  _reset(base)
  w = World(base, values, None, tier)
  futures.reset(w)
  status, detail = "ok", None
  try:
    fn(w)
  except ConcreteDead:
    status = "dead"
  except raystub.StubUnmodelled as e:
    status, detail = "unmodelled", str(e)
  except Hang as e:
    status = "exception"
    detail = f"still running after {HANG_CPU_S:.0f} s of processor time"
    w._fail("does not terminate", "hang", None)
    w.failures[-1]["trace"] = _tb(e)
    w.failures[-1]["detail"] = detail
  except Exception as e:  # pylint: disable=broad-except
    status = "exception"
    detail = f"{type(e).__name__}: {e}"[:500]
    w._fail(f"unexpected {type(e).__name__}", f"exc:{type(e).__name__}", None)
    w.failures[-1]["trace"] = _tb(e)
    w.failures[-1]["detail"] = detail
  finally:
    fakeio.STEP_HOOK[0] = None
  return {
      "status": status,
      "detail": detail,
      "failures": w.failures,
      "checks": w.checks,
      "obs": canon(w.observations),
      "values": w.used,
  }
