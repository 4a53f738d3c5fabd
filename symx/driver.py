"""Runs a check: symbolic exploration, replay on the real libraries, report."""
from __future__ import annotations
import argparse
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "known_findings.txt")


def _paths():
  if Z3_SITE not in sys.path:
    sys.path.append(Z3_SITE)


def load_harness(pid):
  return importlib.import_module(f"harness.{pid.lower()}")


def scenarios_of(mod, tier):
  return [(s[0], s[1]) for s in mod.SCENARIOS
          if tier == "thorough" or len(s) < 3 or "quick" in s[2]]


def known_findings(pid):
  """sig -> description of the recorded findings of a property."""
  out = {}
  if not os.path.exists(FINDINGS):
    return out
  with open(FINDINGS, encoding="utf-8") as f:
    for line in f:
      m = re.match(r"KNOWN-FINDING: property=(\S+) sig=\[(.*?)\] (.*)",
                   line.strip())
      if m and m.group(1) == pid:
        out[m.group(2)] = m.group(3)
  return out


# -- concrete side -------------------------------------------------------------
def concrete_main(pid):
  """Executes jobs read from stdin on the real libraries."""
  _paths()
  from symx import install
  install.install(False)
  from symx import run_path
  from symx.explore import scratch_root
  mod = load_harness(pid)
  req = json.load(sys.stdin)
  table = {s[0]: s[1] for s in mod.SCENARIOS}
  jobs = req["jobs"]
  n = max(1, min(req.get("workers", 6), len(jobs)))
  root = tempfile.mkdtemp(prefix="symxc-", dir=scratch_root())
  pids = []
  stop = time.monotonic() + req["budget"]
  sys.stdout.flush()
  for k in range(n):
    c = os.fork()
    if c == 0:
      out = {}
      try:
        for i in range(k, len(jobs), n):
          if time.monotonic() > stop:
            break
          j = jobs[i]
          out[i] = run_path.run_concrete(table[j["scenario"]], j["values"],
                                         os.path.join(root, f"w{k}"),
                                         req["tier"])
      except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
      with open(os.path.join(root, f"r{k}.json"), "w", encoding="utf-8") as f:
        json.dump(out, f)
      os._exit(0)
    pids.append(c)
  for c in pids:
    os.waitpid(c, 0)
  res = [None] * len(jobs)
  for k in range(n):
    p = os.path.join(root, f"r{k}.json")
    if os.path.exists(p):
      with open(p, encoding="utf-8") as f:
        for i, r in json.load(f).items():
          res[int(i)] = r
  shutil.rmtree(root, ignore_errors=True)
  sys.stdout.write("\n@@RESULT@@" + json.dumps(res) + "\n")
  sys.stdout.flush()
  os._exit(0)


def run_jobs(pid, jobs, tier, budget):
  """Run concrete jobs in a fresh process with the real libraries."""
  if not jobs:
    return []
  env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
  req = json.dumps({"jobs": jobs, "tier": tier, "budget": budget})
  try:
    with subprocess.Popen(
        [PY, os.path.join(HERE, "run_check.py"), "--concrete", pid],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        text=True, env=env, cwd=HERE, start_new_session=True) as p:
      try:
        out, err = p.communicate(req, timeout=budget + 60)
      except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise
    m = out.rsplit("@@RESULT@@", 1)
    if len(m) == 2:
      return json.loads(m[1])
    sys.stderr.write(out[-2000:] + err[-4000:])
  except subprocess.TimeoutExpired:
    pass
  return [None] * len(jobs)


# -- symbolic side -------------------------------------------------------------
BUDGET = {"quick": 45.0, "thorough": 420.0}


def check(pid, tier, seed, verbose=False, only=None, budget=None, workers=None):
  t_start = time.monotonic()
  _paths()
  import z3
  z3.set_param("smt.random_seed", seed % 1000)
  from symx import install
  install.install(True)
  from symx import explore, raystub  # pylint: disable=unused-import
  import_error = None
  mod = None
  try:
    mod = load_harness(pid)
  except Exception as e:  # pylint: disable=broad-except
    import_error = e
    traceback.print_exc()
  if import_error is not None:
    # The code under test cannot even be loaded through the model.
    return _import_failed(pid, tier, seed, t_start, import_error)
  scen = scenarios_of(mod, tier)
  if only:
    scen = [s for s in scen if re.search(only, s[0])]
  budget = budget or getattr(mod, "BUDGET", BUDGET)[tier]
  deadline = t_start + budget
  states, funcs, finished = explore.explore(scen, tier, deadline, install.SRC,
                                            workers=workers)
  t_explored = time.monotonic()

  known = known_findings(pid)
  jobs, meta = [], []
  for st in states:
    for (msg, sig), fs in st.failures.items():
      for f in fs:
        if "values" in f:
          jobs.append({"scenario": st.name, "values": f["values"]})
          meta.append(("cex", st, f))
    for s in st.pending[:12]:
      jobs.append({"scenario": st.name, "values": s["values"]})
      meta.append(("inconclusive", st, s))
  cap = 160 if tier == "quick" else 800
  per = max(3, cap // max(1, len(states)))
  for st in states:
    ss = st.samples
    step = max(1, len(ss) // per)
    for s in ss[::step][:per]:
      jobs.append({"scenario": st.name, "values": s["values"]})
      meta.append(("sample", st, s))
  results = run_jobs(pid, jobs, tier, 60 if tier == "quick" else 180)

  violations = {}  # sig -> record
  found_known = {}
  unreproduced, divergences, validated, notrun = [], [], 0, 0
  samples_out = []
  for j, (kind, st, s), r in zip(jobs, meta, results):
    if r is None:
      notrun += 1
      continue
    if r["failures"]:
      for f in r["failures"]:
        rec = {"property": pid, "scenario": st.name, "tier": tier,
               "values": j["values"], "failure": f, "origin": kind}
        if f["sig"] in known:
          found_known.setdefault(f["sig"], rec)
        else:
          violations.setdefault(f["sig"], rec)
      continue
    if kind == "cex":
      unreproduced.append({"scenario": st.name, "msg": s["msg"],
                           "detail": s.get("detail"), "trace": s.get("trace"),
                           "values": j["values"], "status": r["status"]})
    elif kind == "sample":
      if r["status"] == "dead" or (s["obs"] is not None and
                                   r["obs"] != s["obs"]):
        divergences.append({"scenario": st.name, "values": j["values"],
                            "model": s["obs"], "real": r["obs"],
                            "status": r["status"]})
      else:
        validated += 1
        if len(samples_out) < 6 and (not samples_out or
                                     samples_out[-1]["scenario"] != st.name):
          samples_out.append({"scenario": st.name, "inputs": j["values"],
                              "observed": r["obs"]})
  lines = []
  rdir = os.path.join(EVIDENCE, "replays")
  os.makedirs(rdir, exist_ok=True)
  for i, (sig, rec) in enumerate(sorted(violations.items())[:20]):
    path = os.path.join(rdir, f"{pid}-{i}.json")
    with open(path, "w", encoding="utf-8") as f:
      json.dump(rec, f, indent=1)
    lines.append(f"VIOLATION property={pid} replay={path}")
    lines.append(f"  scenario {rec['scenario']}: {rec['failure']['msg']}"
                 f" {rec['failure'].get('detail', '')}")
  for sig, rec in sorted(found_known.items()):
    lines.append(f"KNOWN-FINDING: property={pid} {known[sig]}")
  missing_cover = []
  for st, (name, _) in zip(states, scen):
    want = next((s[3] for s in mod.SCENARIOS
                 if s[0] == name and len(s) > 3), ())
    for c in want:
      if c not in st.cover:
        missing_cover.append(f"{name}:{c}")
  vac = [st.name for st in states if st.feasible and not st.checks]
  ev = {
      "property": pid,
      "tier": tier,
      "seed": seed,
      "level": "model_checking",
      "coverage": {
          "states": sum(s.paths for s in states),
          "transitions": sum(s.decisions for s in states),
          "traces_validated_against_impl": validated,
          "samples": samples_out or [{"scenario": s.name} for s in states[:1]],
          "exhaustive": bool(finished and not any(
              s.inconclusive or s.unknown for s in states) and
              not any(s.underapprox for s in states)),
          "paths_feasible": sum(s.feasible for s in states),
          "paths_infeasible": sum(s.dead for s in states),
          "assertions_decided": sum(s.checks for s in states),
          "solver_queries": sum(s.queries for s in states),
          "solver_seconds": round(sum(s.solver_s for s in states), 3),
          "solver_unknown": sum(s.unknown for s in states),
          "functions_encoded": sorted(
              f"{a}:{b}" for a, b in funcs),
          "bounds": getattr(mod, "BOUNDS", ""),
          "scenarios": [{
              "name": s.name,
              "paths": s.paths,
              "complete": s.done,
              "assertions": s.checks,
              "queries": s.queries,
              "reached": s.cover,
              "inconclusive": s.inconclusive,
              "underapproximated_paths": s.underapprox,
              "fixed_values": s.concretized,
          } for s in states],
          "not_reached": missing_cover,
          "no_assertion": vac,
          "counterexamples_not_reproduced": unreproduced[:20],
          "model_divergences": divergences[:20],
          "replays_not_run": notrun,
          "explore_seconds": round(t_explored - t_start, 2),
      },
      "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
      "wall_s": round(time.monotonic() - t_start, 2),
      "violations": len(violations),
  }
  _write_evidence(pid, ev)
  for l in lines:
    print(l)
  c = ev["coverage"]
  print(f"{pid} {tier}: {c['paths_feasible']} paths"
        f" ({'complete' if finished else 'time limit'}),"
        f" {c['assertions_decided']} assertions,"
        f" {c['solver_queries']} queries in {c['solver_seconds']} s,"
        f" {validated} paths replayed on the real libraries,"
        f" {len(divergences)} divergences,"
        f" {len(unreproduced)} unreproduced,"
        f" {sum(sum(s.inconclusive.values()) for s in states)} inconclusive,"
        f" {sum(s.underapprox for s in states)} fixed,"
        f" {ev['wall_s']} s")
  if verbose:
    for s in states:
      print(f"  {s.name}: paths={s.paths} dead={s.dead} done={s.done}"
            f" checks={s.checks} q={s.queries} solver={s.solver_s:.1f}"
            f" cover={s.cover} inconc={s.inconclusive}"
            f" fixed={s.concretized} fails={s.fail_count}")
    for d in divergences[:4]:
      print("  DIVERGENCE", json.dumps(d)[:3000])
    for d in unreproduced[:6]:
      print("  UNREPRODUCED", json.dumps(d)[:3000])
    print("  not reached:", missing_cover, "vacuous:", vac, "notrun", notrun)
    for sig, rec in sorted(violations.items()):
      print("  VIOL", json.dumps(rec)[:3000])
  return 1 if violations else 0


COMMON_ASSUMPTIONS = [
    "CPython 3.12 executes the real /repo source; symbolic values are z3 terms"
    " (Python int = mathematical integer, float = exact rational in the stated"
    " grid, string/bytes keys = ordered atoms)",
    "pyarrow arrays/tables/Parquet/ArrayRecord are replaced by a model in the"
    " symbolic run; a sample of paths and every counterexample is re-executed"
    " on the real libraries (traces_validated_against_impl)",
    "uuid4 returns distinct values, the clock advances one second per reading,"
    " the local file system is sequentially consistent",
]


def _import_failed(pid, tier, seed, t_start, e):
  """Loading /repo failed: confirm on the real libraries."""
  r = subprocess.run([PY, os.path.join(HERE, "run_check.py"), "--probe", pid],
                     capture_output=True, text=True, check=False, cwd=HERE)
  if r.returncode == 0:
    print(f"{pid}: the model cannot load the code under test: {e}")
    return 3
  rdir = os.path.join(EVIDENCE, "replays")
  os.makedirs(rdir, exist_ok=True)
  path = os.path.join(rdir, f"{pid}-load.json")
  with open(path, "w", encoding="utf-8") as f:
    json.dump({"property": pid, "load": True, "error": r.stderr[-2000:]}, f)
  _write_evidence(pid, {
      "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
      "coverage": {"states": 0, "transitions": 0,
                   "traces_validated_against_impl": 0,
                   "samples": [{"load_error": str(e)}]},
      "wall_s": round(time.monotonic() - t_start, 2), "violations": 1})
  print(f"VIOLATION property={pid} replay={path}")
  return 1


def _write_evidence(pid, ev):
  os.makedirs(EVIDENCE, exist_ok=True)
  tmp = os.path.join(EVIDENCE, f".{pid}.tmp")
  with open(tmp, "w", encoding="utf-8") as f:
    json.dump(ev, f, indent=1, default=str)
  os.replace(tmp, os.path.join(EVIDENCE, f"{pid}.json"))


def replay(path):
  with open(path, encoding="utf-8") as f:
    rec = json.load(f)
  if rec.get("load"):
    _paths()
    from symx import install
    install.install(False)
    load_harness(rec["property"])
    print("loads")
    return 0
  r = run_jobs(rec["property"], [{"scenario": rec["scenario"],
                                  "values": rec["values"]}], rec["tier"], 120)
  r = r[0]
  print(json.dumps(r, indent=1))
  return 1 if r is None or r["failures"] else 0


def main(argv):
  ap = argparse.ArgumentParser()
  ap.add_argument("id", nargs="?")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--replay")
  ap.add_argument("--concrete")
  ap.add_argument("--probe")
  ap.add_argument("-v", action="store_true")
  ap.add_argument("--only")
  ap.add_argument("--budget", type=float)
  ap.add_argument("--workers", type=int)
  a = ap.parse_args(argv)
  if a.concrete:
    return concrete_main(a.concrete)
  if a.probe:
    _paths()
    from symx import install
    install.install(False)
    load_harness(a.probe)
    return 0
  if a.replay:
    return replay(a.replay)
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  tier = a.tier if a.tier in ("quick", "thorough") else "quick"
  return check(a.id, tier, seed, a.v, a.only, a.budget, a.workers)
