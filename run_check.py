#!/opt/venv/bin/python
"""Entry point of every check.

  run_check.py ID [--tier quick|thorough]   decide one property
  run_check.py --replay FILE                re-run a recorded counterexample
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def _reexec():
  env = dict(os.environ)
  if env.get("PYTHONHASHSEED") != "0" or os.path.realpath(
      sys.prefix) != os.path.realpath("/opt/venv"):
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == "__main__":
  _reexec()
  sys.path.insert(0, HERE)
  from symx import driver
  sys.exit(driver.main(sys.argv[1:]))
