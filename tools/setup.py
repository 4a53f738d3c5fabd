"""Checks that the tools the checks need are present (nothing to build)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.call([
    "/opt/venv/bin/python", "-c",
    "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/"
    "site-packages'); import z3, pyarrow, array_record, pyroaring;"
    "print('z3', z3.get_version_string(), 'pyarrow', pyarrow.__version__)"
]))
