"""Install the environment model (or its concrete counterpart) and import the
code under test from /repo."""
from __future__ import annotations
import os
import sys
import time
import uuid

REPO = os.environ.get("SPACE_REPO", "/repo")
SRC = os.path.join(REPO, "python", "src")
Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_UUID = [0]
_CLOCK = [1_700_000_000]


def _uuid4():
  _UUID[0] += 1
  # The leading group is what random_id() returns: keep it distinct.
  return uuid.UUID(int=(_UUID[0] << 96) | (0x4 << 76) | (0x8 << 60) | 0xABC)


def reset_path_state():
  _UUID[0] = 0
  _CLOCK[0] = 1_700_000_000


def _patch_common():
  uuid.uuid4 = _uuid4
  from google.protobuf.internal import well_known_types as wkt

  def now(self):
    _CLOCK[0] += 1
    self.seconds = _CLOCK[0]
    self.nanos = 0

  wkt.Timestamp.GetCurrentTime = now
  from absl import logging
  logging.set_verbosity(logging.FATAL)


def _preimport():
  """Libraries that must see the real pyarrow."""
  # pylint: disable=unused-import,import-outside-toplevel
  import numpy
  import pandas
  import pyarrow
  import pyarrow.compute
  import pyarrow.dataset
  import pyarrow.fs
  import pyarrow.parquet
  import pyarrow.substrait
  import google.protobuf.text_format
  from array_record.python import array_record_module
  from array_record.python import array_record_data_source
  import tensorflow_datasets
  from tensorflow_datasets.core.utils import shard_utils
  from tensorflow_datasets.core import features
  import substrait.algebra_pb2
  pyarrow.array([1]).sort()  # the library keeps the module it imports here


def install(symbolic: bool) -> None:
  sys.dont_write_bytecode = True
  os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
  if SRC not in sys.path:
    sys.path.insert(0, SRC)
  _preimport()
  _patch_common()
  import pyarrow as rpa
  import pyarrow.parquet as rpq
  from array_record.python import array_record_module as rar
  from array_record.python import array_record_data_source as ards
  from symx import stepfs
  fsm = stepfs.make_fs_module()
  stepfs.patch_os()
  if symbolic:
    from symx import fakeio
    pa = fakeio.make_pa_module(fsm)
    pq = fakeio.make_pq_module()
    pc = fakeio.make_pc_module()
    ps = fakeio.make_ps_module()
    ar = fakeio.make_ar_module()
    pa.parquet, pa.compute, pa.substrait = pq, pc, ps
    sys.modules["pyarrow"] = pa
    sys.modules["pyarrow.parquet"] = pq
    sys.modules["pyarrow.compute"] = pc
    sys.modules["pyarrow.substrait"] = ps
    sys.modules["pyarrow.fs"] = fsm
    sys.modules["array_record.python.array_record_module"] = ar
    sys.modules["array_record.python"].array_record_module = ar
    ards.array_record_module = ar
  else:
    sys.modules["pyarrow.fs"] = fsm
    rpa.fs = fsm
    stepfs.step_writers_concrete(rpq, rar)
  # The data source's thread pool runs its tasks in order, in both modes (the
  # executor follows one thread).
  def seq(function, list_of_kwargs_to_function, num_workers):
    if num_workers < 1:
      raise ValueError("num_workers must be >=1 for parallelism.")
    return [function(**k) for k in list_of_kwargs_to_function]

  ards._run_in_parallel = seq  # pylint: disable=protected-access
  from symx import futures, raystub
  futures.install()
  raystub.install()
