"""Thread pools of the code under test.

The executor follows one thread, so a task runs to its end when it is
submitted; the order in which tasks complete is an input of the path (as
submitted, or reversed).  Data races between tasks are outside the model.
"""
from __future__ import annotations
import concurrent.futures as cf
import concurrent.futures.thread
import multiprocessing.pool as mpp

WORLD = [None]
_REVERSED = [None]  # decided once on a path


def reset(world):
  WORLD[0] = world
  _REVERSED[0] = None


def _completion(items):
  items = list(items)
  if len(items) > 1 and WORLD[0] is not None:
    if _REVERSED[0] is None:
      _REVERSED[0] = WORLD[0].flag("tasks complete in reverse")
    if _REVERSED[0]:
      items.reverse()
  return items


class SequentialExecutor(cf.Executor):

  def __init__(self, max_workers=None, thread_name_prefix="", initializer=None,
               initargs=(), **_):
    if max_workers is not None and max_workers <= 0:
      raise ValueError("max_workers must be greater than 0")
    self._closed = False
    if initializer is not None:
      initializer(*initargs)

  def submit(self, fn, /, *args, **kwargs):
    if self._closed:
      raise RuntimeError("cannot schedule new futures after shutdown")
    f = cf.Future()
    f.set_running_or_notify_cancel()
    try:
      f.set_result(fn(*args, **kwargs))
    except Exception as e:  # pylint: disable=broad-except
      f.set_exception(e)
    return f

  def shutdown(self, wait=True, *, cancel_futures=False):
    self._closed = True


class SequentialPool:

  def __init__(self, processes=None, initializer=None, initargs=()):
    if initializer is not None:
      initializer(*initargs)

  def apply(self, func, args=(), kwds=None):
    return func(*args, **(kwds or {}))

  def map(self, func, iterable, chunksize=None):
    return [func(x) for x in iterable]

  def starmap(self, func, iterable, chunksize=None):
    return [func(*x) for x in iterable]

  def imap(self, func, iterable, chunksize=1):
    return iter(self.map(func, iterable))

  def imap_unordered(self, func, iterable, chunksize=1):
    return iter(_completion(self.map(func, iterable)))

  def apply_async(self, func, args=(), kwds=None, callback=None,
                  error_callback=None):
    r = _Result(func, args, kwds or {})
    if r.error is None and callback is not None:
      callback(r.value)
    if r.error is not None and error_callback is not None:
      error_callback(r.error)
    return r

  def map_async(self, func, iterable, chunksize=None, callback=None,
                error_callback=None):
    return self.apply_async(self.map, (func, iterable), None, callback,
                            error_callback)

  def close(self):
    pass

  terminate = join = close

  def __enter__(self):
    return self

  def __exit__(self, *_):
    return False


class _Result:

  def __init__(self, func, args, kwds):
    self.value = self.error = None
    try:
      self.value = func(*args, **kwds)
    except Exception as e:  # pylint: disable=broad-except
      self.error = e

  def get(self, timeout=None):
    if self.error is not None:
      raise self.error
    return self.value

  def wait(self, timeout=None):
    pass

  def ready(self):
    return True

  def successful(self):
    return self.error is None


def install():
  real = cf.as_completed

  def as_completed(fs, timeout=None):
    return real_or_model(fs, timeout)

  def real_or_model(fs, timeout):
    fs = list(dict.fromkeys(fs))
    if all(f.done() for f in fs):
      return iter(_completion(fs))
    return real(fs, timeout)

  cf.as_completed = as_completed
  cf.ThreadPoolExecutor = SequentialExecutor
  concurrent.futures.thread.ThreadPoolExecutor = SequentialExecutor
  mpp.ThreadPool = SequentialPool
