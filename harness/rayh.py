"""Histories through the Ray runner, on the sequential stand-in of Ray."""
from harness.hist import *  # pylint: disable=wildcard-import,unused-wildcard-import

from space.ray.options import RayOptions

RAY_ASSUMPTIONS = [
    "Ray is not installed: a stand-in (symx/raystub.py) runs remote tasks and"
    " actor calls one after another on copies of their arguments; failures of"
    " Ray itself, and tasks of one operation really running at once, are not"
    " explored (each writes only files with unique names)",
]

REC = Spec([("k", "int"), ("r", "bin"), ("v", "int"), ("rid", "int")], ["k"],
           ["r"])
FIX = {"v": lambda i: i, "r": lambda i: b"r%d" % i}


class RayHist(Hist):
  """Operations run by Ray; local=True switches to the local runner."""

  def __init__(self, *a, par=2, ray_options=None, **k):
    super().__init__(*a, **k)
    self.ro = ray_options or RayOptions(max_parallelism=par)
    self.local = False

  def runner(self):
    if self.local:
      return super().runner()
    l = self.layout
    return self.ds.ray(self.ro, LAYOUTS[l] if isinstance(l, str) else l)


def locally(h, fn, *a, **k):
  h.local = True
  try:
    return fn(*a, **k)
  finally:
    h.local = False
