"""The interface scenarios are written against.

The same scenario runs in symbolic mode (inputs are proxies, `check` asks the
solver) and in concrete mode (inputs are values of a model, the libraries are
the real ones).
"""
from __future__ import annotations
import os
import shutil
from typing import Any, Dict, List, Optional

import z3

from symx import engine as E
from symx import logic

INT_LO, INT_HI = -1000, 1000
STR_LO, STR_HI = 0, 2000


class ConcreteDead(BaseException):
  """The concrete values are outside the scenario's assumptions."""


class World:

  def __init__(self, base: str, values: Optional[Dict[str, Any]] = None,
               path: Optional[E.Path] = None, tier: str = "quick"):
    self.symbolic = values is None
    self.values = values or {}
    self.path = path
    self.tier = tier
    self.base = base
    self.failures: List[Dict[str, Any]] = []
    self.observations: List[Any] = []
    self.covered: List[str] = []
    self.checks = 0
    self.fail_limit = 20
    self._names: Dict[str, int] = {}
    self._dirs = 0
    self.used: Dict[str, Any] = {}
    if os.path.isdir(base):
      shutil.rmtree(base)
    os.makedirs(base)

  # -- inputs -----------------------------------------------------------------
  def _name(self, name):
    n = self._names.get(name, 0)
    self._names[name] = n + 1
    return name if n == 0 else f"{name}#{n}"

  def _get(self, name, default):
    v = self.values.get(name, default)
    self.used[name] = v
    return v

  def int(self, name, lo=INT_LO, hi=INT_HI):
    name = self._name(name)
    if not self.symbolic:
      return int(self._get(name, lo))
    t = self.path.input(name, "int", z3.Int(name))
    self.path.assume(z3.And(t >= lo, t <= hi))
    return E.SymInt(t)

  def real(self, name, lo=-500, hi=500):
    """A float with one binary fraction digit (exactly representable)."""
    name = self._name(name)
    if not self.symbolic:
      return int(self._get(name, 2 * lo)) / 2
    t = self.path.input(name, "int", z3.Int(name))
    self.path.assume(z3.And(t >= 2 * lo, t <= 2 * hi))
    return E.SymReal(z3.simplify(z3.ToReal(t) / 2))

  def str_(self, name, lo=STR_LO, hi=STR_HI):
    name = self._name(name)
    if not self.symbolic:
      return E.str_of(int(self._get(name, lo)))
    t = self.path.input(name, "int", z3.Int(name))
    self.path.assume(z3.And(t >= lo, t <= hi))
    return E.SymStr(t, "str")

  def bytes(self, name, lo=STR_LO, hi=STR_HI):
    v = self.str_(name, lo, hi)
    if self.symbolic:
      return E.SymStr(v.t, "bytes")
    return v.encode()

  def bool(self, name):
    """A symbolic truth value (not decided yet)."""
    name = self._name(name)
    if not self.symbolic:
      return bool(self._get(name, False))
    return E.SymBool(self.path.input(name, "bool", z3.Bool(name)))

  def flag(self, name) -> bool:
    """A truth value decided on this path."""
    return bool(self.bool(name))

  def choose(self, name, options):
    """One of a finite list, decided on this path."""
    options = list(options)
    name = self._name(name)
    if not self.symbolic:
      i = int(self._get(name, 0))
      return options[i if 0 <= i < len(options) else 0]
    if len(options) == 1:
      return options[0]
    t = self.path.input(name, "int", z3.Int(name))
    self.path.assume(z3.And(t >= 0, t < len(options)))
    for i in range(len(options) - 1):
      if self.path.branch(t == i):
        return options[i]
    return options[-1]

  def null_or(self, name, v):
    """v, or None on another path."""
    return None if self.flag(name + "?null") else v

  def distinct(self, xs):
    xs = list(xs)
    for i, a in enumerate(xs):
      for b in xs[:i]:
        self.assume(logic.Not(logic.Eq(a, b)))

  # -- judgements -------------------------------------------------------------
  def assume(self, cond):
    if not self.symbolic:
      if not cond:
        raise ConcreteDead()
      return
    self.path.assume(E.bterm(cond))

  def check(self, cond, msg: str, sig: Optional[str] = None) -> None:
    self.checks += 1
    sig = sig or msg
    if not self.symbolic:
      if not cond:
        self._fail(msg, sig, None)
      return
    if not isinstance(cond, E.SymBool):
      if not cond:
        self._fail(msg, sig, self.path.get_model())
      return
    m = self.path.refute(cond.t)
    if m is None:
      return
    self._fail(msg, sig, m)
    if self.path.sat(cond.t) == z3.sat:
      self.path.add(cond.t)

  def _fail(self, msg, sig, model):
    f = {"msg": msg, "sig": sig}
    if model is not None:
      f["values"] = self.path.values(model)
    if len(self.failures) < self.fail_limit:
      self.failures.append(f)

  def observe(self, label, value):
    """Record a value for comparison between the model and the real code."""
    self.observations.append([label, value])

  def cover(self, label):
    self.covered.append(label)

  # -- running operations -----------------------------------------------------
  def raises(self, exc, fn, *a, **k):
    """Whether fn raises exc; another Exception propagates."""
    try:
      fn(*a, **k)
    except exc:
      return True
    return False

  def dir(self, name=None):
    self._dirs += 1
    return os.path.join(self.base, name or f"d{self._dirs}")


def evaluate(v, model):
  """Plain Python value of a (possibly symbolic) value under a model."""
  if isinstance(v, E.SymStr):
    s = E.str_of(model.eval(v.t, model_completion=True).as_long())
    return s.encode() if v.kind == "bytes" else s
  if isinstance(v, E.SymBool):
    return z3.is_true(model.eval(v.t, model_completion=True))
  if isinstance(v, E.SymInt):
    return model.eval(v.t, model_completion=True).as_long()
  if isinstance(v, E.SymReal):
    return float(model.eval(v.t, model_completion=True).as_fraction())
  if isinstance(v, dict):
    return {k: evaluate(x, model) for k, x in v.items()}
  if isinstance(v, (list, tuple)):
    return [evaluate(x, model) for x in v]
  return v


def canon(v):
  """JSON-able canonical form."""
  if isinstance(v, bytes):
    return "b:" + v.hex()
  if isinstance(v, dict):
    return {str(k): canon(x) for k, x in sorted(v.items(), key=lambda i: str(i[0]))}
  if isinstance(v, (list, tuple)):
    return [canon(x) for x in v]
  if isinstance(v, (set, frozenset)):
    return sorted((canon(x) for x in v), key=str)
  if v is None or isinstance(v, (bool, int, str)):
    return v
  if isinstance(v, float):
    return repr(v)
  return str(v)
