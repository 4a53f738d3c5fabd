"""Connectives that work on Python bools and on symbolic bools alike."""
import z3
from symx.engine import SymBool, bterm, _b, ite  # noqa: F401


def And(*xs):
  xs = [x for x in _flat(xs)]
  if any(x is False for x in xs):
    return False
  sy = [x for x in xs if isinstance(x, SymBool)]
  if not all(bool(x) for x in xs if not isinstance(x, SymBool)):
    return False
  if not sy:
    return True
  return _b(z3.And(*[s.t for s in sy]))


def Or(*xs):
  xs = [x for x in _flat(xs)]
  sy = [x for x in xs if isinstance(x, SymBool)]
  if any(bool(x) for x in xs if not isinstance(x, SymBool)):
    return True
  if not sy:
    return False
  return _b(z3.Or(*[s.t for s in sy]))


def Not(x):
  if isinstance(x, SymBool):
    return _b(z3.Not(x.t))
  return not x


def Implies(a, b):
  return Or(Not(a), b)


def Iff(a, b):
  if not isinstance(a, SymBool) and not isinstance(b, SymBool):
    return bool(a) == bool(b)
  return _b(bterm(a) == bterm(b))


def Eq(a, b):
  """Value equality; None only equals None; NaN equals NaN."""
  if a is None or b is None:
    return a is None and b is None
  if isinstance(a, float) and isinstance(b, float) and a != a:
    return b != b
  if isinstance(a, dict) and isinstance(b, dict):
    return And(set(a) == set(b), *[Eq(a[k], b[k]) for k in a if k in b])
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    return And(len(a) == len(b), *[Eq(x, y) for x, y in zip(a, b)])
  r = (a == b)
  if r is NotImplemented:
    return False
  return r


def _flat(xs):
  for x in xs:
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
      yield from _flat(x)
    else:
      yield x
