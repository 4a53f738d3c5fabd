"""Path-exhaustive symbolic executor for real Python code.

The code under test is imported from /repo and run by the ordinary Python
interpreter; its inputs are the proxy values below, each wrapping a z3 term.
Whenever the code branches on a proxy (``__bool__``) the executor asks z3 which
outcomes are feasible under the path condition, takes one and queues the other,
so that every feasible path within the scenario's bounds is run.  At each
``check`` z3 decides ``path condition => assertion`` for all remaining values.
"""
from __future__ import annotations
import bisect
import time
from typing import Any, Dict, List, Optional

import z3


class Steer(BaseException):
  """Base of the executor's own control flow (never an Exception)."""


class PathDead(Steer):
  """The path is infeasible (an assumption failed)."""


class PathLimit(Steer):
  """A bound of the executor itself was hit: the path is inconclusive."""


class Unmodelled(Steer):
  """The code used something the environment model does not cover."""


class Path:
  """State of one path."""

  def __init__(self, prefix: List[bool], timeout_ms: int = 20000):
    self.prefix = prefix
    self.decisions: List[bool] = []
    self.alternatives: List[List[bool]] = []
    self.solver = z3.Solver()
    self.solver.set("timeout", timeout_ms)
    self.model: Optional[z3.ModelRef] = None
    self.inputs: Dict[str, Any] = {}  # name -> (kind, term)
    self.queries = 0
    self.solver_s = 0.0
    self.unknown = 0
    self.concretized: List[str] = []
    self.fresh = 0
    self.forks = 0
    self.pickled: List[Any] = []

  # -- solver ---------------------------------------------------------------
  def sat(self, *extra) -> z3.CheckSatResult:
    t = time.perf_counter()
    r = self.solver.check(*extra)
    self.solver_s += time.perf_counter() - t
    self.queries += 1
    if r == z3.unknown:
      self.unknown += 1
    return r

  def add(self, c) -> None:
    self.solver.add(c)
    if self.model is not None:
      if not z3.is_true(self.model.eval(c, model_completion=True)):
        self.model = None

  def get_model(self) -> z3.ModelRef:
    if self.model is None:
      r = self.sat()
      if r == z3.unsat:
        raise PathDead()
      if r == z3.unknown:
        raise PathLimit("solver unknown")
      self.model = self.solver.model()
    return self.model

  def deterministic_pick(self, t) -> int:
    """A value of the int term t that depends only on the path so far."""
    o = z3.Optimize()
    o.add(*self.solver.assertions())
    o.minimize(t)
    self.queries += 1
    s = time.perf_counter()
    r = o.check()
    self.solver_s += time.perf_counter() - s
    if r != z3.sat:
      raise PathDead()
    return o.model().eval(t, model_completion=True).as_long()

  def branch(self, c) -> bool:
    """Decide a symbolic condition, queueing the other side if feasible."""
    c = z3.simplify(c)
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    i = len(self.decisions)
    if i > 8000:
      raise PathLimit("too many decisions on one path")
    if i < len(self.prefix):
      v = self.prefix[i]
      self.decisions.append(v)
      self.solver.add(c if v else z3.Not(c))
      self.model = None
      if i == len(self.prefix) - 1 and self.sat() == z3.unsat:
        raise Unmodelled("re-execution diverged from the recorded path")
      return v
    m = self.get_model()
    v = z3.is_true(m.eval(c, model_completion=True))
    other = z3.Not(c) if v else c
    r = self.sat(other)
    if r != z3.unsat:
      self.alternatives.append(self.decisions + [not v])
      self.forks += 1
    self.decisions.append(v)
    self.solver.add(c if v else z3.Not(c))
    return v

  def assume(self, c) -> None:
    c = z3.simplify(c)
    if z3.is_true(c):
      return
    if z3.is_false(c):
      raise PathDead()
    self.add(c)
    if len(self.decisions) >= len(self.prefix):
      self.get_model()

  def refute(self, c) -> Optional[z3.ModelRef]:
    """Return a model of pc & not c, or None when the solver proves c."""
    c = z3.simplify(c)
    if z3.is_true(c):
      return None
    n = z3.Not(c)
    if self.model is not None and z3.is_true(
        self.model.eval(n, model_completion=True)):
      return self.model
    r = self.sat(n)
    if r == z3.unsat:
      return None
    if r == z3.unknown:
      raise PathLimit("solver unknown on an obligation")
    return self.solver.model()

  # -- inputs ---------------------------------------------------------------
  def input(self, name: str, kind: str, term):
    if name in self.inputs:
      raise AssertionError(f"duplicate symbolic input {name}")
    self.inputs[name] = (kind, term)
    return term

  def values(self, model) -> Dict[str, Any]:
    out = {}
    for n, (kind, t) in self.inputs.items():
      out[n] = py_value(model.eval(t, model_completion=True), kind)
    return out


def py_value(v, kind):
  if kind == "bool":
    return z3.is_true(v)
  if kind in ("int", "str"):
    return v.as_long()
  if kind == "real":
    f = v.as_fraction()
    return float(f)
  raise AssertionError(kind)


CUR: Optional[Path] = None


def cur() -> Path:
  if CUR is None:
    raise RuntimeError("symbolic value used outside a path")
  return CUR


def set_cur(p: Optional[Path]) -> None:
  global CUR
  CUR = p


# -- proxies ------------------------------------------------------------------
class Sym:
  """Base of all symbolic proxies."""
  __slots__ = ("t",)

  def __init__(self, t):
    self.t = t

  def __repr__(self):
    return f"<{type(self).__name__}>"

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def __reduce__(self):
    # E.g. a closure persisted by the code: the path keeps the value.
    CUR.pickled.append(self)
    return _unpickled, (len(CUR.pickled) - 1,)


def _unpickled(i):
  return CUR.pickled[i]


def is_sym(x) -> bool:
  return isinstance(x, Sym)


def _b(t):
  t = z3.simplify(t)
  if z3.is_true(t):
    return True
  if z3.is_false(t):
    return False
  return SymBool(t)


def bterm(x):
  """z3 Bool of a Python or symbolic bool."""
  if isinstance(x, SymBool):
    return x.t
  if isinstance(x, SymInt):
    return x.t != 0
  return z3.BoolVal(bool(x))


class SymBool(Sym):
  __slots__ = ()

  def __bool__(self):
    return cur().branch(self.t)

  def __and__(self, o):
    if isinstance(o, (bool, SymBool)):
      return _b(z3.And(self.t, bterm(o)))
    return NotImplemented

  __rand__ = __and__

  def __or__(self, o):
    if isinstance(o, (bool, SymBool)):
      return _b(z3.Or(self.t, bterm(o)))
    return NotImplemented

  __ror__ = __or__

  def __xor__(self, o):
    return _b(z3.Xor(self.t, bterm(o)))

  def __invert__(self):
    return _b(z3.Not(self.t))

  def __eq__(self, o):
    if isinstance(o, (bool, SymBool)):
      return _b(self.t == bterm(o))
    return NotImplemented

  def __ne__(self, o):
    if isinstance(o, (bool, SymBool)):
      return _b(self.t != bterm(o))
    return NotImplemented

  def _i(self):
    return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

  def __lt__(self, o):
    return self._i() < o

  def __le__(self, o):
    return self._i() <= o

  def __gt__(self, o):
    return self._i() > o

  def __ge__(self, o):
    return self._i() >= o

  def __int__(self):
    return 1 if self else 0

  __index__ = __int__

  def __hash__(self):
    return 7


def _iv(x):
  """z3 Int term of an int-like, or None."""
  if isinstance(x, SymInt):
    return x.t
  if isinstance(x, SymBool):
    return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
  if isinstance(x, bool):
    return z3.IntVal(int(x))
  if isinstance(x, int):
    return z3.IntVal(x)
  if hasattr(x, "dtype") and getattr(x, "shape", None) == () and \
      x.dtype.kind in "iu":
    return z3.IntVal(int(x))
  return None


def _mk(t):
  t = z3.simplify(t)
  if z3.is_int_value(t):
    return t.as_long()
  return SymInt(t)


class SymInt(Sym):
  """A Python int (mathematical integer)."""
  __slots__ = ()

  def _bin(self, o, f, real):
    v = _iv(o)
    if v is None:
      if isinstance(o, (SymReal, float)):
        return real(SymReal(z3.ToReal(self.t)), o)
      return NotImplemented
    return _mk(f(self.t, v))

  def __add__(self, o):
    return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

  def __radd__(self, o):
    return self._bin(o, lambda a, b: b + a, lambda a, b: b + a)

  def __sub__(self, o):
    return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

  def __rsub__(self, o):
    return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

  def __mul__(self, o):
    return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

  __rmul__ = __mul__

  def __neg__(self):
    return _mk(-self.t)

  def __pos__(self):
    return self

  def __abs__(self):
    return _mk(z3.If(self.t >= 0, self.t, -self.t))

  def __floordiv__(self, o):
    return _floordiv(self, o)

  def __rfloordiv__(self, o):
    return _floordiv(o, self)

  def __mod__(self, o):
    q = _floordiv(self, o)
    return self - q * o

  def __rmod__(self, o):
    q = _floordiv(o, self)
    return o - q * self

  def __divmod__(self, o):
    q = _floordiv(self, o)
    return q, self - q * o

  def __truediv__(self, o):
    return SymReal(z3.ToReal(self.t)) / o

  def __rtruediv__(self, o):
    return _rv_obj(o) / self

  def __ceil__(self):
    return self

  __floor__ = __trunc__ = __ceil__

  def __round__(self, nd=None):
    return self

  def _cmp(self, o, f):
    v = _iv(o)
    if v is None:
      if isinstance(o, float) and o != o:
        return False
      r = _rv(o)
      if r is None:
        return NotImplemented
      return _b(f(z3.ToReal(self.t), r))
    return _b(f(self.t, v))

  def __eq__(self, o):
    return self._cmp(o, lambda a, b: a == b)

  def __ne__(self, o):
    if isinstance(o, float) and o != o:
      return True
    return self._cmp(o, lambda a, b: a != b)

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def __bool__(self):
    return cur().branch(self.t != 0)

  def __int__(self):
    return concretize(self)

  __index__ = __int__

  def __float__(self):
    return float(concretize(self))

  def __hash__(self):
    return 11

  def __repr__(self):
    return "<SymInt>"


def _floordiv(a, b):
  at, bt = _iv(a), _iv(b)
  if at is None or bt is None:
    return NotImplemented
  b = SymInt(bt)
  if (b == 0):
    raise ZeroDivisionError("integer division or modulo by zero")
  if (b > 0):
    return _mk(at / bt)
  return _mk((-at) / (-bt))


def concretize(x: SymInt) -> int:
  """Fork over every feasible value of x (bounded)."""
  p = cur()
  t = z3.simplify(x.t)
  if z3.is_int_value(t):
    return t.as_long()
  for v in range(0, 24):
    if p.branch(t == v):
      return v
  for _ in range(600):
    v = p.deterministic_pick(t)
    if p.branch(t == v):
      return v
  raise PathLimit("concretize: too many values")


def _rv(x):
  if isinstance(x, SymReal):
    return x.t
  if isinstance(x, SymInt):
    return z3.ToReal(x.t)
  if isinstance(x, bool):
    return z3.RealVal(int(x))
  if isinstance(x, int):
    return z3.RealVal(x)
  if isinstance(x, float):
    if x != x or x in (float("inf"), float("-inf")):
      return None
    from fractions import Fraction
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)
  return None


def _rv_obj(x):
  t = _rv(x)
  if t is None:
    raise Unmodelled(f"real arithmetic with {type(x)}")
  return SymReal(t)


class SymReal(Sym):
  """A finite float, as an exact rational (comparisons are exact; arithmetic
  is exact rational arithmetic, which is stated as an assumption)."""
  __slots__ = ()

  def _bin(self, o, f):
    r = _rv(o)
    if r is None:
      return NotImplemented
    return SymReal(z3.simplify(f(self.t, r)))

  def __add__(self, o):
    return self._bin(o, lambda a, b: a + b)

  __radd__ = __add__

  def __sub__(self, o):
    return self._bin(o, lambda a, b: a - b)

  def __rsub__(self, o):
    return self._bin(o, lambda a, b: b - a)

  def __mul__(self, o):
    return self._bin(o, lambda a, b: a * b)

  __rmul__ = __mul__

  def __truediv__(self, o):
    r = _rv(o)
    if r is None:
      return NotImplemented
    if _b(r == 0):
      raise ZeroDivisionError("division by zero")
    return SymReal(z3.simplify(self.t / r))

  def __rtruediv__(self, o):
    return _rv_obj(o) / self

  def __neg__(self):
    return SymReal(z3.simplify(-self.t))

  def __floor__(self):
    return _mk(z3.ToInt(self.t))

  def __ceil__(self):
    return _mk(-z3.ToInt(-self.t))

  def __trunc__(self):
    return _mk(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

  __int__ = lambda self: int(self.__trunc__())

  def __round__(self, nd=None):
    raise Unmodelled("round of a symbolic real")

  def _cmp(self, o, f, inf):
    if isinstance(o, float):
      if o != o:
        return False
      if o == float("inf"):
        return inf[0]
      if o == float("-inf"):
        return inf[1]
    r = _rv(o)
    if r is None:
      return NotImplemented
    return _b(f(self.t, r))

  def __eq__(self, o):
    return self._cmp(o, lambda a, b: a == b, (False, False))

  def __ne__(self, o):
    if isinstance(o, float) and o != o:
      return True
    return self._cmp(o, lambda a, b: a != b, (True, True))

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b, (True, False))

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b, (True, False))

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b, (False, True))

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b, (False, True))

  def __bool__(self):
    return cur().branch(self.t != 0)

  def __hash__(self):
    return 13


class SymStr(Sym):
  """A string (or bytes) from a totally ordered set of atoms; only comparison
  and equality are modelled.  Atom n stands for str_of(n)."""
  __slots__ = ("kind",)

  def __init__(self, t, kind="str"):
    super().__init__(t)
    self.kind = kind

  def _cmp(self, o, f):
    if isinstance(o, SymStr):
      return _b(f(self.t, o.t))
    if isinstance(o, (str, bytes)):
      n = atom_of(o)
      if n is None:
        if isinstance(o, bytes) != (self.kind == "bytes"):
          raise Unmodelled("comparison of a symbolic string and bytes")
        # The constant lies between atoms m - 1 and m.
        m = bisect.bisect_left(range(10**7), o, key=(
            lambda i: str_of(i).encode()) if isinstance(o, bytes) else str_of)
        return _b(f(2 * self.t, z3.IntVal(2 * m - 1)))
      return _b(f(self.t, z3.IntVal(n)))
    return NotImplemented

  def __eq__(self, o):
    if isinstance(o, (str, bytes)) and atom_of(o) is None:
      return False
    return self._cmp(o, lambda a, b: a == b)

  def __ne__(self, o):
    if isinstance(o, (str, bytes)) and atom_of(o) is None:
      return True
    return self._cmp(o, lambda a, b: a != b)

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def __len__(self):
    return 8

  def __hash__(self):
    return 17


STR_MAX = 10**6


def str_of(n: int) -> str:
  return f"k{n:07d}"


def atom_of(s) -> Optional[int]:
  if isinstance(s, bytes):
    try:
      s = s.decode()
    except UnicodeDecodeError:
      return None
  if len(s) == 8 and s[0] == "k" and s[1:].isdigit():
    return int(s[1:])
  return None


def ite(c, a, b):
  """Symbolic if-then-else without forking."""
  if isinstance(c, bool):
    return a if c else b
  if isinstance(a, SymStr) or isinstance(b, SymStr):
    if any(isinstance(x, (str, bytes)) and atom_of(x) is None
           for x in (a, b)):
      return a if c else b
    at = a.t if isinstance(a, SymStr) else z3.IntVal(atom_of(a))
    bt = b.t if isinstance(b, SymStr) else z3.IntVal(atom_of(b))
    k = a.kind if isinstance(a, SymStr) else b.kind
    return SymStr(z3.simplify(z3.If(c.t, at, bt)), k)
  if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)):
    ar, br = _rv(a), _rv(b)
    if ar is None or br is None:
      return a if c else b
    return SymReal(z3.simplify(z3.If(c.t, ar, br)))
  if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
    return _b(z3.If(c.t, bterm(a), bterm(b)))
  at, bt = _iv(a), _iv(b)
  if at is None or bt is None:
    return a if c else b
  return _mk(z3.If(c.t, at, bt))


def force(x):
  """Under-approximate: fix one concrete value for x (recorded)."""
  if not isinstance(x, Sym):
    return x
  p = cur()
  p.concretized.append(type(x).__name__)
  if isinstance(x, SymBool):
    if p.sat(x.t) == z3.sat:
      p.add(x.t)
      return True
    p.add(z3.Not(x.t))
    return False
  if isinstance(x, SymReal):
    i = p.deterministic_pick(z3.ToInt(x.t))
    for num in (0, 1):
      c = x.t == z3.Q(2 * i + num, 2)
      if p.sat(c) == z3.sat:
        p.add(c)
        return i + num / 2
    raise PathLimit("force: no simple value")
  v = p.deterministic_pick(x.t)
  p.add(x.t == v)
  if isinstance(x, SymStr):
    s = str_of(v)
    return s.encode() if x.kind == "bytes" else s
  return v
