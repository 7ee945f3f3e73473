"""Path-forking symbolic executor: symbolic values, decisions, solver.

The program under test is ordinary Python (rewritten by sx.transform so that
builtins implemented in C cannot swallow symbolic values).  Inputs are z3 terms
wrapped in SymBool / SymNum / SymStr.  When the program needs a concrete truth
value the solver decides which outcomes are feasible; every feasible outcome is
explored, depth first, by re-execution with a recorded decision prefix.  On each
path the property becomes a query "path condition and not property".
"""
import fractions
import math
import time

import numpy as np
import z3

Fraction = fractions.Fraction


class PathAbort(BaseException):
  """The current path is infeasible / cut by an assumption."""


class PathStop(BaseException):
  """Path ended early by the harness (counted as completed)."""


class BudgetExceeded(BaseException):
  pass


class Inconclusive(BaseException):
  """Solver answered unknown, or something cannot be encoded."""


ENGINE = None  # current engine (one per process)


class Stats:

  def __init__(self):
    self.queries = 0
    self.solver_s = 0.0
    self.unknown = 0
    self.paths = 0
    self.infeasible = 0
    self.checks = 0          # property assertions decided by the solver
    self.checks_ground = 0   # property assertions that were ground on the path
    self.forks = 0
    self.max_query_s = 0.0

  def as_dict(self):
    return dict(self.__dict__)


class Engine:
  """Explores all paths of `fn(ctx)`."""

  def __init__(self, query_timeout_ms=20000, max_paths=10**9, deadline=None):
    self.query_timeout_ms = query_timeout_ms
    self.max_paths = max_paths
    self.deadline = deadline
    self.stats = Stats()
    self.solver = None
    self.active = False

  # ---------------------------------------------------------------- solver --
  def _check(self, *assumptions):
    t0 = time.time()
    r = self.solver.check(*assumptions)
    dt = time.time() - t0
    self.stats.queries += 1
    self.stats.solver_s += dt
    if dt > self.stats.max_query_s:
      self.stats.max_query_s = dt
    if r == z3.unknown:
      self.stats.unknown += 1
      raise Inconclusive("solver unknown: %s" % self.solver.reason_unknown())
    return r == z3.sat

  def _eval(self, term):
    return self.model.eval(term, model_completion=True)

  def ensure_model(self):
    if self.model is None:
      if not self._check():
        raise PathAbort()
      self.model = self.solver.model()

  # ------------------------------------------------------------- decisions --
  def _push_alt(self, entry, model):
    self.worklist.append((self.trace + [entry], model))

  def fork(self, cond, simplified=False):
    """Returns a feasible Python bool for z3 Bool `cond`; schedules the other."""
    if not simplified:
      cond = z3.simplify(cond)
    hit = self.decided.get(cond.get_id())
    if hit is not None:
      return hit[1]
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    neg = z3.is_not(cond)
    atom = cond.arg(0) if neg else cond
    key = atom.get_id()
    hit = self.decided.get(key)
    if hit is not None:
      return hit[1] != neg
    pol = self._fork(cond)
    self.decided[key] = (atom, pol != neg)
    return pol

  def _fork(self, cond):
    self.stats.forks += 1
    if len(self.trace) < len(self.prefix):
      kind, val, pol = self.prefix[len(self.trace)]
      assert kind == "b", "non-deterministic harness"
      self.trace.append((kind, val, pol))
      self.solver.add(cond if pol else z3.Not(cond))
      return pol
    self.ensure_model()
    pol = z3.is_true(self._eval(cond))
    other = z3.Not(cond) if pol else cond
    if self._check(other):
      self._push_alt(("b", None, not pol), self.solver.model())
      self.trace.append(("b", None, pol))
      self.solver.add(cond if pol else z3.Not(cond))
    else:
      # Forced: record so that replays of this prefix stay aligned.
      self.trace.append(("b", None, pol))
      self.solver.add(cond if pol else z3.Not(cond))
    return pol

  def concretize(self, term):
    """Enumerates (through the solver) every feasible value of `term`."""
    term = z3.simplify(term)
    while True:
      v = const_value(term)
      if v is not None:
        return v
      self.stats.forks += 1
      if len(self.trace) < len(self.prefix):
        kind, val, pol = self.prefix[len(self.trace)]
        assert kind == "c", "non-deterministic harness"
        self.trace.append((kind, val, pol))
        eq = term == to_z3_const(val, term.sort())
        self.solver.add(eq if pol else z3.Not(eq))
        if pol:
          return val
        continue
      self.ensure_model()
      val = const_value(self._eval(term))
      eq = term == to_z3_const(val, term.sort())
      if self._check(z3.Not(eq)):
        self._push_alt(("c", val, False), self.solver.model())
      self.trace.append(("c", val, True))
      self.solver.add(eq)
      return val

  def assume(self, cond):
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return
    if z3.is_false(cond):
      raise PathAbort()
    self.solver.add(cond)
    if len(self.trace) < len(self.prefix):
      return
    if self.model is not None and z3.is_true(self._eval(cond)):
      return
    if not self._check():
      raise PathAbort()
    self.model = self.solver.model()

  def feasible(self, cond):
    return self._check(cond)

  # ------------------------------------------------------------------- run --
  def new_solver(self):
    s = z3.Solver()
    s.set("timeout", self.query_timeout_ms)
    s.set("random_seed", 1)
    return s

  def explore(self, fn, on_path, prefixes=None, slice_s=None):
    """Runs fn() on every path.  on_path(outcome, exc) -> stop?

    Returns (complete, leftover prefixes): with slice_s the exploration stops
    after that time and hands back the unexplored decision prefixes.
    """
    global ENGINE
    ENGINE = self
    self.worklist = [(p, None) for p in (prefixes or [[]])]
    complete = True
    t_end = time.time() + slice_s if slice_s else None
    while self.worklist:
      if self.deadline is not None and time.time() > self.deadline:
        complete = False
        self.worklist = []
        break
      if t_end is not None and time.time() > t_end:
        break
      self.prefix, model = self.worklist.pop()
      self.trace = []
      self.solver = self.new_solver()
      self.model = model
      self.vars = {}
      self.exp_pairs = []
      self.num_tokens = []
      self.decided = {}
      exc = None
      outcome = "ok"
      self.active = True
      try:
        fn()
      except PathAbort:
        outcome = "infeasible"
      except PathStop:
        outcome = "ok"
      except Inconclusive as e:
        outcome, exc = "inconclusive", e
      except RecursionError as e:
        outcome, exc = "exception", e
      except Exception as e:  # pylint: disable=broad-except
        outcome, exc = "exception", e
      finally:
        self.active = False
      if outcome == "infeasible":
        self.stats.infeasible += 1
      else:
        self.stats.paths += 1
      if on_path(outcome, exc):
        complete = False
        self.worklist = []
        break
    return complete, [p for p, _ in self.worklist]

  def model_values(self, model=None):
    """Concrete values of all declared inputs under a model of the path."""
    if model is None:
      # Prefer values a float/int replay represents exactly.
      reals = [v for v in self.vars.values() if z3.is_real(v)]
      model = None
      for scale in (1, 8, 1024):
        if not reals:
          break
        try:
          if self._check(*[z3.IsInt(v * scale) for v in reals]):
            model = self.solver.model()
            break
        except Inconclusive:
          continue
      if model is None:
        if not self._check():
          return None
        model = self.solver.model()
    out = {}
    for name, v in self.vars.items():
      val = const_value(model.eval(v, model_completion=True))
      if isinstance(val, Fraction):
        val = {"frac": [str(val.numerator), str(val.denominator)]}
      out[name] = val
    return out


def const_value(t):
  if z3.is_int_value(t):
    return t.as_long()
  if z3.is_rational_value(t):
    f = t.as_fraction()
    return Fraction(f.numerator, f.denominator)
  if z3.is_true(t):
    return True
  if z3.is_false(t):
    return False
  if z3.is_algebraic_value(t):
    a = t.approx(20)
    f = a.as_fraction()
    return Fraction(f.numerator, f.denominator)
  return None


def to_z3_const(v, sort):
  if sort == z3.IntSort():
    return z3.IntVal(v)
  if sort == z3.RealSort():
    f = Fraction(v)
    return z3.RealVal(f)
  if sort == z3.BoolSort():
    return z3.BoolVal(v)
  raise TypeError(sort)


# =============================================================================
# Symbolic values
# =============================================================================


def is_sym(x):
  return isinstance(x, Sym)


class Sym:
  __slots__ = ()


class SymBool(Sym):
  """Symbolic truth value."""

  __slots__ = ("t",)

  def __init__(self, t):
    self.t = t

  def __bool__(self):
    return ENGINE.fork(self.t, True)

  def __and__(self, o):
    return mk_bool(z3.And(self.t, as_bool_term(o)))

  __rand__ = __and__

  def __or__(self, o):
    return mk_bool(z3.Or(self.t, as_bool_term(o)))

  __ror__ = __or__

  def __xor__(self, o):
    return mk_bool(z3.Xor(self.t, as_bool_term(o)))

  __rxor__ = __xor__

  def __invert__(self):
    return mk_bool(z3.Not(self.t))

  def __eq__(self, o):
    if isinstance(o, (SymBool, bool, np.bool_)):
      return mk_bool(self.t == as_bool_term(o))
    return as_num(self) == o

  def __ne__(self, o):
    r = self == o
    return sym_not(r)

  def __hash__(self):
    return hash(bool(self))

  def __int__(self):
    return int(bool(self))

  __index__ = __int__

  def __float__(self):
    return float(bool(self))

  def _n(self):
    return as_num(self)

  def __add__(self, o):
    return self._n() + o

  __radd__ = __add__

  def __sub__(self, o):
    return self._n() - o

  def __rsub__(self, o):
    return o - self._n()

  def __mul__(self, o):
    return self._n() * o

  __rmul__ = __mul__

  def __lt__(self, o):
    return self._n() < o

  def __le__(self, o):
    return self._n() <= o

  def __gt__(self, o):
    return self._n() > o

  def __ge__(self, o):
    return self._n() >= o

  def __repr__(self):
    return "<symbool>"

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def all(self):
    return self

  any = all


def mk_bool(t):
  t = z3.simplify(t)
  if z3.is_true(t):
    return True
  if z3.is_false(t):
    return False
  return SymBool(t)


def as_bool_term(x):
  if isinstance(x, SymBool):
    return x.t
  if isinstance(x, SymNum):
    return x.t != 0
  return z3.BoolVal(bool(x))


def sym_not(x):
  if isinstance(x, SymBool):
    return mk_bool(z3.Not(x.t))
  return not x


def sym_and(*xs):
  ts = []
  for x in xs:
    if isinstance(x, SymBool):
      ts.append(x.t)
    elif not x:
      return False
  if not ts:
    return True
  return mk_bool(z3.And(*ts))


def sym_or(*xs):
  ts = []
  for x in xs:
    if isinstance(x, SymBool):
      ts.append(x.t)
    elif x:
      return True
  if not ts:
    return False
  return mk_bool(z3.Or(*ts))


def num_term(x):
  """z3 arithmetic term for a finite number (None if not representable)."""
  if isinstance(x, SymNum):
    return x.t
  if isinstance(x, SymBool):
    return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
  if isinstance(x, (bool, np.bool_)):
    return z3.IntVal(int(x))
  if isinstance(x, (int, np.integer)):
    return z3.IntVal(int(x))
  if isinstance(x, (float, np.floating)):
    x = float(x)
    if math.isinf(x) or math.isnan(x):
      return None
    return z3.RealVal(Fraction(x))
  if isinstance(x, Fraction):
    return z3.RealVal(x)
  return None


def is_num(x):
  return isinstance(x, (SymNum, SymBool, int, float, np.number, np.bool_,
                        Fraction))


def as_num(x):
  if isinstance(x, SymBool):
    return SymNum(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
  return x


def mk_num(t):
  t = z3.simplify(t)
  v = const_value(t)
  if v is not None and not isinstance(v, bool):
    if isinstance(v, Fraction):
      f = float(v)
      if Fraction(f) == v:
        return f
      return SymNum(t)
    return v
  return SymNum(t)


def _real(t):
  return z3.ToReal(t) if z3.is_int(t) else t


def _is_arr(o):
  return isinstance(o, np.ndarray)


def _elementwise(f, arr):
  out = np.empty(arr.shape, dtype=object)
  for idx in np.ndindex(arr.shape):
    out[idx] = f(arr[idx])
  return out


class SymNum(Sym):
  """Symbolic int (unbounded) or real (standing for a float cost)."""

  __slots__ = ("t",)
  __array_priority__ = 1000

  def __init__(self, t):
    self.t = t

  # numpy interop -------------------------------------------------------------
  def __array_ufunc__(self, ufunc, method, *inputs, **kw):
    conv = []
    for x in inputs:
      if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        conv.append(a)
      elif isinstance(x, np.ndarray) and x.dtype != object:
        conv.append(x.astype(object))
      elif isinstance(x, np.generic):
        a = np.empty((), dtype=object)
        a[()] = x.item()
        conv.append(a)
      else:
        conv.append(x)
    r = getattr(ufunc, method)(*conv, **kw)
    if isinstance(r, np.ndarray) and r.shape == ():
      return r[()]
    return r

  # scalar numpy-like API -----------------------------------------------------
  def item(self):
    return self

  def astype(self, *_):
    return self

  @property
  def is_int(self):
    return z3.is_int(self.t)

  # arithmetic ----------------------------------------------------------------
  def _bin(self, o, f, swap=False):
    if _is_arr(o):
      return _elementwise(lambda e: self._bin(e, f, swap), o)
    ot = num_term(o)
    if ot is None:
      return NotImplemented
    a, b = (ot, self.t) if swap else (self.t, ot)
    if z3.is_int(a) != z3.is_int(b):
      a, b = _real(a), _real(b)
    return mk_num(f(a, b))

  def _nonfinite(self, o):
    return isinstance(o, (float, np.floating)) and not math.isfinite(o)

  def __add__(self, o):
    if self._nonfinite(o):
      return float(o)
    return self._bin(o, lambda a, b: a + b)

  __radd__ = __add__

  def __sub__(self, o):
    if self._nonfinite(o):
      return -float(o)
    return self._bin(o, lambda a, b: a - b)

  def __rsub__(self, o):
    if self._nonfinite(o):
      return float(o)
    return self._bin(o, lambda a, b: a - b, swap=True)

  def __mul__(self, o):
    if self._nonfinite(o):
      if math.isnan(o):
        return math.nan
      if self > 0:
        return float(o)
      if self < 0:
        return -float(o)
      return math.nan
    if not is_num(o) and not _is_arr(o):
      # e.g. list * SymInt
      return NotImplemented
    return self._bin(o, lambda a, b: a * b)

  def __rmul__(self, o):
    if isinstance(o, (list, str, tuple)):
      return o * self.__index__()
    return self.__mul__(o)

  def __truediv__(self, o):
    if self._nonfinite(o):
      return 0.0 if not math.isnan(o) else math.nan
    if is_num(o):
      if o == 0:
        raise ZeroDivisionError("division by zero")
      return self._bin(o, lambda a, b: _real(a) / _real(b))
    if _is_arr(o):
      return _elementwise(lambda e: self / e, o)
    return NotImplemented

  def __rtruediv__(self, o):
    if _is_arr(o):
      return _elementwise(lambda e: e / self, o)
    if self == 0:
      raise ZeroDivisionError("division by zero")
    if self._nonfinite(o):
      return float(o) if self > 0 else -float(o)
    return self._bin(o, lambda a, b: _real(a) / _real(b), swap=True)

  def _idiv(self, a, b):
    # Python floor division for ints / reals.
    if z3.is_int(a) and z3.is_int(b):
      # z3 div: floor for positive divisor; for negative use identity.
      return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToInt(_real(a) / _real(b))

  def __floordiv__(self, o):
    if is_num(o):
      if o == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
      return self._bin(o, self._idiv)
    return NotImplemented

  def __rfloordiv__(self, o):
    if self == 0:
      raise ZeroDivisionError("integer division or modulo by zero")
    return self._bin(o, self._idiv, swap=True)

  def __mod__(self, o):
    if is_num(o):
      if o == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
      q = self // o
      return self - q * o
    return NotImplemented

  def __rmod__(self, o):
    if isinstance(o, str):
      return o % (repr(self),)
    q = o // self
    return o - q * self

  def __divmod__(self, o):
    return self // o, self % o

  def __pow__(self, o):
    if isinstance(o, int) and 0 <= o <= 8:
      r = 1
      for _ in range(o):
        r = self * r
      return r
    raise Inconclusive("pow")

  def __neg__(self):
    return mk_num(-self.t)

  def __pos__(self):
    return self

  def __abs__(self):
    return mk_num(z3.If(self.t >= 0, self.t, -self.t))

  def __round__(self, nd=None):
    """Half to even, on exact reals."""
    if self.is_int and (nd is None or nd >= 0):
      return self
    if isinstance(nd, Sym) or nd is not None and not -12 <= nd <= 12:
      raise Inconclusive("round of a symbolic number")
    scale = z3.RealVal(10 ** abs(nd or 0))
    x = _real(self.t)
    x = x * scale if (nd or 0) >= 0 else x / scale
    up = z3.ToInt(x + z3.RealVal("1/2"))
    tie = z3.ToReal(up) == x + z3.RealVal("1/2")
    r = z3.If(z3.And(tie, up % 2 == 1), up - 1, up)
    if nd is None:
      return mk_num(r)
    r = z3.ToReal(r)
    r = mk_num(r / scale if nd >= 0 else r * scale)
    return int(r) if self.is_int else r

  def __floor__(self):
    return mk_num(z3.ToInt(_real(self.t)))

  def __ceil__(self):
    return mk_num(-z3.ToInt(-_real(self.t)))

  def __trunc__(self):
    if self.is_int:
      return self
    return mk_num(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

  # comparison ----------------------------------------------------------------
  def _cmp(self, o, f, inf_res, ninf_res):
    if _is_arr(o):
      return _elementwise(lambda e: self._cmp(e, f, inf_res, ninf_res), o)
    if self._nonfinite(o):
      if math.isnan(o):
        return False
      return inf_res if o > 0 else ninf_res
    ot = num_term(o)
    if ot is None:
      return NotImplemented
    a, b = self.t, ot
    if z3.is_int(a) != z3.is_int(b):
      a, b = _real(a), _real(b)
    return mk_bool(f(a, b))

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b, True, False)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b, True, False)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b, False, True)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b, False, True)

  def __eq__(self, o):
    r = self._cmp(o, lambda a, b: a == b, False, False)
    return False if r is NotImplemented else r

  def __ne__(self, o):
    if _is_arr(o):
      return _elementwise(lambda e: self != e, o)
    if self._nonfinite(o):
      return True
    r = self._cmp(o, lambda a, b: a != b, True, True)
    return True if r is NotImplemented else r

  # conversion ----------------------------------------------------------------
  def __bool__(self):
    return ENGINE.fork(self.t != 0)

  def __hash__(self):
    return hash(ENGINE.concretize(self.t))

  def __index__(self):
    if not self.is_int:
      raise TypeError("'float' object cannot be interpreted as an integer")
    return ENGINE.concretize(self.t)

  def __int__(self):
    if self.is_int:
      return ENGINE.concretize(self.t)
    return ENGINE.concretize(self.__trunc__().t)

  def __float__(self):
    # Only C code asks for this; concretising a real is not exhaustive.
    if self.is_int:
      return float(ENGINE.concretize(self.t))
    raise Inconclusive("float() of a symbolic real inside C code")

  def __repr__(self):
    return "<sym>"

  def __format__(self, spec):
    return "<sym>"

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self


def ite(c, a, b):
  """If-then-else on finite numbers without forking."""
  if not isinstance(c, SymBool):
    return a if c else b
  if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
    ba = a.t if isinstance(a, SymBool) else z3.BoolVal(a)
    bb = b.t if isinstance(b, SymBool) else z3.BoolVal(b)
    return mk_bool(z3.simplify(z3.If(c.t, ba, bb)))
  ta, tb = num_term(a), num_term(b)
  if ta is None or tb is None:
    return a if c else b
  if z3.is_int(ta) != z3.is_int(tb):
    ta, tb = _real(ta), _real(tb)
  return mk_num(z3.If(c.t, ta, tb))


def _needs_sym(*xs):
  return any(isinstance(x, (SymNum, SymBool)) for x in xs)


def sym_min2(a, b):
  if not _needs_sym(a, b):
    return b if b < a else a
  for x, y in ((a, b), (b, a)):
    if isinstance(x, (float, np.floating)) and not math.isfinite(x):
      if math.isnan(x):
        # Python's min keeps the first argument when comparisons are False.
        return a
      return y if x > 0 else x
  return ite(b < a, b, a)


def sym_max2(a, b):
  if not _needs_sym(a, b):
    return b if b > a else a
  for x, y in ((a, b), (b, a)):
    if isinstance(x, (float, np.floating)) and not math.isfinite(x):
      if math.isnan(x):
        return a
      return x if x > 0 else y
  return ite(b > a, b, a)
