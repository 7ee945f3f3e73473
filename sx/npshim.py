"""numpy stand-in for rewritten modules: float arrays become object arrays."""
import fractions
import math

import numpy as np

from sx import core
from sx.core import Sym, SymBool, SymNum

_FLOATS = {float, np.float64, np.float32, np.float16, np.floating}


def _is_float_dtype(dt):
  if dt is None:
    return False
  if isinstance(dt, type) and dt in _FLOATS:
    return True
  try:
    d = np.dtype(dt)
  except TypeError:
    return False
  return d.kind == "f" and d.names is None


def _conv_dtype(dt):
  """object for float dtypes, field-wise for structured ones."""
  if _is_float_dtype(dt):
    return object
  if isinstance(dt, np.dtype) and dt.names:
    return np.dtype([(n, _conv_dtype(dt.fields[n][0])) for n in dt.names])
  return dt


def _objectify(a):
  if isinstance(a, np.ndarray) and a.dtype.kind == "f":
    return _py(a.astype(object))
  return a


def _py(a):
  return a


def _fill(shape, v, dtype):
  if dtype is None and isinstance(v, (Sym, float, np.floating)):
    dtype = object
  a = np.empty(shape, dtype=_conv_dtype(dtype) if dtype is not None else None)
  if a.dtype.names:
    a[...] = v
    return a
  if a.dtype == object:
    for idx in np.ndindex(a.shape):
      a[idx] = v
    return a
  return np.full(shape, v, dtype=_conv_dtype(dtype) if dtype is not None else None)


def array_method(arr, name, a, k):
  if name == "astype":
    if arr.dtype == object and _is_float_dtype(a[0] if a else k.get("dtype")):
      return arr.copy()
    if arr.dtype != object and _is_float_dtype(a[0] if a else k.get("dtype")):
      return arr.astype(object)
    return NotImplemented
  if arr.dtype == object and name in ("min", "max", "sum", "mean", "argmin",
                                      "argmax", "all", "any"):
    return getattr(NP, name)(arr, *a, **k)
  return NotImplemented


def _reduce(arr, axis, f):
  arr = np.asarray(arr, dtype=object)
  if axis is None:
    return f(list(arr.reshape(-1)))
  arr = np.moveaxis(arr, axis, -1)
  out = np.empty(arr.shape[:-1], dtype=object)
  for idx in np.ndindex(out.shape):
    out[idx] = f(list(arr[idx]))
  if out.shape == ():
    return out[()]
  return out


def _minl(xs):
  r = xs[0]
  for x in xs[1:]:
    if isinstance(x, float) and math.isnan(x):
      return math.nan
    r = core.sym_min2(r, x)
  return r


def _maxl(xs):
  r = xs[0]
  for x in xs[1:]:
    if isinstance(x, float) and math.isnan(x):
      return math.nan
    r = core.sym_max2(r, x)
  return r


def _suml(xs):
  r = 0
  for x in xs:
    r = r + x
  return r


def _sorted(xs):
  """Sorting network: no forks."""
  xs = list(xs)
  n = len(xs)
  for i in range(n):
    for j in range(n - 1 - i):
      a, b = xs[j], xs[j + 1]
      xs[j], xs[j + 1] = core.sym_min2(a, b), core.sym_max2(a, b)
  return xs


def _anysym(*xs):
  for x in xs:
    if isinstance(x, Sym):
      return True
    if isinstance(x, np.ndarray) and x.dtype == object:
      return True
    if isinstance(x, (list, tuple)) and _anysym(*x):
      return True
  return False


def _ew(f, *xs):
  """Broadcasting element-wise map to an object array / scalar."""
  if not any(isinstance(x, (np.ndarray, list, tuple)) for x in xs):
    return f(*xs)
  arrs = [toarr(x) for x in xs]
  bs = np.broadcast_arrays(*arrs)
  out = np.empty(bs[0].shape, dtype=object)
  for idx in np.ndindex(out.shape):
    out[idx] = f(*[b[idx] for b in bs])
  if out.shape == ():
    return out[()]
  return out


def is_inf(x):
  return isinstance(x, float) and math.isinf(x)


def toarr(x):
  if isinstance(x, np.ndarray):
    return x
  if isinstance(x, Sym):
    a = np.empty((), dtype=object)
    a[()] = x
    return a
  if isinstance(x, (list, tuple)) and _anysym(x):
    subs = [toarr(e) for e in x]
    out = np.empty((len(subs),) + (subs[0].shape if subs else ()), dtype=object)
    for i, s in enumerate(subs):
      if s.shape == ():
        out[i] = s[()]
      else:
        out[i] = s
    return out
  return np.asarray(x)


def _boolarr(a):
  """Object array of bools -> real bool array when fully concrete."""
  if isinstance(a, np.ndarray) and a.dtype == object:
    if all(isinstance(x, (bool, np.bool_)) for x in a.reshape(-1)):
      return a.astype(bool)
  return a


class _UFunc:
  """A binary ufunc with a symbolic scalar version."""

  def __init__(self, real, f):
    self.real, self.f = real, f

  def __call__(self, a, b, out=None, **k):
    if not _anysym(a, b):
      r = self.real(a, b, **k)
    else:
      if k:
        raise core.Unsupported("ufunc options")
      r = _boolarr(_ew(self.f, a, b))
    if out is not None:
      out[...] = r
      return out
    return r

  def _fold(self, xs):
    r = xs[0]
    for x in xs[1:]:
      r = self.f(r, x)
    return r

  def reduce(self, x, axis=0, **k):
    if not _anysym(x):
      return self.real.reduce(x, axis=axis, **k)
    initial = k.pop("initial", None)
    if k:
      raise core.Unsupported("ufunc.reduce options")
    return _reduce(toarr(x), axis, lambda xs: self._fold(
        xs if initial is None else [initial] + xs))

  def accumulate(self, x, axis=0):
    if not _anysym(x):
      return self.real.accumulate(x, axis=axis)
    a = np.moveaxis(toarr(x), axis, 0)
    out = np.empty(a.shape, dtype=object)
    for i in range(a.shape[0]):
      out[i] = a[i] if not i else self(out[i - 1], a[i])
    return np.moveaxis(out, 0, axis)

  def at(self, a, indices, b=None):
    if not _anysym(a, b):
      return self.real.at(a, indices, b)
    idx = np.broadcast_arrays(*[np.asarray(i) for i in (
        indices if isinstance(indices, tuple) else (indices,))])
    vals = np.broadcast_to(toarr(b), idx[0].shape)
    for i in np.ndindex(idx[0].shape):
      at = tuple(int(j[i]) for j in idx)
      a[at] = self.f(a[at], vals[i])

  def outer(self, a, b):
    if not _anysym(a, b):
      return self.real.outer(a, b)
    return _ew(self.f, toarr(a)[:, None], toarr(b)[None, :])

  def __getattr__(self, name):
    return getattr(self.real, name)


class _NP:
  """Attribute access falls through to numpy."""

  def __getattr__(self, name):
    return getattr(np, name)

  NDArray = np.ndarray

  # dtypes ---------------------------------------------------------------------
  @staticmethod
  def dtype(spec, *a, **k):
    if isinstance(spec, list):
      return np.dtype([(f[0], _conv_dtype(f[1])) + tuple(f[2:]) for f in spec])
    return np.dtype(_conv_dtype(spec), *a, **k)

  # allocation -----------------------------------------------------------------
  @staticmethod
  def full(shape, fill_value, dtype=None, **k):
    if isinstance(fill_value, np.ndarray):
      out = np.empty(shape, dtype=object)
      out[...] = _objectify(fill_value)
      return out
    return _fill(shape, fill_value, dtype)

  @staticmethod
  def zeros(shape, dtype=float, **k):
    if _is_float_dtype(dtype):
      return _fill(shape, 0.0, object)
    return np.zeros(shape, dtype=_conv_dtype(dtype))

  @staticmethod
  def ones(shape, dtype=float, **k):
    if _is_float_dtype(dtype):
      return _fill(shape, 1.0, object)
    return np.ones(shape, dtype=_conv_dtype(dtype))

  @staticmethod
  def empty(shape, dtype=float, **k):
    if _is_float_dtype(dtype):
      return _fill(shape, math.nan, object)
    return np.empty(shape, dtype=_conv_dtype(dtype))

  @staticmethod
  def array(x, dtype=None, **k):
    if _anysym(x):
      return toarr(x).copy() if not isinstance(x, np.ndarray) else x.copy()
    a = np.array(x, dtype=_conv_dtype(dtype) if dtype is not None else None)
    return _objectify(a)

  @staticmethod
  def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and x.dtype == object:
      return x
    if _anysym(x):
      return toarr(x)
    a = np.asarray(x, dtype=_conv_dtype(dtype) if dtype is not None else None)
    return _objectify(a)

  @staticmethod
  def zeros_like(x, **k):
    if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind != "f":
      return np.zeros_like(x, **k)
    return _fill(np.shape(x), 0.0, object)

  @staticmethod
  def full_like(x, v, **k):
    if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind != "f":
      return np.full_like(x, v, **k)
    return _fill(np.shape(x), v, object)

  @staticmethod
  def empty_like(x, **k):
    return NP.full_like(x, math.nan) if getattr(x, "dtype", None) == object else np.empty_like(x, **k)

  @staticmethod
  def copy(x):
    return np.array(x, copy=True)

  # reductions -----------------------------------------------------------------
  @staticmethod
  def min(x, axis=None, **k):
    if not _anysym(x):
      return np.min(x, axis=axis, **k)
    return _reduce(toarr(x), axis, _minl)

  amin = min

  @staticmethod
  def max(x, axis=None, **k):
    if not _anysym(x):
      return np.max(x, axis=axis, **k)
    return _reduce(toarr(x), axis, _maxl)

  amax = max

  @staticmethod
  def sum(x, axis=None, **k):
    if not _anysym(x):
      return np.sum(x, axis=axis, **k)
    return _reduce(toarr(x), axis, _suml)

  @staticmethod
  def mean(x, axis=None, **k):
    if not _anysym(x):
      return np.mean(x, axis=axis, **k)
    return _reduce(toarr(x), axis, lambda xs: _suml(xs) / len(xs))

  average = mean

  @staticmethod
  def sort(x, axis=-1, **k):
    if not _anysym(x):
      return np.sort(x, axis=axis, **k)
    arr = toarr(x)
    if arr.ndim != 1:
      raise core.Unsupported("np.sort of a symbolic matrix")
    return toarr(_sorted(list(arr)))

  @staticmethod
  def quantile(x, q, **k):
    if k or isinstance(q, Sym):
      raise core.Unsupported("np.quantile options")
    if not _anysym(x):
      return np.quantile(np.asarray(x, dtype=float), q)
    xs = list(toarr(x).reshape(-1))
    odd = [v for v in xs if isinstance(v, float) and not math.isfinite(v)]
    if any(math.isnan(v) for v in odd):
      return math.nan
    if not 0 <= q <= 1:
      raise ValueError("Quantiles must be in the range [0, 1]")
    xs = _sorted([v for v in xs
                  if not (isinstance(v, float) and not math.isfinite(v))])
    if odd:
      # what numpy does, on stand-ins in the same order
      below = [v for v in odd if v < 0]
      above = [v for v in odd if v > 0]
      with np.errstate(all="ignore"):
        r = np.quantile(np.array(
            below + [float(i) for i in range(len(xs))] + above), float(q))
      if not math.isfinite(r):
        return r
      xs = below + xs + above
    pos = fractions.Fraction(q) * (len(xs) - 1)
    lo = int(pos)
    if lo == pos:
      return xs[lo]
    t = pos - lo
    return xs[lo] + (xs[lo + 1] - xs[lo]) * t

  @staticmethod
  def var(x, ddof=0, **k):
    if k:
      raise core.Unsupported("np.var options")
    if not _anysym(x):
      return np.var(np.asarray(x, dtype=float), ddof=ddof)
    xs = list(toarr(x).reshape(-1))
    if len(xs) - ddof <= 0:
      return math.nan
    m = _suml(xs) / len(xs)
    return _suml([(v - m) * (v - m) for v in xs]) / (len(xs) - ddof)

  @staticmethod
  def argmin(x, axis=None, **k):
    if not _anysym(x):
      return np.argmin(x, axis=axis, **k)
    def f(xs):
      b = 0
      for i in range(1, len(xs)):
        if xs[i] < xs[b]:
          b = i
      return b
    r = _reduce(toarr(x), axis, f)
    return r.astype(int) if isinstance(r, np.ndarray) else r

  @staticmethod
  def argmax(x, axis=None, **k):
    if not _anysym(x):
      return np.argmax(x, axis=axis, **k)
    def f(xs):
      b = 0
      for i in range(1, len(xs)):
        if xs[i] > xs[b]:
          b = i
      return b
    r = _reduce(toarr(x), axis, f)
    return r.astype(int) if isinstance(r, np.ndarray) else r

  @staticmethod
  def all(x, axis=None, **k):
    if not _anysym(x):
      return np.all(x, axis=axis, **k)
    return _reduce(toarr(x), axis, lambda xs: core.sym_and(*xs))

  @staticmethod
  def any(x, axis=None, **k):
    if not _anysym(x):
      return np.any(x, axis=axis, **k)
    return _reduce(toarr(x), axis, lambda xs: core.sym_or(*xs))

  @staticmethod
  def cumsum(x, **k):
    if not _anysym(x):
      return np.cumsum(x, **k)
    a = toarr(x)
    out = np.empty(a.shape, dtype=object)
    acc = 0
    for i in range(a.shape[0]):
      acc = acc + a[i]
      out[i] = acc
    return out

  # element-wise ---------------------------------------------------------------
  minimum = fmin = _UFunc(np.minimum, core.sym_min2)
  maximum = fmax = _UFunc(np.maximum, core.sym_max2)

  @staticmethod
  def abs(x):
    if not _anysym(x):
      return np.abs(x)
    return _ew(abs, x)

  absolute = abs
  fabs = abs

  @staticmethod
  def isinf(x):
    if not _anysym(x):
      return np.isinf(x)
    return _boolarr(_ew(
        lambda e: False if isinstance(e, Sym) else math.isinf(e), x))

  @staticmethod
  def isnan(x):
    if not _anysym(x):
      return np.isnan(x)
    return _boolarr(_ew(
        lambda e: False if isinstance(e, Sym) else math.isnan(e), x))

  @staticmethod
  def isfinite(x):
    if not _anysym(x):
      return np.isfinite(x)
    return _boolarr(_ew(
        lambda e: True if isinstance(e, Sym) else math.isfinite(e), x))

  @staticmethod
  def where(c, *ab):
    if not ab:
      if isinstance(c, np.ndarray) and c.dtype == object:
        c = np.array([bool(e) for e in c.reshape(-1)]).reshape(c.shape)
      return np.where(c)
    a, b = ab
    if not _anysym(c, a, b):
      return _objectify(np.where(c, a, b))
    return _ew(core.ite, c, a, b)

  @staticmethod
  def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not _anysym(a, b):
      return np.allclose(a, b, rtol=rtol, atol=atol)
    r = _ew(lambda x, y: (x == y) if is_inf(x) or is_inf(y)
            else abs(x - y) <= atol + rtol * abs(y), a, b)
    return NP.all(r)

  @staticmethod
  def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not _anysym(a, b):
      return np.isclose(a, b, rtol=rtol, atol=atol)
    return _ew(lambda x, y: (x == y) if is_inf(x) or is_inf(y) else
               abs(x - y) <= atol + rtol * abs(y), a, b)

  @staticmethod
  def array_equal(a, b, **k):
    a, b = toarr(a), toarr(b)
    if a.shape != b.shape:
      return False
    return NP.all(_ew(lambda x, y: x == y, a, b))

  @staticmethod
  def logical_not(x):
    if not _anysym(x):
      return np.logical_not(x)
    return _boolarr(_ew(core.sym_not, x))

  logical_and = _UFunc(np.logical_and, core.sym_and)
  logical_or = _UFunc(np.logical_or, core.sym_or)

  @staticmethod
  def isposinf(x):
    return NP.logical_and(NP.isinf(x), np.asarray(x) == math.inf)

  @staticmethod
  def isneginf(x):
    return NP.logical_and(NP.isinf(x), np.asarray(x) == -math.inf)

  @staticmethod
  def median(x, **k):
    return NP.quantile(x, 0.5, **k)

  @staticmethod
  def percentile(x, q, **k):
    return NP.quantile(x, fractions.Fraction(q) / 100 if not (
        isinstance(q, float)) else q / 100, **k)

  @staticmethod
  def average(x, axis=None, weights=None, **k):
    if not _anysym(x, weights):
      return np.average(x, axis=axis, weights=weights, **k)
    if weights is None:
      return NP.mean(x, axis=axis)
    if axis is not None and toarr(x).ndim > 1 or k:
      raise core.Unsupported("np.average options")
    w = toarr(weights)
    return _suml(list((toarr(x) * w).reshape(-1))) / _suml(
        list(w.reshape(-1)))

  @staticmethod
  def exp(x):
    if _anysym(x):
      from sx import runtime  # pylint: disable=g-import-not-at-top
      if isinstance(x, Sym):
        return runtime.m_exp(x)
      return _ew(runtime.m_exp, x)
    return np.exp(x)

  @staticmethod
  def log(x):
    if _anysym(x):
      from sx import runtime  # pylint: disable=g-import-not-at-top
      if isinstance(x, Sym):
        return runtime.m_log(x)
      return _ew(runtime.m_log, x)
    return np.log(x)

  @staticmethod
  def clip(x, lo, hi, **k):
    if not _anysym(x, lo, hi):
      return np.clip(x, lo, hi)
    return NP.minimum(NP.maximum(x, lo), hi)


NP = _NP()
