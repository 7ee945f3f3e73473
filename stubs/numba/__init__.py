"""Stand-in for numba (not installed here): jitted code runs as plain Python.

Every decorator is the identity; typed containers are list / dict subclasses;
types are opaque values.  `OVERLOADS` keeps the functions registered as numba
overloads so that checks can also run those implementations.
"""
import contextlib
import sys
import types as _pytypes

OVERLOADS = {}


def _is_symbolic():
  m = sys.modules.get("sx.transform")
  return bool(m is not None and m.SYMBOLIC)


class Type:
  """Opaque numba type."""

  def __init__(self, name="t"):
    self.name = name
    self.instance_type = self
    self.item_type = self
    self.key_type = self
    self.value_type = self
    self.dtype = self

  def __call__(self, *a, **k):
    # A scalar type called on a value is a cast; on types it is a signature.
    if len(a) == 1 and not k and not isinstance(a[0], (Type, tuple)):
      return a[0]
    return self

  def __getitem__(self, _):
    return self

  def __repr__(self):
    return "<numba type %s>" % self.name


def _decorator(*args, **kwargs):
  if len(args) == 1 and not kwargs and (
      isinstance(args[0], _pytypes.FunctionType)
      or (callable(args[0]) and not isinstance(args[0], (Type, type)))):
    fn = args[0]
    _mark(fn)
    return fn

  def deco(fn):
    _mark(fn)
    return fn

  return deco


def _mark(fn):
  try:
    if not hasattr(fn, "py_func"):
      fn.py_func = fn
  except AttributeError:
    pass


jit = njit = generated_jit = vectorize = cfunc = _decorator


class List(list):
  """numba.typed.List."""

  _numba_type_ = Type("list")

  @classmethod
  def empty_list(cls, item_type=None, allocated=0):
    del item_type, allocated
    return cls()

  def copy(self):
    return List(self)

  def __getitem__(self, i):
    r = list.__getitem__(self, i)
    return List(r) if isinstance(i, slice) else r


def _make_dict():
  if _is_symbolic():
    from sx import runtime
    base = runtime.SDict
  else:
    base = dict

  class Dict(base):
    """numba.typed.Dict."""

    _numba_type_ = Type("dict")

    @classmethod
    def empty(cls, key_type=None, value_type=None, **_):
      return cls()

    def copy(self):
      return Dict(self)

  return Dict


Dict = _make_dict()
typed = _pytypes.SimpleNamespace(List=List, Dict=Dict)


def typeof(x, *_):
  del x
  return Type("typeof")


def optional(t):
  return Type("optional")


class _TypesNS:

  class EnumMember(Type):
    pass

  class IntEnumMember(Type):
    pass

  class TypeRef(Type):
    pass

  class NumberClass(Type):
    pass

  class Literal(Type):
    literal_value = None

  class Optional(Type):
    pass

  class Omitted(Type):
    pass

  class NoneType(Type):
    pass

  Type = Type

  def __getattr__(self, name):
    return Type(name)


types = _TypesNS()


class _TypeofImpl:

  def register(self, *_a, **_k):
    return lambda fn: fn


def _overload(target, *_a, **_k):
  def deco(fn):
    OVERLOADS[getattr(target, "__qualname__", str(target))] = fn
    return fn
  return deco


def _noop_factory(*a, **_k):
  if len(a) == 1 and isinstance(a[0], _pytypes.FunctionType):
    return a[0]
  return lambda fn: fn


extending = _pytypes.SimpleNamespace(
    register_jitable=_decorator,
    overload=_overload,
    overload_method=lambda *a, **k: (lambda fn: fn),
    overload_attribute=lambda *a, **k: (lambda fn: fn),
    intrinsic=_noop_factory,
    typeof_impl=_TypeofImpl(),
)


class _Err(Exception):
  pass


core = _pytypes.SimpleNamespace(
    extending=extending,
    types=types,
    errors=_pytypes.SimpleNamespace(TypingError=_Err, NumbaError=_Err),
    utils=_pytypes.SimpleNamespace(),
)
config = _pytypes.SimpleNamespace()
errors = core.errors


@contextlib.contextmanager
def objmode(*_a, **_k):
  yield


def literal_unroll(x):
  return x


def literally(x):
  return x


prange = range


def __getattr__(name):
  if name.startswith("__"):
    raise AttributeError(name)
  return Type(name)
