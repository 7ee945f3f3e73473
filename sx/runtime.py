"""Runtime support called from the rewritten sources (see sx.transform)."""
import builtins
import functools
import html
import itertools
import math
import operator
import re
import time as _time
import types

import numpy as np

from sx import core
from sx import npshim
from sx import regex
from sx import strings
from sx.core import Sym, SymBool, SymNum
from sx.strings import SymStr, is_strlike

# ---------------------------------------------------------------- functions --
FUNCTIONS_SEEN = set()


def enter(name):
  FUNCTIONS_SEEN.add(name)


# --------------------------------------------------------------- containers --
def has_sym(x, depth=0):
  """Whether x, used as a key / formatted value, contains symbolic parts."""
  if isinstance(x, Sym):
    return True
  if isinstance(x, tuple):
    return any(has_sym(e, depth + 1) for e in x)
  return False


class _Cell:
  """Dict key holding a symbolic value (identity-hashed)."""
  __slots__ = ("key",)

  def __init__(self, key):
    self.key = key


_MISSING = object()


class SDict(dict):
  """dict that resolves symbolic keys by solver-decided comparison."""

  __slots__ = ("nsym",)

  def __init__(self, *a, **k):
    super().__init__()
    self.nsym = 0
    if a:
      src = a[0]
      if isinstance(src, dict):
        src = list(src.items())
      elif hasattr(src, "keys"):
        src = [(kk, src[kk]) for kk in src.keys()]
      for kk, v in src:
        self[kk] = v
    for kk, v in k.items():
      self[kk] = v

  # Typed-container compatibility.
  @classmethod
  def empty(cls, key_type=None, value_type=None, **_):
    return cls()

  def _find(self, key):
    """Raw stored key equal to `key`, or _MISSING."""
    if self.nsym == 0 and not has_sym(key):
      return key if dict.__contains__(self, key) else _MISSING
    if not has_sym(key) and dict.__contains__(self, key):
      return key
    for raw in list(dict.keys(self)):
      k = raw.key if isinstance(raw, _Cell) else raw
      if k is key:
        return raw
      e = key_eq(k, key)
      if e is False:
        continue
      if e is True or e:
        return raw
    return _MISSING

  def __contains__(self, key):
    return self._find(key) is not _MISSING

  def __getitem__(self, key):
    raw = self._find(key)
    if raw is _MISSING:
      m = getattr(type(self), "__missing__", None)
      if m is not None:
        return m(self, key)
      raise KeyError(key)
    return dict.__getitem__(self, raw)

  def __setitem__(self, key, value):
    raw = self._find(key)
    if raw is _MISSING:
      if has_sym(key):
        raw = _Cell(key)
        self.nsym += 1
      else:
        raw = key
    dict.__setitem__(self, raw, value)

  def __delitem__(self, key):
    raw = self._find(key)
    if raw is _MISSING:
      raise KeyError(key)
    if isinstance(raw, _Cell):
      self.nsym -= 1
    dict.__delitem__(self, raw)

  def get(self, key, default=None):
    raw = self._find(key)
    return default if raw is _MISSING else dict.__getitem__(self, raw)

  def setdefault(self, key, default=None):
    raw = self._find(key)
    if raw is _MISSING:
      self[key] = default
      return default
    return dict.__getitem__(self, raw)

  def pop(self, key, *d):
    raw = self._find(key)
    if raw is _MISSING:
      if d:
        return d[0]
      raise KeyError(key)
    if isinstance(raw, _Cell):
      self.nsym -= 1
    return dict.pop(self, raw)

  def update(self, *a, **k):
    for kk, v in SDict(*a, **k).items():
      self[kk] = v

  def __iter__(self):
    for raw in dict.__iter__(self):
      yield raw.key if isinstance(raw, _Cell) else raw

  def keys(self):
    if self.nsym == 0:
      return dict.keys(self)
    return list(iter(self))

  def items(self):
    if self.nsym == 0:
      return dict.items(self)
    return [(raw.key if isinstance(raw, _Cell) else raw, v)
            for raw, v in dict.items(self)]

  def copy(self):
    return SDict(self)

  def __eq__(self, o):
    if not isinstance(o, dict) or len(self) != len(o):
      return False
    o = o if isinstance(o, SDict) else SDict(o)
    for k, v in self.items():
      raw = o._find(k)
      if raw is _MISSING or not v == dict.__getitem__(o, raw):
        return False
    return True

  def __ne__(self, o):
    return not self == o

  __hash__ = None

  def __or__(self, o):
    r = SDict(self)
    r.update(o)
    return r

  def __ror__(self, o):
    r = SDict(o)
    r.update(self)
    return r

  def __ior__(self, o):
    self.update(o)
    return self

  def __reduce__(self):
    return (SDict, (list(self.items()),))


class SSet:
  """set that resolves symbolic members by solver-decided comparison."""

  def __init__(self, it=()):
    self._d = SDict()
    for x in it:
      self._d[x] = True

  def add(self, x):
    self._d[x] = True

  def discard(self, x):
    self._d.pop(x, None)

  def remove(self, x):
    del self._d[x]

  def update(self, *its):
    for it in its:
      for x in it:
        self.add(x)

  def __contains__(self, x):
    return x in self._d

  def __iter__(self):
    return iter(list(self._d))

  def __len__(self):
    return len(self._d)

  def __bool__(self):
    return bool(len(self._d))

  def pop(self):
    x = next(iter(self._d))
    del self._d[x]
    return x

  def clear(self):
    self._d = SDict()

  def copy(self):
    return SSet(self)

  def union(self, *o):
    r = SSet(self)
    r.update(*o)
    return r

  def __or__(self, o):
    return self.union(o)

  __ror__ = __or__

  def __ior__(self, o):
    self.update(o)
    return self

  def intersection(self, o):
    o = o if isinstance(o, SSet) else SSet(o)
    return SSet(x for x in self if x in o)

  __and__ = intersection

  def difference(self, o):
    o = o if isinstance(o, SSet) else SSet(o)
    return SSet(x for x in self if x not in o)

  __sub__ = difference

  def __rsub__(self, o):
    return SSet(x for x in o if x not in self)

  def symmetric_difference(self, o):
    o = o if isinstance(o, SSet) else SSet(o)
    return self.difference(o).union(o.difference(self))

  __xor__ = symmetric_difference

  def issubset(self, o):
    o = o if isinstance(o, SSet) else SSet(o)
    return all(x in o for x in self)

  __le__ = issubset

  def issuperset(self, o):
    return all(x in self for x in o)

  __ge__ = issuperset

  def isdisjoint(self, o):
    return not any(x in self for x in o)

  def __lt__(self, o):
    return len(self) < len(o) and self <= o

  def __eq__(self, o):
    if not isinstance(o, (SSet, set, frozenset)):
      return False
    o = o if isinstance(o, SSet) else SSet(o)
    return len(self) == len(o) and self <= o

  def __hash__(self):
    return hash(frozenset(self))


def key_eq(a, b):
  """Equality of two dict keys: bool or SymBool, without forking."""
  if isinstance(a, tuple) and isinstance(b, tuple):
    if len(a) != len(b):
      return False
    return core.sym_and(*[key_eq(x, y) for x, y in zip(a, b)])
  if isinstance(a, Sym) or isinstance(b, Sym):
    if is_strlike(a) != is_strlike(b):
      return False
    return a == b
  return a == b


def mkdict(pairs):
  d = SDict()
  for is_star, k, v in pairs:
    if is_star:
      d.update(v)
    else:
      d[k] = v
  return d


def contains(container, x):
  """`x in container`."""
  if isinstance(container, SymStr):
    return container.contains(x)
  if isinstance(container, str):
    if isinstance(x, SymStr):
      return strings.lift(container).contains(x)
    return x in container
  if isinstance(container, (tuple, list)) and isinstance(x, Sym):
    rs = []
    for e in container:
      if e is x:
        return True
      r = (x == e)
      if r is True:
        return True
      rs.append(r)
    return core.sym_or(*rs)
  if isinstance(container, (set, frozenset)) and has_sym(x):
    rs = [key_eq(e, x) for e in _stable(container)]
    return core.sym_or(*rs)
  if type(container) is dict and has_sym(x):
    return core.sym_or(*[key_eq(e, x) for e in container])
  if isinstance(container, (type({}.keys()),)) and has_sym(x):
    return core.sym_or(*[key_eq(e, x) for e in container])
  if isinstance(container, range) and isinstance(x, SymNum):
    if container.step == 1:
      return core.sym_and(x >= container.start, x < container.stop)
    return core.sym_or(*[x == e for e in container])
  return x in container


def _stable(s):
  return sorted(s, key=repr)


def getitem(c, k):
  if isinstance(c, dict) and not isinstance(c, SDict) and has_sym(k):
    for kk, v in c.items():
      if key_eq(kk, k):
        return v
    raise KeyError(k)
  return c[k]


# ------------------------------------------------------------------ strings --
def to_str(x=""):
  if isinstance(x, SymStr):
    return x
  if isinstance(x, SymNum):
    return num_str(x)
  if isinstance(x, SymBool):
    return "True" if x else "False"
  return str(x)


def num_str(x):
  """Opaque text standing for a symbolic number; ctx.number reads it back."""
  toks = core.ENGINE.num_tokens
  for i, t in enumerate(toks):
    if t.eq(x.t):
      break
  else:
    i = len(toks)
    toks.append(x.t)
  return "\ue000%d\ue001" % i


def fmt_value(v, conv, spec):
  if conv == "r":
    v = sym_repr(v)
  elif conv in ("s", "a"):
    v = to_str(v)
  if isinstance(v, SymStr):
    if not spec:
      return v
    return v.concrete().__format__(spec)
  if isinstance(v, (SymNum, SymBool)):
    return to_str(v)
  return format(v, spec)


def sym_repr(v):
  """repr; exact for symbolic text (inside containers it stays opaque)."""
  if isinstance(v, SymStr):
    return strings.LazyStr(v.exact_repr)
  return repr(v)


_PERCENT = re.compile(r"%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])")


def mod(a, b):
  """a % b; a template may be filled with symbolic values."""
  if not isinstance(a, str):
    return a % b
  args = b if isinstance(b, tuple) else (b,)
  if not (has_sym(args) or isinstance(b, dict) and
          any(has_sym(v) for v in b.values())):
    return a % b
  out = []
  at = used = 0
  for m in _PERCENT.finditer(a):
    out.append(a[at:m.start()])
    at = m.end()
    if m.group(3) == "%":
      out.append("%")
      continue
    if m.group(1) is not None:
      v = b[m.group(1)]
    else:
      v = args[used]
      used += 1
    if has_sym(v):
      out.append(fmt_value(v, "r" if m.group(3) == "r" else "s", ""))
    else:
      out.append(("%" + m.group(2) + m.group(3)) % (v,))
  out.append(a[at:])
  return strings.join("", out)


def fstr(parts):
  out = []
  symbolic = False
  for p in parts:
    if isinstance(p, str):
      out.append(p)
    else:
      s = fmt_value(*p)
      symbolic = symbolic or isinstance(s, SymStr)
      out.append(s)
  if symbolic:
    for s in out:
      if isinstance(s, strings.LazyStr):
        return strings.LazyStr(lambda: strings.join("", out))
    return strings.join("", out)
  return "".join(out)


# ----------------------------------------------------------------- builtins --
def b_len(x):
  return len(x)


def _iter_args(args, kw):
  if len(args) == 1:
    return list(args[0])
  return list(args)


def _pick(args, kw, better, num):
  key = kw.get("key")
  items = _iter_args(args, kw)
  if not items:
    if "default" in kw:
      return kw["default"]
    raise ValueError("arg is an empty sequence")
  if key is None and all(core.is_num(x) for x in items):
    r = items[0]
    for x in items[1:]:
      r = num(r, x)
    return r
  best = items[0]
  bk = best if key is None else call(key, best)
  for x in items[1:]:
    xk = x if key is None else call(key, x)
    if better(xk, bk):
      best, bk = x, xk
  return best


def b_min(*args, **kw):
  return _pick(args, kw, lambda a, b: a < b, core.sym_min2)


def b_max(*args, **kw):
  return _pick(args, kw, lambda a, b: a > b, core.sym_max2)


def b_sum(it, start=0):
  r = start
  for x in it:
    r = r + x
  return r


def b_any(it):
  acc = []
  for x in it:
    if isinstance(x, SymBool):
      acc.append(x)
    elif isinstance(x, Sym):
      acc.append(core.mk_bool(core.as_bool_term(x)) if isinstance(x, SymNum)
                 else bool(x))
    elif x:
      return True
  return core.sym_or(*acc) if acc else False


def b_all(it):
  # Short-circuits by forking, as Python would: later elements may only be
  # defined when earlier ones hold.
  for x in it:
    if not x:
      return False
  return True


def b_isinstance(x, cls):
  if isinstance(x, Sym):
    classes = cls if isinstance(cls, tuple) else (cls,)
    if isinstance(cls, types.UnionType):
      classes = cls.__args__
    for c in classes:
      if isinstance(c, tuple):
        if b_isinstance(x, c):
          return True
      elif isinstance(x, SymStr):
        if c is str or c is object:
          return True
      elif isinstance(x, SymBool):
        if c in (bool, int, object):
          return True
      elif isinstance(x, SymNum):
        if c is object:
          return True
        if x.is_int and c is int:
          return True
        if not x.is_int and c in (float, np.floating, np.float64):
          return True
      if c is type(x):
        return True
    return False
  if isinstance(x, SSet):
    classes = cls if isinstance(cls, tuple) else (cls,)
    if any(c in (set, frozenset) for c in classes):
      return True
  return isinstance(x, cls)


def b_type(*a):
  if len(a) == 1:
    x = a[0]
    if isinstance(x, SymStr):
      return str
    if isinstance(x, SymBool):
      return bool
    if isinstance(x, SymNum):
      return int if x.is_int else float
    if isinstance(x, SDict):
      return dict
    if isinstance(x, SSet):
      return set
  return type(*a)


def b_int(x=0, *a):
  if isinstance(x, SymNum):
    return x if x.is_int else x.__trunc__()
  if isinstance(x, SymBool):
    return core.as_num(x)
  if isinstance(x, SymStr):
    return int(x.concrete(), *a)
  return int(x, *a)


def b_float(x=0.0):
  if isinstance(x, SymNum):
    return core.mk_num(core._real(x.t)) if x.is_int else x
  if isinstance(x, SymBool):
    return core.as_num(x)
  if isinstance(x, SymStr):
    return float(x.concrete())
  if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
    return b_float(x.reshape(-1)[0])
  return float(x)


def b_bool(x=False):
  if isinstance(x, SymBool):
    return x
  if isinstance(x, SymNum):
    return core.mk_bool(x.t != 0)
  return bool(x)


def b_abs(x):
  return abs(x)


def b_ord(c):
  if isinstance(c, SymStr):
    if len(c) != 1:
      raise TypeError("ord() expected a character")
    return core.SymNum(c.chars[0])
  return ord(c)


def b_chr(n):
  if isinstance(n, SymNum):
    return strings.mk((n.t,))
  return chr(n)


def b_map(f, *its):
  return (call(f, *xs) for xs in zip(*its))


def b_filter(f, it):
  if f is None:
    return (x for x in it if x)
  return (x for x in it if call(f, x))


def b_print(*a, **k):
  """Silent, unless the harness redirects the output of concrete text."""
  import io
  import sys
  if isinstance(sys.stdout, io.StringIO):
    print(*[to_str(x) for x in a], **k)


def b_round(x, nd=None):
  if isinstance(x, SymNum):
    return x.__round__(nd)
  return round(x) if nd is None else round(x, nd)


def b_set(it=()):
  items = list(it)
  if any(has_sym(x) for x in items) or core.ENGINE is not None and core.ENGINE.active:
    return SSet(items)
  return set(items)


def b_frozenset(it=()):
  items = list(it)
  if any(has_sym(x) for x in items):
    return SSet(items)
  return frozenset(items)


def b_dict(*a, **k):
  return SDict(*a, **k)


def b_sorted(it, key=None, reverse=False):
  # Python-level insertion sort keeps comparisons solver-decided and stable.
  items = list(it)
  keys = [x if key is None else call(key, x) for x in items]
  if not any(has_sym(k) for k in keys):
    return sorted(items, key=key, reverse=reverse)
  return sorted(items, key=key, reverse=reverse)


def b_repr(x):
  return sym_repr(x)


def b_format(x, spec=""):
  return fmt_value(x, None, spec)


def b_hash(x):
  return hash(x)


def _str_method(name):
  def run(self, *a, **k):
    if name == "join":
      items = list(a[0])
      if any(isinstance(x, SymStr) for x in items):
        return strings.join(self, items)
      return self.join(items)
    if name == "format":
      return _str_format(self, a, k)
    if any(isinstance(x, Sym) for x in a) or any(
        isinstance(x, tuple) and has_sym(x) for x in a):
      m = getattr(strings.lift(self), name, None)
      if m is None:
        raise core.Inconclusive("str.%s with symbolic argument" % name)
      return m(*a, **k)
    return getattr(self, name)(*a, **k)
  return run


def _str_format(self, a, k):
  if not any(has_sym(x) for x in a) and not any(
      has_sym(x) for x in k.values()):
    return self.format(*a, **k)
  import string as _s
  out = []
  auto = 0
  for lit, field, spec, conv in _s.Formatter().parse(self):
    out.append(lit)
    if field is None:
      continue
    if field == "":
      v = a[auto]
      auto += 1
    elif field.isdigit():
      v = a[int(field)]
    elif field in k:
      v = k[field]
    else:
      v, _ = _s.Formatter().get_field(field, a, k)
    out.append(fmt_value(v, conv, spec or ""))
  return strings.join("", out)


_STR_METHODS = {n: _str_method(n) for n in dir(str) if not n.startswith("__")}

_PATTERN_METHODS = {
    "match": regex.match,
    "fullmatch": regex.fullmatch,
    "search": regex.search,
    "finditer": regex.finditer,
    "findall": regex.findall,
    "split": lambda p, s, maxsplit=0: regex.split(p, s, maxsplit),
}


def _pattern_call(name, pat, a, k):
  if name == "sub":
    return regex.sub(pat, a[0], a[1], *a[2:], **k)
  if name in ("match", "search", "fullmatch") and len(a) > 1:
    return _PATTERN_METHODS[name](pat, a[0], 0, *a[1:])
  return _PATTERN_METHODS[name](pat, *a, **k)


def _re_fn(real, name):
  def run(*a, **k):
    if name == "sub":
      if isinstance(a[2], SymStr):
        return regex.sub(*a, **k)
    elif any(isinstance(x, SymStr) for x in a[1:]) or isinstance(
        k.get("string"), SymStr):
      return getattr(regex, name)(*a, **k)
    return real(*a, **k)
  return run


def _exp_pair(x, y):
  """Relates x and y = exp(x) to every earlier such pair of the path.

  exp is encoded by what orders need: it is positive, strictly increasing and
  exp(0) = 1.
  """
  eng = core.ENGINE
  pairs = eng.exp_pairs
  conds = [y > 0, (x < 0) == (y < 1), (x > 0) == (y > 1)]
  for a, b in pairs:
    conds += [(a < x) == (b < y), (a > x) == (b > y)]
  pairs.append((x, y))
  eng.assume(core.z3.And(conds))


def m_exp(x):
  if not isinstance(x, SymNum):
    return math.exp(x)
  t = core.z3.simplify(core.num_term(x * 1.0))
  for a, b in core.ENGINE.exp_pairs:
    if a.eq(t):
      return core.mk_num(b)
  y = core.z3.Real("exp!%d" % len(core.ENGINE.exp_pairs))
  _exp_pair(t, y)
  return core.mk_num(y)


def m_log(x, *a):
  if not isinstance(x, SymNum):
    return math.log(x, *a)
  if a:
    raise core.Inconclusive("log of symbolic to a base")
  if x <= 0:
    raise ValueError("math domain error")
  t = core.z3.simplify(core.num_term(x * 1.0))
  for p, b in core.ENGINE.exp_pairs:
    if b.eq(t):
      return core.mk_num(p)
  y = core.z3.Real("log!%d" % len(core.ENGINE.exp_pairs))
  _exp_pair(y, t)
  return core.mk_num(y)


def m_isinf(x):
  return False if isinstance(x, Sym) else math.isinf(x)


def m_isnan(x):
  return False if isinstance(x, Sym) else math.isnan(x)


def m_isfinite(x):
  return True if isinstance(x, Sym) else math.isfinite(x)


def m_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
  if isinstance(a, Sym) or isinstance(b, Sym):
    d = abs(a - b)
    m = core.sym_max2(abs(a), abs(b))
    return d <= core.sym_max2(m * rel_tol, abs_tol)
  return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def m_floor(x):
  return x.__floor__() if isinstance(x, SymNum) else math.floor(x)


def m_ceil(x):
  return x.__ceil__() if isinstance(x, SymNum) else math.ceil(x)


def f_reduce(f, it, *init):
  it = iter(it)
  acc = init[0] if init else next(it)
  for x in it:
    acc = call(f, acc, x)
  return acc


def o_contains(a, b):
  return contains(a, b)


def np_seterr(*a, **k):
  return {}


def f_partial(f, *a, **k):
  if f in OVERRIDES_SAFE:
    return lambda *b, **kk: call(f, *a, *b, **{**k, **kk})
  return functools.partial(f, *a, **k)


CLOCK = {"fn": None}


def t_time():
  if CLOCK["fn"] is not None:
    return CLOCK["fn"]()
  return _time.time()


OVERRIDES = {
    len: b_len, min: b_min, max: b_max, sum: b_sum, any: b_any, all: b_all,
    isinstance: b_isinstance, type: b_type, int: b_int, float: b_float,
    bool: b_bool, ord: b_ord, chr: b_chr, map: b_map, filter: b_filter,
    print: b_print, round: b_round, set: b_set, frozenset: b_frozenset,
    dict: b_dict, sorted: b_sorted, repr: b_repr, str: to_str,
    format: b_format,
    re.finditer: _re_fn(re.finditer, "finditer"),
    re.findall: _re_fn(re.findall, "findall"),
    re.match: _re_fn(re.match, "match"),
    re.search: _re_fn(re.search, "search"),
    re.fullmatch: _re_fn(re.fullmatch, "fullmatch"),
    re.split: _re_fn(re.split, "split"),
    re.sub: _re_fn(re.sub, "sub"),
    math.log: m_log, math.exp: m_exp, math.isinf: m_isinf, math.isnan: m_isnan,
    math.isfinite: m_isfinite, math.isclose: m_isclose,
    math.floor: m_floor, math.ceil: m_ceil,
    math.fsum: b_sum,
    np.float64: b_float, np.float32: b_float,
    functools.reduce: f_reduce,
    operator.contains: o_contains,
    _time.time: t_time, _time.monotonic: t_time, _time.perf_counter: t_time,
}
OVERRIDES_SAFE = set(OVERRIDES)
OVERRIDES[functools.partial] = f_partial

_BUILTIN_TS = (type(len), type(re.compile("a").match))
_METHOD_DESCR = type(str.join)


def call(f, *a, **k):
  t = type(f)
  if t is types.FunctionType or t is types.MethodType:
    o = OVERRIDES.get(f) if t is types.FunctionType else None
    if o is not None:
      return o(*a, **k)
    return f(*a, **k)
  if t in _BUILTIN_TS:
    s = f.__self__
    ts = type(s)
    if ts is str:
      m = _STR_METHODS.get(f.__name__)
      if m is not None:
        return m(s, *a, **k)
    elif ts is re.Pattern:
      if any(isinstance(x, SymStr) for x in a):
        return _pattern_call(f.__name__, s, a, k)
    elif ts is np.ndarray:
      r = npshim.array_method(s, f.__name__, a, k)
      if r is not NotImplemented:
        return r
    elif ts is list and f.__name__ == "sort":
      s[:] = b_sorted(s, **k)
      return None
  elif t is _METHOD_DESCR:
    if f.__objclass__ is str and a and isinstance(a[0], SymStr):
      return getattr(a[0], f.__name__)(*a[1:], **k)
    if f.__objclass__ is str and a and isinstance(a[0], str):
      m = _STR_METHODS.get(f.__name__)
      if m is not None:
        return m(*a, **k)
  try:
    o = OVERRIDES.get(f)
  except TypeError:
    o = None
  if o is not None:
    return o(*a, **k)
  return f(*a, **k)
