"""Symbolic strings: concrete length, symbolic code points."""
import functools
import re

import z3

from sx import core
from sx.core import SymBool, Sym, mk_bool

_PREDS = {
    "isupper": str.isupper,
    "islower": str.islower,
    "isdigit": str.isdigit,
    "isspace": str.isspace,
    "isalpha": str.isalpha,
    "isalnum": str.isalnum,
    "isdecimal": str.isdecimal,
    "isnumeric": str.isnumeric,
    "isidentifier": str.isidentifier,
    "identcont": lambda c: ("a" + c).isidentifier(),
    "isprintable": str.isprintable,
    "isascii": str.isascii,
    "\\s": lambda c: re.match(r"\s", c) is not None,
    "\\d": lambda c: re.match(r"\d", c) is not None,
    "\\w": lambda c: re.match(r"\w", c) is not None,
    "linebreak": lambda c: c in "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029",
}

REPS = 2  # representatives per class of non-ASCII code points


@functools.lru_cache(None)
def domain():
  """Code points a symbolic character ranges over (stated bound).

  All of ASCII, plus REPS representatives of every class of non-ASCII code
  points (up to 0xFFFF) that str predicates and \\s \\d \\w can distinguish,
  plus one astral code point.
  """
  out = list(range(128))
  count = {}
  for cp in range(128, 0xD800):
    c = chr(cp)
    sig = tuple(bool(p(c)) for p in _PREDS.values())
    k = count.get(sig, 0)
    if k < REPS:
      count[sig] = k + 1
      out.append(cp)
  out.append(0x1F600)
  return tuple(sorted(out))


def ranges_on_domain(pred):
  """Ranges equal to `pred` for every code point of domain()."""
  out = []
  start = prev = None
  for cp in domain():
    if pred(cp):
      if start is None:
        start = cp
      prev = cp
    elif start is not None:
      out.append((start, prev))
      start = None
  if start is not None:
    out.append((start, prev))
  return tuple(out)


class CharSet:
  """A set of characters: exact test for concrete, ranges for symbolic."""

  __slots__ = ("test", "ranges", "_memo")

  def __init__(self, test):
    self.test = test
    self.ranges = ranges_on_domain(test)
    self._memo = {}

  def has(self, c):
    if isinstance(c, int):
      return self.test(c)
    key = c.get_id()
    hit = self._memo.get(key)
    if hit is not None:
      return hit[1]
    ts = []
    for lo, hi in self.ranges:
      ts.append(c == lo if lo == hi else z3.And(c >= lo, c <= hi))
    r = mk_bool(z3.Or(*ts)) if ts else False
    self._memo[key] = (c, r)
    return r


@functools.lru_cache(None)
def char_class(name):
  pred = _PREDS[name]
  return CharSet(lambda cp: bool(pred(chr(cp))))


@functools.lru_cache(None)
def _domain_runs():
  out = []
  for cp in domain():
    if out and out[-1][1] == cp - 1:
      out[-1][1] = cp
    else:
      out.append([cp, cp])
  return out


def in_domain(v):
  return z3.Or(*[
      v == lo if lo == hi else z3.And(v >= lo, v <= hi)
      for lo, hi in _domain_runs()])


def ceq(a, b):
  """Equality of two code points."""
  if isinstance(a, int):
    if isinstance(b, int):
      return a == b
    a, b = b, a
  key = (a.get_id(), b if isinstance(b, int) else (b.get_id(),))
  hit = _CEQ.get(key)
  if hit is None:
    hit = _CEQ[key] = (a, b, mk_bool(a == b))
  return hit[2]


_CEQ = {}  # keeps its terms alive, so ids stay unique


def mk(chars):
  chars = tuple(chars)
  for c in chars:
    if not isinstance(c, int):
      return SymStr(chars)
  return "".join(map(chr, chars))


def chars_of(s):
  if isinstance(s, SymStr):
    return s.chars
  return tuple(map(ord, s))


def is_strlike(x):
  return isinstance(x, (str, SymStr))


def lift(s):
  return s if isinstance(s, SymStr) else SymStr(chars_of(s))


class SymStr(Sym):
  """A str whose characters may be symbolic."""

  __slots__ = ("chars",)

  def __init__(self, chars):
    self.chars = tuple(chars)

  def __len__(self):
    return len(self.chars)

  def __bool__(self):
    return bool(self.chars)

  def __iter__(self):
    for c in self.chars:
      yield mk((c,))

  def __getitem__(self, i):
    if isinstance(i, slice):
      return mk(self.chars[i])
    if isinstance(i, int):
      return mk((self.chars[i],))
    return mk((self.chars[i.__index__()],))

  def __add__(self, o):
    if not is_strlike(o):
      return NotImplemented
    return mk(self.chars + chars_of(o))

  def __radd__(self, o):
    if not is_strlike(o):
      return NotImplemented
    return mk(chars_of(o) + self.chars)

  def __mul__(self, n):
    return mk(self.chars * n.__index__())

  __rmul__ = __mul__

  def __eq__(self, o):
    if not is_strlike(o):
      return False
    oc = chars_of(o)
    if len(oc) != len(self.chars):
      return False
    return core.sym_and(*[ceq(a, b) for a, b in zip(self.chars, oc)])

  def __ne__(self, o):
    return core.sym_not(self == o)

  def _lt(self, o, strict):
    a, b = self.chars, chars_of(o)
    for x, y in zip(a, b):
      if ceq(x, y):
        continue
      if isinstance(x, int) and isinstance(y, int):
        return x < y
      return mk_bool(x < y)
    return len(a) < len(b) if strict else len(a) <= len(b)

  def __lt__(self, o):
    return self._lt(o, True)

  def __le__(self, o):
    return self._lt(o, False)

  def __gt__(self, o):
    return core.sym_not(self._lt(o, False))

  def __ge__(self, o):
    return core.sym_not(self._lt(o, True))

  def concrete(self):
    return "".join(
        chr(c if isinstance(c, int) else core.ENGINE.concretize(c))
        for c in self.chars)

  def __hash__(self):
    return hash(self.concrete())

  def __str__(self):
    return self.concrete()

  def __repr__(self):
    return "'" + "".join(
        chr(c) if isinstance(c, int) else "\u00bf" for c in self.chars) + "'"

  def exact_repr(self):
    """What repr gives, forking on quotes, escapes and unprintables."""
    single = bool(self.contains("'"))
    quote = '"' if single and not bool(self.contains('"')) else "'"
    out = [ord(quote)]
    printable = char_class("isprintable")
    for c in self.chars:
      if isinstance(c, int):
        t = chr(c)
        if t == "'" or t == '"':
          r = "\\" + t if t == quote else t
        else:
          r = repr(t)[1:-1]
        out.extend(ord(x) for x in r)
        continue
      if bool(core.sym_or(ceq(c, ord("\\")), ceq(c, ord(quote)))):
        out.extend([ord("\\"), c])
      elif bool(printable.has(c)):
        out.append(c)
      else:
        r = repr(chr(core.ENGINE.concretize(c)))[1:-1]
        out.extend(ord(x) for x in r)
    out.append(ord(quote))
    return mk(out)

  def __format__(self, spec):
    return self.concrete().__format__(spec)

  def __contains__(self, o):
    return bool(self.contains(o))

  def contains(self, o):
    oc = chars_of(o)
    n, m = len(self.chars), len(oc)
    return core.sym_or(*[
        core.sym_and(*[ceq(self.chars[i + j], oc[j]) for j in range(m)])
        for i in range(n - m + 1)
    ])

  # ------------------------------------------------------------- predicates --
  def _all(self, name):
    if not self.chars:
      return name == "isascii" or name == "isprintable"
    r = char_class(name)
    return core.sym_and(*[r.has(c) for c in self.chars])

  def isspace(self):
    return self._all("isspace")

  def isdigit(self):
    return self._all("isdigit")

  def isdecimal(self):
    return self._all("isdecimal")

  def isnumeric(self):
    return self._all("isnumeric")

  def isalpha(self):
    return self._all("isalpha")

  def isalnum(self):
    return self._all("isalnum")

  def isprintable(self):
    return self._all("isprintable")

  def isascii(self):
    return self._all("isascii")

  def isidentifier(self):
    if not self.chars:
      return False
    r0 = char_class("isidentifier")
    rest = char_class("identcont")
    return core.sym_and(
        r0.has(self.chars[0]), *[rest.has(c) for c in self.chars[1:]])

  def _cased(self, good, bad):
    g, b = char_class(good), char_class(bad)
    return core.sym_and(
        core.sym_or(*[g.has(c) for c in self.chars]),
        *[core.sym_not(b.has(c)) for c in self.chars])

  def isupper(self):
    if len(self.chars) == 1:
      return self._all("isupper")
    return self._cased("isupper", "islower")

  def islower(self):
    if len(self.chars) == 1:
      return self._all("islower")
    return self._cased("islower", "isupper")

  # -------------------------------------------------------------- searching --
  def _match_at(self, oc, i):
    if i < 0 or i + len(oc) > len(self.chars):
      return False
    return core.sym_and(
        *[ceq(self.chars[i + j], oc[j]) for j in range(len(oc))])

  def _bounds(self, start, end):
    n = len(self.chars)
    s, e, _ = slice(start, end).indices(n)
    return s, e

  def startswith(self, p, start=None, end=None):
    if start is not None or end is not None:
      return lift(self[slice(start, end)]).startswith(p)
    if isinstance(p, tuple):
      return core.sym_or(*[self.startswith(q) for q in p])
    return self._match_at(chars_of(p), 0)

  def endswith(self, p, start=None, end=None):
    if start is not None or end is not None:
      return lift(self[slice(start, end)]).endswith(p)
    if isinstance(p, tuple):
      return core.sym_or(*[self.endswith(q) for q in p])
    oc = chars_of(p)
    return self._match_at(oc, len(self.chars) - len(oc))

  def find(self, p, start=None, end=None):
    oc = chars_of(p)
    s, e = self._bounds(start, end)
    for i in range(s, e - len(oc) + 1):
      if self._match_at(oc, i):
        return i
    return -1

  def rfind(self, p, start=None, end=None):
    oc = chars_of(p)
    s, e = self._bounds(start, end)
    for i in range(e - len(oc), s - 1, -1):
      if self._match_at(oc, i):
        return i
    return -1

  def index(self, p, start=None, end=None):
    r = self.find(p, start, end)
    if r < 0:
      raise ValueError("substring not found")
    return r

  def rindex(self, p, start=None, end=None):
    r = self.rfind(p, start, end)
    if r < 0:
      raise ValueError("substring not found")
    return r

  def count(self, p):
    oc = chars_of(p)
    i = k = 0
    while i + len(oc) <= len(self.chars):
      if self._match_at(oc, i):
        k += 1
        i += max(1, len(oc))
      else:
        i += 1
    return k

  def replace(self, old, new, count=-1):
    oc, nc = chars_of(old), chars_of(new)
    if not oc:
      raise core.Inconclusive("replace of empty string")
    out = []
    i = 0
    while i < len(self.chars):
      if count != 0 and self._match_at(oc, i):
        out.extend(nc)
        i += len(oc)
        count -= 1
      else:
        out.append(self.chars[i])
        i += 1
    return mk(out)

  def split(self, sep=None, maxsplit=-1):
    out = []
    if sep is None:
      cur = []
      for k, c in enumerate(self.chars):
        if char_class("isspace").has(c):
          if cur:
            out.append(mk(cur))
            cur = []
        elif maxsplit >= 0 and len(out) >= maxsplit and not cur:
          rest = mk(self.chars[k:])
          out.append(lift(rest).rstrip() if rest else rest)
          return out
        else:
          cur.append(c)
      if cur:
        out.append(mk(cur))
      return out
    oc = chars_of(sep)
    i = last = 0
    while i + len(oc) <= len(self.chars):
      if maxsplit != 0 and self._match_at(oc, i):
        out.append(mk(self.chars[last:i]))
        i += len(oc)
        last = i
        maxsplit -= 1
      else:
        i += 1
    out.append(mk(self.chars[last:]))
    return out

  def splitlines(self, keepends=False):
    brk = char_class("linebreak")
    out = []
    i = last = 0
    n = len(self.chars)
    while i < n:
      if brk.has(self.chars[i]):
        j = i + 1
        if j < n and ceq(self.chars[i], 13) and ceq(self.chars[j], 10):
          j += 1
        out.append(mk(self.chars[last:j if keepends else i]))
        i = last = j
      else:
        i += 1
    if last < n:
      out.append(mk(self.chars[last:]))
    return out

  def partition(self, sep):
    i = self.find(sep)
    if i < 0:
      return self, "", ""
    return self[:i], sep, self[i + len(sep):]

  def rpartition(self, sep):
    i = self.rfind(sep)
    if i < 0:
      return "", "", self
    return self[:i], sep, self[i + len(sep):]

  def _stripset(self, chars):
    if chars is None:
      return char_class("isspace")
    cs = chars_of(chars)
    if not all(isinstance(c, int) for c in cs):
      raise core.Inconclusive("strip with symbolic set")
    return CharSet(lambda cp: cp in cs)

  def lstrip(self, chars=None):
    r = self._stripset(chars)
    i = 0
    while i < len(self.chars) and r.has(self.chars[i]):
      i += 1
    return mk(self.chars[i:])

  def rstrip(self, chars=None):
    r = self._stripset(chars)
    i = len(self.chars)
    while i > 0 and r.has(self.chars[i - 1]):
      i -= 1
    return mk(self.chars[:i])

  def strip(self, chars=None):
    return lift(self.lstrip(chars)).rstrip(chars)

  def removeprefix(self, p):
    return self[len(p):] if self.startswith(p) else self

  def removesuffix(self, p):
    return self[:len(self) - len(p)] if p and self.endswith(p) else self

  def join(self, items):
    return join(self, items)

  def ljust(self, w, fill=" "):
    return mk(self.chars + chars_of(fill) * max(0, w - len(self.chars)))

  def rjust(self, w, fill=" "):
    return mk(chars_of(fill) * max(0, w - len(self.chars)) + self.chars)

  def lower(self):
    return self.concrete().lower()

  def upper(self):
    return self.concrete().upper()

  def encode(self, *a):
    return self.concrete().encode(*a)

  def translate(self, table):
    out = ""
    for i in range(len(self)):
      c = self[i]
      for k in table:
        if c == (chr(k) if isinstance(k, int) else k):
          v = table[k]
          c = "" if v is None else chr(v) if isinstance(v, int) else v
          break
      out = join("", [out, c])
    return out

  def expandtabs(self, *a):
    return self.concrete().expandtabs(*a)

  def __mod__(self, o):
    return self.concrete() % o

  def __rmod__(self, o):
    # '%s' % symstr, simple positional templates only.
    parts = o.split("%s")
    if len(parts) != 2:
      raise core.Inconclusive("% formatting")
    return mk(chars_of(parts[0]) + self.chars + chars_of(parts[1]))

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def format(self, *a, **k):
    return self.concrete().format(*a, **k)


class LazyStr(SymStr):
  """Text built only when something looks at it.

  The messages of exceptions quote texts exactly; nobody reads most of them, so
  the forks on quotes and escapes wait until one is read.
  """

  __slots__ = ("make", "done")

  def __init__(self, make):
    self.make = make
    self.done = None

  @property
  def chars(self):
    if self.done is None:
      self.done = chars_of(self.make())
    return self.done

  def __repr__(self):
    return "'\u00bf'"


def join(sep, items):
  out = []
  sc = chars_of(sep)
  for k, it in enumerate(items):
    if not is_strlike(it):
      raise TypeError(
          "sequence item %d: expected str instance, %s found" %
          (k, type(it).__name__))
    if k:
      out.extend(sc)
    out.extend(chars_of(it))
  return mk(out)
