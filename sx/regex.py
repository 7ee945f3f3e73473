"""Backtracking regular-expression matcher over symbolic strings.

Interprets the parse tree that CPython's own `re._parser` builds for the
pattern in the code under test, with Python's leftmost / greedy / lazy
semantics; each character test is a solver-decided branch.
"""
import functools
import re
from re import _constants as C
from re import _parser as P

from sx import core
from sx import strings
from sx.strings import CharSet, ceq, char_class, chars_of, mk

_CATS = {
    C.CATEGORY_DIGIT: ("\\d", False),
    C.CATEGORY_NOT_DIGIT: ("\\d", True),
    C.CATEGORY_SPACE: ("\\s", False),
    C.CATEGORY_NOT_SPACE: ("\\s", True),
    C.CATEGORY_WORD: ("\\w", False),
    C.CATEGORY_NOT_WORD: ("\\w", True),
}


def _charset(items):
  neg = False
  tests = []
  for op, av in items:
    if op is C.NEGATE:
      neg = True
    elif op is C.LITERAL:
      tests.append(lambda cp, v=av: cp == v)
    elif op is C.RANGE:
      tests.append(lambda cp, v=av: v[0] <= cp <= v[1])
    elif op is C.CATEGORY:
      name, n = _CATS[av]
      tests.append(lambda cp, t=char_class(name).test, n=n: t(cp) != n)
    else:
      raise core.Inconclusive("regex set item %s" % op)
  return CharSet(lambda cp: any(t(cp) for t in tests) != neg)


class Matcher:

  def __init__(self, pattern, flags):
    self.tree = P.parse(pattern, flags)
    self.flags = self.tree.state.flags
    if self.flags & re.IGNORECASE:
      raise core.Inconclusive("IGNORECASE regex on symbolic string")
    self.groupindex = dict(self.tree.state.groupdict)
    self.ngroups = self.tree.state.groups
    self._sets = {}

  def run(self, s, pos, full=False, nonempty=False):
    """Returns (end, groups, lastindex) or None."""
    self.s = chars_of(s)
    self.end = len(self.s)
    seq = list(self.tree)
    def done(i, g, last):
      if full and i != self.end:
        return None
      if nonempty and i == pos:
        return None
      return (i, g, last)
    return self._seq(seq, 0, pos, (None,) * self.ngroups, None, done)

  def _seq(self, seq, k, i, g, last, cont):
    if k == len(seq):
      return cont(i, g, last)
    return self._node(
        seq[k], i, g, last,
        lambda i2, g2, l2: self._seq(seq, k + 1, i2, g2, l2, cont))

  def _set_for(self, av):
    key = id(av)
    r = self._sets.get(key)
    if r is None:
      r = self._sets[key] = (_charset(av), av)
    return r[0]

  def _node(self, node, i, g, last, cont):
    op, av = node
    s = self.s
    if op is C.LITERAL:
      if i < self.end and ceq(s[i], av):
        return cont(i + 1, g, last)
      return None
    if op is C.NOT_LITERAL:
      if i < self.end and not ceq(s[i], av):
        return cont(i + 1, g, last)
      return None
    if op is C.ANY:
      if i < self.end and (self.flags & re.DOTALL or not ceq(s[i], 10)):
        return cont(i + 1, g, last)
      return None
    if op is C.IN:
      if i < self.end and self._set_for(av).has(s[i]):
        return cont(i + 1, g, last)
      return None
    if op is C.BRANCH:
      for alt in av[1]:
        r = self._seq(list(alt), 0, i, g, last, cont)
        if r is not None:
          return r
      return None
    if op is C.SUBPATTERN:
      group, add, dele, p = av
      if add or dele:
        raise core.Inconclusive("inline regex flags")
      if group is None:
        return self._seq(list(p), 0, i, g, last, cont)
      def close(i2, g2, l2):
        g3 = list(g2)
        g3[group] = (i, i2)
        return cont(i2, tuple(g3), group)
      return self._seq(list(p), 0, i, g, last, close)
    if op is C.GROUPREF:
      span = g[av]
      if span is None:
        return None
      n = span[1] - span[0]
      if i + n > self.end:
        return None
      for j in range(n):
        if not ceq(s[i + j], s[span[0] + j]):
          return None
      return cont(i + n, g, last)
    if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
      lo, hi, p = av
      p = list(p)
      if op is C.POSSESSIVE_REPEAT:
        raise core.Inconclusive("possessive regex")
      return self._repeat(p, lo, hi, op is C.MAX_REPEAT, 0, i, g, last, cont,
                          None)
    if op in (C.ASSERT, C.ASSERT_NOT):
      direction, p = av
      p = list(p)
      if direction >= 0:
        r = self._seq(p, 0, i, g, last, lambda a, b, c: (a, b, c))
      else:
        lo, hi = _width(p)
        r = None
        if lo == hi and i - lo >= 0:
          r = self._seq(p, 0, i - lo, g, last,
                        lambda a, b, c: (a, b, c) if a == i else None)
      if op is C.ASSERT:
        return None if r is None else cont(i, r[1], r[2])
      return cont(i, g, last) if r is None else None
    if op is C.AT:
      if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        if i == 0:
          return cont(i, g, last)
        if av is C.AT_BEGINNING and self.flags & re.MULTILINE:
          if ceq(s[i - 1], 10):
            return cont(i, g, last)
        return None
      if av is C.AT_END_STRING:
        return cont(i, g, last) if i == self.end else None
      if av is C.AT_END:
        if i == self.end:
          return cont(i, g, last)
        if self.flags & re.MULTILINE:
          ok = ceq(s[i], 10)
        else:
          ok = i == self.end - 1 and ceq(s[i], 10)
        return cont(i, g, last) if ok else None
      if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
        w = char_class("\\w")
        a = i > 0 and bool(w.has(s[i - 1]))
        b = i < self.end and bool(w.has(s[i]))
        ok = (a != b) == (av is C.AT_BOUNDARY)
        return cont(i, g, last) if ok else None
    raise core.Inconclusive("regex op %s" % op)

  def _repeat(self, p, lo, hi, greedy, n, i, g, last, cont, prev_i):
    def again():
      if hi is not C.MAXREPEAT and n >= hi:
        return None
      if n >= lo and prev_i == i:
        return None  # empty iteration, stop
      return self._seq(
          p, 0, i, g, last,
          lambda i2, g2, l2: self._repeat(p, lo, hi, greedy, n + 1, i2, g2, l2,
                                          cont, i))
    if n < lo:
      return again()
    if greedy:
      r = again()
      return r if r is not None else cont(i, g, last)
    r = cont(i, g, last)
    return r if r is not None else again()


def _width(p):
  return P.SubPattern.getwidth(_sub(p))


def _sub(p):
  sp = P.SubPattern(P.State(), list(p))
  return sp


@functools.lru_cache(None)
def _matcher(pattern, flags):
  return Matcher(pattern, flags)


class SymMatch:
  """Match object over a symbolic string."""

  def __init__(self, m, s, start, end, groups, last):
    self._m, self.string, self._g = m, s, groups
    self._span = (start, end)
    self.lastindex = last
    self.pos, self.endpos = 0, len(s)

  @property
  def lastgroup(self):
    for k, v in self._m.groupindex.items():
      if v == self.lastindex:
        return k
    return None

  def _gi(self, k):
    return self._m.groupindex[k] if isinstance(k, str) else k

  def span(self, k=0):
    k = self._gi(k)
    if k == 0:
      return self._span
    sp = self._g[k]
    return (-1, -1) if sp is None else sp

  def start(self, k=0):
    return self.span(k)[0]

  def end(self, k=0):
    return self.span(k)[1]

  def _one(self, k):
    k = self._gi(k)
    if k != 0 and self._g[k] is None:
      return None
    a, b = self.span(k)
    return mk(chars_of(self.string)[a:b])

  def group(self, *ks):
    if not ks:
      return self._one(0)
    if len(ks) == 1:
      return self._one(ks[0])
    return tuple(self._one(k) for k in ks)

  def __getitem__(self, k):
    return self._one(k)

  def groups(self, default=None):
    return tuple(
        default if self._g[k] is None else self._one(k)
        for k in range(1, self._m.ngroups))

  def groupdict(self, default=None):
    return {k: (default if self._g[v] is None else self._one(v))
            for k, v in self._m.groupindex.items()}

  def __bool__(self):
    return True


def _prep(pattern, flags):
  if isinstance(pattern, re.Pattern):
    return _matcher(pattern.pattern, pattern.flags & ~re.UNICODE)
  return _matcher(pattern, int(flags))


# lastindex in CPython: index of the last *closed* outermost-last group; our
# `last` tracks the most recently closed group, which is the same notion.


def match(pattern, s, flags=0, pos=0):
  m = _prep(pattern, flags)
  r = m.run(s, pos)
  return None if r is None else SymMatch(m, s, pos, *r)


def fullmatch(pattern, s, flags=0, pos=0):
  m = _prep(pattern, flags)
  r = m.run(s, pos, full=True)
  return None if r is None else SymMatch(m, s, pos, *r)


def search(pattern, s, flags=0, pos=0):
  m = _prep(pattern, flags)
  for i in range(pos, len(s) + 1):
    r = m.run(s, i)
    if r is not None:
      return SymMatch(m, s, i, *r)
  return None


def finditer(pattern, s, flags=0):
  m = _prep(pattern, flags)
  i = 0
  must_advance = False
  while i <= len(s):
    r = m.run(s, i, nonempty=must_advance)
    must_advance = False
    if r is None:
      i += 1
      continue
    yield SymMatch(m, s, i, *r)
    must_advance = r[0] == i
    i = r[0]


def findall(pattern, s, flags=0):
  out = []
  for mt in finditer(pattern, s, flags):
    g = mt.groups()
    out.append(mt.group() if not g else (g[0] if len(g) == 1 else g))
  return out


def split(pattern, s, maxsplit=0, flags=0):
  out = []
  last = 0
  for mt in finditer(pattern, s, flags):
    out.append(s[last:mt.start()])
    out.extend(mt.groups())
    last = mt.end()
    maxsplit -= 1
    if maxsplit == 0:
      break
  out.append(s[last:])
  return out


def sub(pattern, repl, s, count=0, flags=0):
  out = []
  last = 0
  for mt in finditer(pattern, s, flags):
    out.append(s[last:mt.start()])
    if callable(repl):
      out.append(repl(mt))
    else:
      if isinstance(repl, str) and "\\" in repl:
        raise core.Inconclusive("template sub")
      out.append(repl)
    last = mt.end()
    count -= 1
    if count == 0:
      break
  out.append(s[last:])
  return strings.join("", out)
