"""X99 (not a property): idioms a refactoring may use, against plain loops.

Development aid: run with SX_STRICT=1; an idiom that the rewriter cannot
encode shows up as inconclusive.
"""
import bisect
import collections
import contextlib
import dataclasses
import enum
import functools
import heapq
import itertools
import math
import operator
import re
import typing
import numpy as np

ID = "X99"
BOUNDS = {"lists": "3 symbolic integers in 0..3, texts of 3 characters over "
                   "'aB1 ;'"}
ASSUMPTIONS = []
COVER = []
IDIOMS = []


def idiom(ref):
  def deco(fn):
    IDIOMS.append((fn.__name__, fn, ref))
    return fn
  return deco


# ------------------------------------------------------------- references ----
def r_total(xs, s):
  t = 0
  for x in xs:
    t = t + x
  return t


def r_quoted(xs, s):
  return "got '" + s + "'!"


def r_rounded(xs, s):
  x = xs[0]
  if x % 2 == 0:
    return x // 2
  # 1/2 goes to 0, 3/2 to 2
  return 0 if x == 1 else 2


def r_max(xs, s):
  m = xs[0]
  for x in xs:
    if x > m:
      m = x
  return m


def r_min(xs, s):
  m = xs[0]
  for x in xs:
    if x < m:
      m = x
  return m


def r_sorted(xs, s):
  out = []
  for x in xs:
    k = 0
    while k < len(out) and out[k] <= x:
      k += 1
    out.insert(k, x)
  return out


def r_distinct(xs, s):
  out = []
  for x in xs:
    seen = False
    for y in out:
      if x == y:
        seen = True
    if not seen:
      out.append(x)
  return out


def r_has2(xs, s):
  for x in xs:
    if x == 2:
      return True
  return False


def r_all_pos(xs, s):
  for x in xs:
    if x <= 0:
      return False
  return True


def r_first_big(xs, s):
  for i in range(len(xs)):
    if xs[i] > 1:
      return i
  return -1


def r_cumsum(xs, s):
  out = []
  t = 0
  for x in xs:
    t = t + x
    out.append(t)
  return out


def r_argmin(xs, s):
  b = 0
  for i in range(len(xs)):
    if xs[i] < xs[b]:
      b = i
  return b


def r_evens(xs, s):
  out = []
  for x in xs:
    if x % 2 == 0:
      out.append(x)
  return out


def r_squares(xs, s):
  out = []
  for x in xs:
    out.append(x * x)
  return out


def r_name(xs, s):
  if xs[0] == 0:
    return "zero"
  if xs[0] == 1 or xs[0] == 2:
    return "few"
  return "many"


def r_count_a(xs, s):
  n = 0
  for c in s:
    if c == "a":
      n += 1
  return n


def r_find_semi(xs, s):
  for i in range(len(s)):
    if s[i] == ";":
      return i
  return -1


def r_before_semi(xs, s):
  out = ""
  for c in s:
    if c == ";":
      return out
    out = out + c
  return out


def r_no_space(xs, s):
  out = ""
  for c in s:
    if c != " ":
      out = out + c
  return out


def r_classes(xs, s):
  out = []
  for c in s:
    if c == "a":
      out.append("lower")
    elif c == "B":
      out.append("upper")
    elif c == "1":
      out.append("digit")
    elif c == " ":
      out.append("space")
    else:
      out.append("other")
  return out


def r_runs(xs, s):
  out = []
  for c in s:
    if out and out[-1][-1] == c:
      out[-1] = out[-1] + c
    else:
      out.append(c)
  return out


def r_pairs(xs, s):
  out = []
  for i in range(len(xs) - 1):
    out.append((xs[i], xs[i + 1]))
  return out


def r_rev(xs, s):
  out = []
  for x in xs:
    out.insert(0, x)
  return out


def r_text(xs, s):
  return "<" + s + ">"


def r_starts(xs, s):
  return len(s) > 0 and s[0] == "a"


# ----------------------------------------------------------------- idioms ----
@idiom(r_total)
def sum_builtin(xs, s):
  return sum(xs)


@idiom(r_total)
def sum_gen(xs, s):
  return sum(x for x in xs)


@idiom(r_total)
def reduce_add(xs, s):
  return functools.reduce(operator.add, xs, 0)


@idiom(r_total)
def reduce_lambda(xs, s):
  return functools.reduce(lambda a, b: a + b, xs)


@idiom(r_total)
def np_sum(xs, s):
  return np.sum(np.array(xs))


@idiom(r_total)
def np_method_sum(xs, s):
  return np.array(xs).sum()


@idiom(r_total)
def np_dot(xs, s):
  return np.dot(np.array(xs), np.ones(3, dtype=np.int64))


@idiom(r_total)
def math_fsum_like(xs, s):
  acc = 0
  it = iter(xs)
  while True:
    try:
      acc += next(it)
    except StopIteration:
      break
  return acc


@idiom(r_total)
def nonlocal_total(xs, s):
  t = 0

  def add(x):
    nonlocal t
    t += x

  for x in xs:
    add(x)
  return t


@idiom(r_total)
def unpack_star(xs, s):
  def f(*args):
    return sum(args)
  return f(*xs)


@idiom(r_total)
def star_target(xs, s):
  a, *rest = xs
  return a + sum(rest)


@idiom(r_max)
def max_builtin(xs, s):
  return max(xs)


@idiom(r_max)
def max_star(xs, s):
  return max(*xs)


@idiom(r_max)
def max_key(xs, s):
  return max(xs, key=lambda x: x)


@idiom(r_max)
def max_default(xs, s):
  return max((x for x in xs), default=7)


@idiom(r_max)
def np_max(xs, s):
  return np.max(np.array(xs))


@idiom(r_max)
def np_maximum_reduce(xs, s):
  return np.maximum.reduce(np.array(xs))


@idiom(r_max)
def heap_largest(xs, s):
  return heapq.nlargest(1, xs)[0]


@idiom(r_max)
def cond_expr(xs, s):
  m = xs[0]
  for x in xs[1:]:
    m = x if x > m else m
  return m


@idiom(r_min)
def np_min(xs, s):
  return np.min(np.array(xs))


@idiom(r_min)
def np_amin(xs, s):
  return np.amin(np.asarray(xs), axis=0)


@idiom(r_min)
def reduce_min(xs, s):
  return functools.reduce(min, xs)


@idiom(r_min)
def sorted_first(xs, s):
  return sorted(xs)[0]


@idiom(r_min)
def np_minimum(xs, s):
  a, b, c = xs
  return np.minimum(np.minimum(a, b), c)


@idiom(r_sorted)
def sorted_builtin(xs, s):
  return sorted(xs)


@idiom(r_sorted)
def sort_method(xs, s):
  ys = list(xs)
  ys.sort()
  return ys


@idiom(r_sorted)
def sort_key(xs, s):
  return sorted(xs, key=lambda x: -x, reverse=True)


@idiom(r_sorted)
def insort(xs, s):
  out = []
  for x in xs:
    bisect.insort(out, x)
  return out


@idiom(r_sorted)
def heap_sort(xs, s):
  h = []
  for x in xs:
    heapq.heappush(h, x)
  return [heapq.heappop(h) for _ in range(len(h))]


@idiom(r_sorted)
def np_sort(xs, s):
  return list(np.sort(np.array(xs)))


@idiom(r_distinct)
def dict_fromkeys(xs, s):
  return list(dict.fromkeys(xs))


@idiom(r_distinct)
def seen_set(xs, s):
  seen = set()
  out = []
  for x in xs:
    if x not in seen:
      seen.add(x)
      out.append(x)
  return out


@idiom(r_distinct)
def ordered_dict(xs, s):
  d = collections.OrderedDict()
  for x in xs:
    d.setdefault(x, True)
  return list(d.keys())


@idiom(lambda xs, s: len(r_distinct(xs, s)))
def set_len(xs, s):
  return len(set(xs))


@idiom(lambda xs, s: len(r_distinct(xs, s)))
def frozenset_len(xs, s):
  return len(frozenset(xs))


@idiom(lambda xs, s: len(r_distinct(xs, s)))
def set_comp_len(xs, s):
  return len({x for x in xs})


@idiom(lambda xs, s: len(r_distinct(xs, s)))
def counter_len(xs, s):
  return len(collections.Counter(xs))


@idiom(lambda xs, s: len(r_distinct(xs, s)))
def np_unique_len(xs, s):
  return len(np.unique(np.array(xs)))


@idiom(lambda xs, s: len(r_distinct(xs, s)))
def defaultdict_len(xs, s):
  d = collections.defaultdict(list)
  for i, x in enumerate(xs):
    d[x].append(i)
  return len(d)


@idiom(lambda xs, s: r_sorted(r_distinct(xs, s), s))
def sorted_set(xs, s):
  return sorted(set(xs))


@idiom(lambda xs, s: r_sorted(r_distinct(xs, s), s))
def set_union(xs, s):
  return sorted(set(xs[:1]) | set(xs[1:]))


@idiom(lambda xs, s: r_sorted(r_distinct(xs, s), s))
def set_update(xs, s):
  out = set()
  out.update(xs[:1], xs[1:])
  return sorted(out)


@idiom(r_has2)
def in_list(xs, s):
  return 2 in xs


@idiom(r_has2)
def any_gen(xs, s):
  return any(x == 2 for x in xs)


@idiom(r_has2)
def count_method(xs, s):
  return xs.count(2) > 0


@idiom(r_has2)
def for_else(xs, s):
  for x in xs:
    if x == 2:
      break
  else:
    return False
  return True


@idiom(r_has2)
def np_any(xs, s):
  return bool(np.any(np.array(xs) == 2))


@idiom(r_has2)
def index_try(xs, s):
  try:
    xs.index(2)
  except ValueError:
    return False
  else:
    return True


@idiom(r_has2)
def set_disjoint(xs, s):
  return not set(xs).isdisjoint({2})


@idiom(r_has2)
def suppress(xs, s):
  found = False
  with contextlib.suppress(ValueError):
    xs.index(2)
    found = True
  return found


@idiom(r_has2)
def tuple_in(xs, s):
  return 2 in tuple(xs)


@idiom(r_has2)
def any_map(xs, s):
  return any(map(lambda x: x == 2, xs))


@idiom(r_all_pos)
def all_gen(xs, s):
  return all(x > 0 for x in xs)


@idiom(r_all_pos)
def not_any(xs, s):
  return not any(x <= 0 for x in xs)


@idiom(r_all_pos)
def np_all(xs, s):
  return bool((np.array(xs) > 0).all())


@idiom(r_all_pos)
def chained(xs, s):
  return 0 < xs[0] < 100 and 0 < xs[1] and not 0 >= xs[2]


@idiom(r_all_pos)
def all_list_truth(xs, s):
  return all(xs)


@idiom(r_first_big)
def next_gen(xs, s):
  return next((i for i, x in enumerate(xs) if x > 1), -1)


@idiom(r_first_big)
def walrus_while(xs, s):
  i = -1
  while (i := i + 1) < len(xs):
    if xs[i] > 1:
      return i
  return -1


@idiom(r_first_big)
def takewhile_len(xs, s):
  n = len(list(itertools.takewhile(lambda x: x <= 1, xs)))
  return n if n < len(xs) else -1


@idiom(r_first_big)
def enumerate_start(xs, s):
  for i, x in enumerate(xs, start=1):
    if x > 1:
      return i - 1
  return -1


@idiom(r_first_big)
def np_nonzero(xs, s):
  hits = np.nonzero(np.array(xs) > 1)[0]
  return int(hits[0]) if len(hits) else -1


@idiom(r_first_big)
def np_flatnonzero(xs, s):
  hits = np.flatnonzero(np.array(xs) > 1)
  return int(hits[0]) if hits.size else -1


@idiom(r_first_big)
def zip_count(xs, s):
  for i, x in zip(itertools.count(), xs):
    if x > 1:
      return i
  return -1


@idiom(r_cumsum)
def accumulate(xs, s):
  return list(itertools.accumulate(xs))


@idiom(r_cumsum)
def np_cumsum(xs, s):
  return list(np.cumsum(np.array(xs)))


@idiom(r_cumsum)
def prefix_sums(xs, s):
  return [sum(xs[:i + 1]) for i in range(len(xs))]


@idiom(r_cumsum)
def gen_yield(xs, s):
  def gen():
    t = 0
    for x in xs:
      t += x
      yield t
  return list(gen())


@idiom(r_cumsum)
def yield_from(xs, s):
  def gen(seq):
    yield from itertools.accumulate(seq, operator.add)
  return [*gen(xs)]


@idiom(r_cumsum)
def walrus_comp(xs, s):
  t = 0
  return [t := t + x for x in xs]


@idiom(r_argmin)
def np_argmin(xs, s):
  return int(np.argmin(np.array(xs)))


@idiom(r_argmin)
def min_range_key(xs, s):
  return min(range(len(xs)), key=lambda i: xs[i])


@idiom(r_argmin)
def min_getitem_key(xs, s):
  return min(range(len(xs)), key=xs.__getitem__)


@idiom(r_argmin)
def min_pairs(xs, s):
  return min((x, i) for i, x in enumerate(xs))[1]


@idiom(r_argmin)
def index_min(xs, s):
  return xs.index(min(xs))


@idiom(r_argmin)
def np_argsort(xs, s):
  return int(np.argsort(np.array(xs), kind="stable")[0])


@idiom(r_argmin)
def itemgetter_min(xs, s):
  return min(enumerate(xs), key=operator.itemgetter(1))[0]


@idiom(r_evens)
def filter_builtin(xs, s):
  return list(filter(lambda x: x % 2 == 0, xs))


@idiom(r_evens)
def comp_filter(xs, s):
  return [x for x in xs if not x % 2]


@idiom(r_evens)
def filterfalse(xs, s):
  return list(itertools.filterfalse(lambda x: x % 2, xs))


@idiom(r_evens)
def compress(xs, s):
  return list(itertools.compress(xs, [x % 2 == 0 for x in xs]))


@idiom(r_evens)
def bool_mask(xs, s):
  a = np.array(xs)
  return list(a[a % 2 == 0])


@idiom(r_evens)
def bit_test(xs, s):
  return [x for x in xs if divmod(x, 2)[1] == 0]


@idiom(r_evens)
def continue_loop(xs, s):
  out = []
  for x in xs:
    if x % 2:
      continue
    out += [x]
  return out


@idiom(r_evens)
def delete_loop(xs, s):
  out = list(xs)
  for i in reversed(range(len(out))):
    if out[i] % 2 == 1:
      del out[i]
  return out


@idiom(r_squares)
def map_lambda(xs, s):
  return list(map(lambda x: x * x, xs))


@idiom(r_squares)
def power(xs, s):
  return [x ** 2 for x in xs]


@idiom(r_squares)
def starmap(xs, s):
  return list(itertools.starmap(operator.mul, zip(xs, xs)))


@idiom(r_squares)
def np_mul(xs, s):
  a = np.array(xs)
  return (a * a).tolist()


@idiom(r_squares)
def partial(xs, s):
  def mul(a, b):
    return a * b
  return [functools.partial(mul, x)(x) for x in xs]


@idiom(r_squares)
def np_empty_fill(xs, s):
  out = np.zeros((3,), dtype=np.float64)
  for i, x in enumerate(xs):
    out[i] = x * x
  return list(out)


@idiom(r_squares)
def slice_assign(xs, s):
  out = [0] * len(xs)
  out[:] = [x * x for x in xs]
  return out


@idiom(r_name)
def match_stmt(xs, s):
  match xs[0]:
    case 0:
      return "zero"
    case 1 | 2:
      return "few"
    case _:
      return "many"


@idiom(r_name)
def match_guard(xs, s):
  match xs[0]:
    case x if x == 0:
      return "zero"
    case x if x in (1, 2):
      return "few"
  return "many"


@idiom(r_name)
def dict_dispatch(xs, s):
  return {0: "zero", 1: "few", 2: "few"}.get(xs[0], "many")


@idiom(r_name)
def dict_try(xs, s):
  table = {0: "zero", 1: "few", 2: "few"}
  try:
    return table[xs[0]]
  except KeyError:
    return "many"


@idiom(r_name)
def dict_in(xs, s):
  table = {0: lambda: "zero", 1: lambda: "few", 2: lambda: "few"}
  if xs[0] in table:
    return table[xs[0]]()
  return "many"


@idiom(r_name)
def list_index(xs, s):
  return ["zero", "few", "few", "many"][xs[0]]


@idiom(r_name)
def tuple_slice(xs, s):
  names = ("zero", "few", "few", "many")
  return names[xs[0]:xs[0] + 1][0]


@idiom(r_name)
def nested_cond(xs, s):
  return "zero" if not xs[0] else "few" if xs[0] < 3 else "many"


@idiom(r_name)
def np_where(xs, s):
  i = np.where(xs[0] == 0, 0, 1)
  return ["zero", "few" if xs[0] <= 2 else "many"][int(i)]


@idiom(r_name)
def bisect_name(xs, s):
  return ["zero", "few", "many"][bisect.bisect_right([0, 2], xs[0] - 1)]


class _Size(enum.Enum):
  ZERO = 0
  ONE = 1
  TWO = 2


@idiom(r_name)
def enum_lookup(xs, s):
  try:
    v = _Size(int(xs[0]))
  except ValueError:
    return "many"
  return "zero" if v is _Size.ZERO else "few"


@dataclasses.dataclass(frozen=True)
class _Point:
  x: int
  y: int = 0

  @property
  def total(self):
    return self.x + self.y


class _Triple(typing.NamedTuple):
  a: int
  b: int
  c: int


@idiom(r_total)
def dataclass_replace(xs, s):
  p = _Point(xs[0], xs[1])
  p = dataclasses.replace(p, y=p.y + xs[2])
  return p.total


@idiom(r_total)
def named_tuple(xs, s):
  t = _Triple(*xs)
  t = t._replace(a=t.a + 0)
  return t.a + t.b + t.c


@idiom(r_total)
def match_class(xs, s):
  match _Point(xs[0], xs[1]):
    case _Point(x=a, y=b):
      return a + b + xs[2]
  return None


@idiom(r_total)
def match_sequence(xs, s):
  match xs:
    case [a, b, c]:
      return a + b + c
    case [a, *rest]:
      return a
  return None


@idiom(r_total)
def deque_sum(xs, s):
  q = collections.deque(xs)
  t = 0
  while q:
    t += q.popleft()
  return t


@idiom(r_total)
def stack_pop(xs, s):
  st = list(xs)
  t = 0
  while st:
    t += st.pop()
  return t


@idiom(r_total)
def dict_values(xs, s):
  d = {i: x for i, x in enumerate(xs)}
  d |= {7: 0}
  return sum(d.values())


@idiom(r_total)
def dict_pop(xs, s):
  d = dict(zip("abc", xs))
  return d.pop("a") + d.pop("b", 0) + d.get("c", 0) + d.pop("z", 0)


@idiom(r_total)
def chain_sum(xs, s):
  return sum(itertools.chain(xs[:1], xs[1:]))


@idiom(r_total)
def chain_from(xs, s):
  return sum(itertools.chain.from_iterable([[x] for x in xs]))


@idiom(r_total)
def cached(xs, s):
  @functools.lru_cache(maxsize=None)
  def go(i):
    return 0 if i == 3 else xs[i] + go(i + 1)
  return go(0)


@idiom(r_total)
def islice_sum(xs, s):
  return sum(itertools.islice(xs, 0, None, 1))


@idiom(r_total)
def np_add_at(xs, s):
  out = np.zeros((2,), dtype=np.int64)
  np.add.at(out, [0, 1, 0], np.array(xs))
  return out[0] + out[1]


@idiom(r_total)
def np_concat(xs, s):
  return np.concatenate([np.array(xs[:1]), np.array(xs[1:])]).sum()


@idiom(r_total)
def np_stack(xs, s):
  a = np.stack([np.array(xs), np.array(xs)])
  return a[1, :].sum()


@idiom(r_total)
def np_axis(xs, s):
  a = np.array([xs, xs])
  return a.sum(axis=1)[0]


@idiom(r_total)
def np_reshape(xs, s):
  return np.array(xs).reshape((3, 1)).sum(axis=0)[0]


@idiom(r_pairs)
def zip_pairs(xs, s):
  return list(zip(xs, xs[1:]))


@idiom(r_pairs)
def pairwise(xs, s):
  return list(itertools.pairwise(xs))


@idiom(r_pairs)
def zip_islice(xs, s):
  return [(a, b) for a, b in zip(xs, itertools.islice(xs, 1, None))]


@idiom(r_pairs)
def prev_var(xs, s):
  it = iter(xs)
  prev = next(it)
  out = []
  for x in it:
    out.append((prev, x))
    prev = x
  return out


@idiom(r_rev)
def reversed_list(xs, s):
  return list(reversed(xs))


@idiom(r_rev)
def slice_rev(xs, s):
  return xs[::-1]


@idiom(r_rev)
def reverse_method(xs, s):
  ys = xs[:]
  ys.reverse()
  return ys


@idiom(r_rev)
def range_down(xs, s):
  return [xs[i] for i in range(len(xs) - 1, -1, -1)]


@idiom(r_rev)
def deque_left(xs, s):
  q = collections.deque()
  for x in xs:
    q.appendleft(x)
  return list(q)


@idiom(r_rev)
def np_flip(xs, s):
  return list(np.array(xs)[::-1])


@idiom(r_rev)
def neg_index(xs, s):
  return [xs[~i] for i in range(len(xs))]


# ---------------------------------------------------------------- strings ----
@idiom(r_count_a)
def str_count(xs, s):
  return s.count("a")


@idiom(r_count_a)
def sum_bool(xs, s):
  return sum(c == "a" for c in s)


@idiom(r_count_a)
def counter_get(xs, s):
  return collections.Counter(s)["a"]


@idiom(r_count_a)
def findall_len(xs, s):
  return len(re.findall("a", s))


@idiom(r_count_a)
def split_len(xs, s):
  return len(s.split("a")) - 1


@idiom(r_count_a)
def sum_if(xs, s):
  return sum(1 for c in s if c == "a")


@idiom(r_find_semi)
def str_find(xs, s):
  return s.find(";")


@idiom(r_find_semi)
def str_index(xs, s):
  try:
    return s.index(";")
  except ValueError:
    return -1


@idiom(r_find_semi)
def re_search(xs, s):
  m = re.search(";", s)
  return m.start() if m else -1


@idiom(r_find_semi)
def enumerate_find(xs, s):
  return next((i for i, c in enumerate(s) if c == ";"), -1)


@idiom(r_find_semi)
def compiled(xs, s):
  pat = re.compile(r"[;]")
  if (m := pat.search(s)) is not None:
    return m.span()[0]
  return -1


@idiom(r_before_semi)
def partition(xs, s):
  return s.partition(";")[0]


@idiom(r_before_semi)
def split_once(xs, s):
  return s.split(";", 1)[0]


@idiom(r_before_semi)
def takewhile_str(xs, s):
  return "".join(itertools.takewhile(lambda c: c != ";", s))


@idiom(r_before_semi)
def re_match(xs, s):
  return re.match("[^;]*", s).group(0)


@idiom(r_before_semi)
def slice_find(xs, s):
  i = s.find(";")
  return s if i < 0 else s[:i]


@idiom(r_no_space)
def replace(xs, s):
  return s.replace(" ", "")


@idiom(r_no_space)
def join_split(xs, s):
  return "".join(s.split(" "))


@idiom(r_no_space)
def re_sub(xs, s):
  return re.sub(" ", "", s)


@idiom(r_no_space)
def translate(xs, s):
  return s.translate(str.maketrans("", "", " "))


@idiom(r_no_space)
def join_filter(xs, s):
  return "".join(c for c in s if c not in " ")


@idiom(r_no_space)
def join_isspace(xs, s):
  return "".join([c for c in s if not c.isspace()])


@idiom(r_no_space)
def split_any(xs, s):
  return "".join(s.split())


@idiom(r_no_space)
def io_build(xs, s):
  out = []
  for ch in s:
    if ord(ch) != 32:
      out.append(ch)
  return "".join(out)


@idiom(r_classes)
def class_methods(xs, s):
  return ["lower" if c.islower() else "upper" if c.isupper() else
          "digit" if c.isdigit() else "space" if c.isspace() else "other"
          for c in s]


@idiom(r_classes)
def class_dict(xs, s):
  d = {"a": "lower", "B": "upper", "1": "digit", " ": "space"}
  return [d.get(c, "other") for c in s]


@idiom(r_classes)
def class_in(xs, s):
  out = []
  for c in s:
    if "a" <= c <= "z":
      out.append("lower")
    elif c in "ABC":
      out.append("upper")
    elif c in {"0", "1"}:
      out.append("digit")
    elif c in (" ", "\t"):
      out.append("space")
    else:
      out.append("other")
  return out


@idiom(r_classes)
def class_match(xs, s):
  out = []
  for c in s:
    match c:
      case "a":
        out.append("lower")
      case "B":
        out.append("upper")
      case "1":
        out.append("digit")
      case " ":
        out.append("space")
      case _:
        out.append("other")
  return out


@idiom(r_classes)
def class_regex(xs, s):
  pat = re.compile(r"(?P<lower>[a-z])|(?P<upper>[A-Z])|(?P<digit>\d)|"
                   r"(?P<space>\s)|(?P<other>.)")
  return [m.lastgroup for m in pat.finditer(s)]


@idiom(r_classes)
def class_ascii(xs, s):
  out = []
  for c in s:
    if c.isalpha():
      out.append("lower" if c == c.lower() else "upper")
    elif c.isnumeric():
      out.append("digit")
    else:
      out.append("other" if c.strip() else "space")
  return out


@idiom(r_runs)
def groupby(xs, s):
  return ["".join(g) for _, g in itertools.groupby(s)]


@idiom(r_runs)
def regex_runs(xs, s):
  return re.findall(r"a+|B+|1+| +|;+", s)


@idiom(r_runs)
def regex_backref(xs, s):
  return [m.group(0) for m in re.finditer(r"a+|B+|1+| +|;+", s)]


@idiom(r_runs)
def run_index(xs, s):
  cuts = [0] + [i for i in range(1, len(s)) if s[i] != s[i - 1]] + [len(s)]
  return [s[a:b] for a, b in zip(cuts, cuts[1:])]


@idiom(r_text)
def fstring(xs, s):
  return f"<{s}>"


@idiom(r_text)
def format_method(xs, s):
  return "<{}>".format(s)


@idiom(r_text)
def format_named(xs, s):
  return "<{text}>".format(text=s)


@idiom(r_text)
def percent(xs, s):
  return "<%s>" % s


@idiom(r_text)
def percent_tuple(xs, s):
  return "%s%s%s" % ("<", s, ">")


@idiom(r_text)
def percent_dict(xs, s):
  return "<%(t)s>" % {"t": s}


@idiom(r_text)
def join_text(xs, s):
  return "".join(["<", *s, ">"])


@idiom(r_text)
def concat_text(xs, s):
  t = "<"
  t += s
  t += ">"
  return t


@idiom(r_text)
def list_text(xs, s):
  chars = list(s)
  chars.insert(0, "<")
  chars.append(">")
  return "".join(chars)


@idiom(r_starts)
def startswith(xs, s):
  return s.startswith("a")


@idiom(r_starts)
def startswith_tuple(xs, s):
  return s.startswith(("a", "ab"))


@idiom(r_starts)
def slice_start(xs, s):
  return s[:1] == "a"


@idiom(r_starts)
def removeprefix(xs, s):
  return s.removeprefix("a") != s


@idiom(r_starts)
def match_start(xs, s):
  return bool(re.match("a", s))


@idiom(r_starts)
def find_zero(xs, s):
  return s.find("a") == 0


@idiom(r_starts)
def fullmatch(xs, s):
  return re.fullmatch(r"a.*", s, re.DOTALL) is not None


@idiom(r_starts)
def cmp_start(xs, s):
  return (s or " ")[0] in frozenset("a")


@idiom(lambda xs, s: s)
def lines_roundtrip(xs, s):
  return "".join(s.splitlines(keepends=True))


@idiom(lambda xs, s: s)
def rpartition_roundtrip(xs, s):
  return "".join(s.rpartition(";"))


@idiom(lambda xs, s: s)
def split_roundtrip(xs, s):
  return ";".join(s.split(";"))


@idiom(lambda xs, s: s)
def chr_ord(xs, s):
  return "".join(map(chr, map(ord, s)))


@idiom(lambda xs, s: s)
def re_split_roundtrip(xs, s):
  return "".join(re.split("(;)", s))


@idiom(lambda xs, s: len(s) - len(r_no_space(xs, s)))
def len_diff(xs, s):
  return len([*filter(str.isspace, s)])


@idiom(lambda xs, s: [c for c in s if c != " "])
def split_chars(xs, s):
  return [c for c in list(s) if c.strip() != ""]


# --------------------------------------------- matrices with infinities ----
def m_rowmin(m):
  out = []
  for row in m:
    b = math.inf
    for x in row:
      if x < b:
        b = x
    out.append(b)
  return out


def m_total(m):
  t = 0.0
  for row in m:
    for x in row:
      if not (isinstance(x, float) and math.isinf(x)):
        t = t + x
  return t


def m_relax(m):
  """min over j of m[i][j] + j, for every i."""
  out = []
  for row in m:
    b = math.inf
    for j in range(len(row)):
      x = row[j] + j
      if x < b:
        b = x
    out.append(b)
  return out


@idiom(m_rowmin)
def mat_min_axis(m):
  return list(np.array(m).min(axis=1))


@idiom(m_rowmin)
def mat_np_min_axis(m):
  return [np.min(np.array(m)[i, :]) for i in range(2)]


@idiom(m_rowmin)
def mat_minimum(m):
  a = np.array(m)
  return list(np.minimum(a[:, 0], a[:, 1]))


@idiom(m_rowmin)
def mat_minimum_reduce(m):
  return list(np.minimum.reduce(np.array(m), axis=1))


@idiom(m_rowmin)
def mat_full_update(m):
  out = np.full((2,), np.inf)
  for i in range(2):
    for j in range(2):
      out[i] = np.minimum(out[i], m[i][j])
  return list(out)


@idiom(m_rowmin)
def mat_full_if(m):
  out = np.full((2,), math.inf, dtype=np.float64)
  for (i, j) in np.ndindex(2, 2):
    if m[i][j] < out[i]:
      out[i] = m[i][j]
  return out.tolist()


@idiom(m_rowmin)
def mat_minimum_at(m):
  out = np.full((2,), np.inf)
  np.minimum.at(out, np.array([0, 0, 1, 1]), np.array(m).reshape(-1))
  return list(out)


@idiom(m_rowmin)
def mat_where(m):
  a = np.array(m)
  return list(np.where(a[:, 0] <= a[:, 1], a[:, 0], a[:, 1]))


@idiom(m_rowmin)
def mat_sorted(m):
  return [sorted(row)[0] for row in m]


@idiom(m_rowmin)
def mat_take_argmin(m):
  a = np.array(m)
  return [a[i, np.argmin(a[i])] for i in range(len(a))]


@idiom(m_rowmin)
def mat_take_along(m):
  a = np.array(m)
  i = np.expand_dims(np.argmin(a, axis=1), 1)
  return list(np.take_along_axis(a, i, axis=1)[:, 0])


@idiom(m_rowmin)
def mat_nan_free(m):
  return [min([x for x in row if np.isfinite(x)], default=np.inf)
          for row in m]


@idiom(m_rowmin)
def mat_out_param(m):
  out = np.array(m)[:, 0].copy()
  np.minimum(out, np.array(m)[:, 1], out=out)
  return list(out)


@idiom(m_rowmin)
def mat_amin_keepdims(m):
  return list(np.array([np.amin(r) for r in np.array(m)]))


@idiom(m_rowmin)
def mat_ellipsis(m):
  a = np.array(m)
  return [min(a[..., 0][i], a[..., 1][i]) for i in range(a.shape[0])]


@idiom(m_total)
def mat_isfinite_sum(m):
  a = np.array(m)
  return np.sum(np.where(np.isfinite(a), a, 0.0))


@idiom(m_total)
def mat_mask_sum(m):
  a = np.array(m)
  return a[np.isfinite(a)].sum()


@idiom(m_total)
def mat_mask_assign(m):
  a = np.array(m)
  a[np.isinf(a)] = 0.0
  return a.sum()


@idiom(m_total)
def mat_tilde(m):
  a = np.array(m)
  return a[~np.isinf(a)].sum()


@idiom(m_total)
def mat_ravel(m):
  return sum(x for x in np.array(m).ravel() if not math.isinf(x))


@idiom(m_total)
def mat_flatten(m):
  return sum(x for x in np.array(m).flatten() if x < float("inf"))


@idiom(m_total)
def mat_nditer(m):
  t = 0.0
  for row in np.array(m):
    for x in row:
      t += x if x != np.inf else 0
  return t


@idiom(m_total)
def mat_structured(m):
  rec = np.zeros((4,), dtype=np.dtype([("cost", np.float64), ("k", np.int32)]))
  for i in range(4):
    rec[i]["cost"] = m[i // 2][i % 2]
    rec["k"][i] = i
  return sum(r["cost"] for r in rec if np.isfinite(r["cost"]))


@idiom(m_total)
def mat_isposinf(m):
  a = np.array(m)
  return a[np.logical_not(np.isposinf(a))].sum()


@idiom(m_relax)
def mat_broadcast(m):
  return list((np.array(m) + np.arange(2)).min(axis=1))


@idiom(m_relax)
def mat_broadcast_row(m):
  return list(np.min(np.array(m) + np.array([[0.0, 1.0]]), axis=1))


@idiom(m_relax)
def mat_transpose(m):
  a = np.array(m).T + np.arange(2)[:, None]
  return list(a.min(axis=0))


@idiom(m_relax)
def mat_iadd(m):
  a = np.array(m)
  a[:, 1] += 1
  return list(np.minimum(a[:, 0], a[:, 1]))


@idiom(m_relax)
def mat_list(m):
  return [min(row[0], row[1] + 1) for row in m]


@idiom(m_relax)
def mat_copy(m):
  a = np.copy(np.array(m))
  b = np.zeros_like(a)
  b[:, 1] = 1.0
  return list(np.array([np.min(x) for x in a + b]))


@idiom(m_relax)
def mat_enumerate(m):
  best = [np.inf] * 2
  for (i, j), x in np.ndenumerate(np.array(m)):
    best[i] = min(best[i], x + j)
  return best


@idiom(r_rounded)
def round_half(xs, s):
  return round(xs[0] / 2)


@idiom(r_rounded)
def round_digits(xs, s):
  return int(round(xs[0] * 5, -1)) // 10


@idiom(r_quoted)
def message_direct(xs, s):
  return f"got {s!r}!"


@idiom(r_quoted)
def message_raised(xs, s):
  try:
    raise ValueError(f"got {s!r}!")
  except ValueError as e:
    return e.args[0]


@idiom(r_quoted)
def message_str(xs, s):
  try:
    text = f"got {repr(s)}"
    raise ValueError(text + "!")
  except ValueError as e:
    return str(e)


def cases(tier):
  out = []
  for i, (name, _, ref) in enumerate(IDIOMS):
    out.append((name, {"i": i}))
  return out


def run(ctx, i):
  _, fn, ref = IDIOMS[i]
  if fn.__name__.startswith("mat_"):
    m = [[ctx.real("m%d" % (2 * r + c), -5, 5) for c in range(2)]
         for r in range(2)]
    if ctx.bool("inf"):
      m[0][1] = math.inf
      if ctx.bool("inf2"):
        m[0][0] = math.inf
    got, want = fn([list(r) for r in m]), ref(m)
    if isinstance(want, list):
      ctx.check(len(got) == len(want), "length")
      for a, b in zip(got, want):
        ctx.check_eq(a, b, "element")
    else:
      ctx.check_eq(got, want, "value")
    return
  xs = [ctx.int("x%d" % k, 0, 3) for k in range(3)]
  s = ctx.text("s", 3, alphabet="aB1 ;")
  got = fn(list(xs), s)
  want = ref(list(xs), s)
  if isinstance(want, list):
    ctx.check(len(got) == len(want), "length")
    for a, b in zip(got, want):
      ctx.check(a == b, "element")
  else:
    ctx.check(got == want, "value")
