"""Decision-diagram inputs and an independent path-enumeration reference."""
import math
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags

# name -> (number of states, edges in topological order); every edge lies on a
# complete path from state 0 to the last state.
SKELETONS = {
    "edge": (2, [(0, 1)]),
    "double": (2, [(0, 1), (0, 1)]),
    "triple": (2, [(0, 1), (0, 1), (0, 1)]),
    "chain": (3, [(0, 1), (1, 2)]),
    "skip": (3, [(0, 1), (0, 2), (1, 2)]),
    "pairs": (3, [(0, 1), (0, 1), (1, 2), (1, 2)]),
    "diamond": (4, [(0, 1), (0, 2), (1, 3), (2, 3)]),
    "swapped": (4, [(0, 2), (0, 1), (2, 3), (1, 3)]),
    "ladder": (4, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]),
    "diamond_skip": (4, [(0, 1), (0, 2), (0, 3), (1, 3), (2, 3)]),
    "chain_skip": (4, [(0, 1), (0, 2), (1, 2), (2, 3)]),
    "pairs3": (4, [(0, 1), (0, 1), (1, 2), (1, 2), (2, 3), (2, 3)]),
    "chain4": (5, [(0, 1), (1, 2), (2, 3), (3, 4)]),
    "late": (4, [(0, 1), (1, 2), (1, 3), (2, 3), (2, 3)]),
}


def is_inf(c):
  return isinstance(c, float) and math.isinf(c)


def make(ctx, skeleton, keys, nvalues, tag="", missing=None, infinite=False,
         key_filter=None):
  """DAG over a skeleton: each edge assigns nothing or one key, any value.

  Returns (dag, missing value).
  """
  n, arcs = SKELETONS[skeleton]
  edges = []
  for i, (a, b) in enumerate(arcs):
    opts = [None] + list(range(keys))
    if key_filter is not None:
      opts = key_filter[i]
    k = ctx.choice("%sk%d" % (tag, i), opts)
    asg = None
    if k is not None:
      asg = gsd.SharedVariableAssignment(
          k, ctx.int("%sv%d" % (tag, i), 0, nvalues - 1))
    cost = ctx.real("%sc%d" % (tag, i), -50, 50)
    if infinite and ctx.bool("%sinf%d" % (tag, i)):
      cost = math.inf
    edges.append(gsd.Edge(a, b, cost, asg, i))
  if missing is None:
    missing = ctx.int(tag + "missing", 0, nvalues - 1)
  return gsd.CompleteStateDAG(0, edges, n - 1), missing


def all_paths(dag):
  """Every complete path, as a list of edges."""
  out = []

  def go(at, acc):
    if at == dag.final_state:
      out.append(list(acc))
      return
    for e in dag.edges:
      if e.source == at and not is_inf(e.cost):
        go(e.dest, acc + [e])

  go(dag.initial_state, [])
  return out


def keys_of(dag):
  return sorted(set(e.required_assignment.key for e in dag.edges
                    if e.required_assignment is not None))


def well_ordered(dag):
  """Whether every path assigns keys in strictly increasing order."""
  for p in all_paths(dag):
    ks = [e.required_assignment.key for e in p
          if e.required_assignment is not None]
    for a, b in zip(ks, ks[1:]):
      if a >= b:
        return False
  return True


def assignment_of(path, keys, missing):
  r = {}
  for k in keys:
    r[k] = missing
  for e in path:
    if e.required_assignment is not None:
      r[e.required_assignment.key] = e.required_assignment.value
  return r


def cost_of(ctx, path):
  return ctx.sum([e.cost for e in path])


def min_or_inf(ctx, xs):
  xs = [x for x in xs if not is_inf(x)]
  if not xs:
    return math.inf
  return ctx.min(xs)


def pack(dag, missing, nvalues=None, numba_fn=False):
  order = None if nvalues is None else list(range(nvalues))
  fn = packed_dags.convert_dag_to_packed
  if numba_fn:
    fn, prep = packed_dags.make_specialized_fn__convert_dag_to_packed(
        0, 0, 0, 0, with_numba=True)
    dag = prep(dag)
  return fn(dag, missing, order)


def _lattice():
  """Five variables, four values, two states per level, skips over levels."""
  edges = []

  def s(l, i):
    return 1 + 2 * (l - 1) + i if 0 < l < 5 else (0 if l == 0 else 9)

  for l in range(5):
    for i in range(1 if l == 0 else 2):
      for j in range(1 if l == 4 else 2):
        asg = None if (l, i, j) in ((1, 1, 0), (3, 0, 0)) else (
            3 * l + 1, (i + 2 * j + l) % 4)
        edges.append((s(l, i), s(l + 1, j), asg, (7 * l + 5 * i + 3 * j) % 9))
      if l in (0, 2):
        # over a variable that is then left at the missing value
        edges.append((s(l, i), s(l + 2, 1), (3 * l + 1, 3), 4 + i))
  return 10, edges


def _chain():
  """Twelve states in a row; variables far apart, detours around each."""
  edges = []
  for a in range(11):
    asg = {2: (0, 2), 6: (5, 1), 9: (6, 0)}.get(a)
    edges.append((a, a + 1, asg, (a * 5) % 7))
    if a in (2, 6):
      edges.append((a, a + 1, ({2: 0, 6: 5}[a], 0), 3))
    if a in (1, 5, 8):
      edges.append((a, a + 3, None, 11 - a))
  return 12, edges


def _wide():
  """Many parallel edges, seven values."""
  edges = [(0, 1, (2, j % 7), (j * 4) % 10) for j in range(10)]
  edges += [(1, 2, (4, (j * 3) % 7), (j * 6) % 8) for j in range(6)]
  edges += [(0, 2, (4, 5), 9), (1, 2, None, 5), (0, 2, None, 12)]
  return 3, edges


def _keys():
  """Nine variables in a row, some of which may be skipped."""
  edges = []
  for k in range(9):
    edges.append((k, k + 1, (k * k, k % 3), k))
    if k in (1, 4, 5, 8):
      edges.append((k, k + 1, None if k % 2 else (k * k, (k + 1) % 3),
                    (k * 2 + 3) % 5))
  return 10, edges


# name -> (states, edges (from, to, (key, value), cost), values, symbolic costs)
BIG = {
    "lattice": _lattice() + (4, (3, 9, 14)),
    "long_chain": _chain() + (3, (1, 3, 8)),
    "wide": _wide() + (7, (2, 9, 12)),
    "keys": _keys() + (3, (2, 6)),
}


def big(ctx, name, all_costs=False):
  """One of the large fixed diagrams, with some (or all) costs symbolic.

  Returns (dag, number of values).
  """
  n, arcs, nv, symbolic = BIG[name]
  edges = []
  for i, (a, b, asg, cost) in enumerate(arcs):
    r = None if asg is None else gsd.SharedVariableAssignment(*asg)
    c = float(cost)
    if all_costs or i in symbolic:
      c = ctx.real("c%d" % i, -50, 50)
    edges.append(gsd.Edge(a, b, c, r, i))
  return gsd.CompleteStateDAG(0, edges, n - 1), nv
