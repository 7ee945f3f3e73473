"""Small systems of decision diagrams and their joint-cost reference."""
import itertools
import math
import numpy as np
from props import daglib
from r_u_sure.decision_diagrams import consistent_path_dual_solver as ds

# name -> list of (skeleton, (key, value) or None per edge)
FULL01 = ("pairs", [(0, 0), (0, 1), (1, 0), (1, 1)])
FULL12 = ("pairs", [(1, 0), (1, 1), (2, 0), (2, 1)])
SAME01 = ("diamond", [(0, 0), (0, 1), (1, 0), (1, 1)])
DIFF01 = ("diamond", [(0, 0), (0, 1), (1, 1), (1, 0)])
GAP02 = ("skip", [(0, 1), None, (2, 1)])
ONE1 = ("double", [(1, 0), (1, 1)])
SYSTEMS = {
    "overlap": [FULL01, FULL12],
    "twins": [FULL01, FULL01],
    "correlated": [SAME01, FULL01],
    "clash": [SAME01, DIFF01],
    "gap": [GAP02, FULL12],
    "star": [FULL01, ONE1],
    "three": [SAME01, FULL12, GAP02],
    "single": [FULL01],
    "lone": [("double", [(0, 0), (0, 1)]), ("triple", [(0, 0), (0, 1), None])],
}
SYSTEMS["three_values"] = [
    ("triple", [(0, 0), (0, 1), (0, 2)]), ("triple", [(0, 2), (0, 0), (0, 1)])]
NV = {"three_values": 3}  # how many values, where not 2
SYSTEMS["novars"] = [FULL01, ("skip", [None, None, None])]


def _rows(keys, seed, skip=None):
  """Three values per variable, in a row; optionally a way around all."""
  edges = []
  for i, k in enumerate(keys):
    for v in range(3):
      if (i + v + seed) % 7 == 6:
        continue
      edges.append((i, i + 1, (k, v), float((5 * i + 3 * v + seed * v) % 11)))
  if skip is not None:
    edges.append((0, len(keys), None, skip))
  return len(keys) + 1, edges


# Large systems: diagrams as (states, edges), which (diagram, edge) costs are
# arbitrary; the rest is fixed.
BIG = {
    "five": ([_rows([0, 1, 3], 1), _rows([1, 2, 4], 2, 9.0), _rows([0, 4], 4),
              _rows([2, 3], 3, 4.0)], [(0, 1), (2, 4)]),
    "seven": ([_rows([0, 2, 4, 6], 2), _rows([1, 3, 5], 1), _rows([0, 6], 0),
               _rows([3, 4], 5, 3.0), _rows([5], 3), (2, [(0, 1, None, 2.0)])],
              [(1, 2), (3, 1)]),
}
for _n in BIG:
  NV[_n] = 3


def big_dags(ctx, name):
  out = []
  diagrams, symbolic = BIG[name]
  for j, (n, arcs) in enumerate(diagrams):
    edges = []
    for i, (a, b, asg, cost) in enumerate(arcs):
      r = None if asg is None else daglib.gsd.SharedVariableAssignment(*asg)
      if (j, i) in symbolic:
        cost = ctx.real("c%d.%d" % (j, i), -50, 50)
      edges.append(daglib.gsd.Edge(a, b, cost, r, i))
    out.append(daglib.gsd.CompleteStateDAG(0, edges, n - 1))
  return out


def build_dags(ctx, name):
  out = []
  if name in BIG:
    return big_dags(ctx, name)
  for j, (skel, asg) in enumerate(SYSTEMS[name]):
    n, arcs = daglib.SKELETONS[skel]
    edges = []
    for i, (a, b) in enumerate(arcs):
      r = None
      if asg[i] is not None:
        r = daglib.gsd.SharedVariableAssignment(*asg[i])
      edges.append(daglib.gsd.Edge(a, b, ctx.real("c%d.%d" % (j, i), -50, 50),
                                   r, i))
    out.append(daglib.gsd.CompleteStateDAG(0, edges, n - 1))
  return out


class Ref:
  """What the system means, computed by listing paths."""

  def __init__(self, ctx, dags, nv, missing=0):
    self.ctx = ctx
    self.nv = nv
    self.paths = [daglib.all_paths(d) for d in dags]
    self.dag_keys = [daglib.keys_of(d) for d in dags]
    self.keys = sorted(set(k for ks in self.dag_keys for k in ks))
    self.costs = [[daglib.cost_of(ctx, p) for p in ps] for ps in self.paths]
    self.asgs = [[daglib.assignment_of(p, ks, missing) for p in ps]
                 for ps, ks in zip(self.paths, self.dag_keys)]
    self.unary = {k: [0.0] * nv for k in self.keys}

  def relevant(self, k):
    return [j for j, ks in enumerate(self.dag_keys) if k in ks]

  def sub_cost(self, j, x):
    """Best cost of subproblem j under the full assignment x (or inf)."""
    return daglib.min_or_inf(self.ctx, [
        c for c, a in zip(self.costs[j], self.asgs[j])
        if all(a[k] == x[k] for k in self.dag_keys[j])])

  def assignments(self):
    if self.nv ** len(self.keys) > 300:
      # Too many to list: a spread of them (used for upper bounds only).
      for t in range(60):
        yield {k: (t * (i + 1) + t // 7 * i) % self.nv
               for i, k in enumerate(self.keys)}
      return
    for vs in itertools.product(range(self.nv), repeat=len(self.keys)):
      yield dict(zip(self.keys, vs))

  def joint(self, x):
    t = 0
    for k in self.keys:
      u = self.unary[k][x[k]]
      if daglib.is_inf(u):
        return math.inf
      t = t + u
    for j in range(len(self.paths)):
      c = self.sub_cost(j, x)
      if daglib.is_inf(c):
        return math.inf
      t = t + c
    return t

  def possible(self, k, v):
    """Whether every subproblem with k can assign v, at a finite unary cost."""
    if daglib.is_inf(self.unary[k][v]):
      return False
    return all(any(a[k] == v for a in self.asgs[j]) for j in self.relevant(k))

  def penalized(self, j, pens, only=None):
    """Min cost of subproblem j under the given penalty rows."""
    out = []
    for c, a in zip(self.costs[j], self.asgs[j]):
      if only is not None and a[only[0]] != only[1]:
        continue
      t = c
      for i, k in enumerate(self.dag_keys[j]):
        u = pens[j][i][a[k]]
        if daglib.is_inf(u):
          t = math.inf
          break
        t = t + u
      out.append(t)
    return daglib.min_or_inf(self.ctx, out)


def penalties(system, ref):
  """The penalty rows of every subproblem, as lists."""
  out = []
  for j, ks in enumerate(ref.dag_keys):
    t = system.data.dag_tables[j].penalties
    out.append([[t[i, v] for v in range(ref.nv)] for i in range(len(ks))])
  return out


def total(xs):
  t = 0
  for x in xs:
    if daglib.is_inf(x):
      return math.inf
    t = t + x
  return t


def make(ctx, name, weights=None, jit=False):
  nv = NV.get(name, 2)
  dags = build_dags(ctx, name)
  packed = [daglib.pack(d, 0, nv, jit) for d in dags]
  w = None if weights is None else np.array(weights, dtype=np.float64)
  return ds.make_system(packed, w), Ref(ctx, dags, nv)
