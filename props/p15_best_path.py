"""P15: extracted paths are complete, consistent and of minimal cost."""
import math
import numpy as np
from props import daglib
from r_u_sure.decision_diagrams import packed_dags as pd

ID = "P15"
# name -> (skeleton, (key, value) or None per edge)
DIAGRAMS = {
    "pairs3": ("pairs3", [(0, 0), (0, 1), (1, 0), None, (2, 0), (2, 1)]),
    "pairs": ("pairs", [(0, 1), None, (1, 0), (1, 1)]),
    "ladder": ("ladder", [(0, 1), (1, 1), (1, 0), (2, 1), (2, 0)]),
    "diamond": ("diamond", [None, (1, 1), (0, 1), (2, 0)]),
    "diamond_skip": ("diamond_skip", [(0, 0), None, (2, 1), (1, 1), (2, 0)]),
    "late": ("late", [(0, 1), (1, 1), None, None, (2, 1)]),
    "triple": ("triple", [(0, 0), (0, 1), (0, 1)]),
    "none": ("skip", [None, None, None]),
}
SCALES = [1.0, 0.5, 3.0]
BOUNDS = {
    "diagrams": "%d diagrams with 0..3 variables of 2 values, symbolic "
                "missing value" % len(DIAGRAMS),
    "large diagrams": "four fixed diagrams of up to 26 edges, 9 variables and "
                      "7 values; 3..4 edge costs, some penalties and two "
                      "constraints symbolic, or all variables but one "
                      "constrained as on one of three paths",
    "costs": "edge costs and penalties arbitrary reals in [-50, 50]; penalties "
             "may be infinite",
    "constraints": "every partial assignment of the variables",
    "scale": str(SCALES),
    "history": "before extraction the tables may be stale (penalties set "
               "after queries)",
}
ASSUMPTIONS = ["a path that meets the constraints exists (documented "
               "precondition)",
               "costs are exact reals; float rounding is not modelled"]
COVER = ["tagged", "missing_used", "constrained", "infinite", "stale",
         "several_paths", "scaled"]


def cases(tier):
  out = []
  for name in DIAGRAMS:
    for mode in ("constrained", "penalized", "scaled"):
      out.append(("%s_%s" % (name, mode), {"name": name, "mode": mode}))
  if tier != "quick":
    for s in sorted(daglib.SKELETONS):
      if len(daglib.SKELETONS[s][1]) <= 5:
        out.append(("free_%s" % s, {"name": s, "mode": "free"}))
  else:
    for s in ("double", "skip", "chain", "diamond", "pairs"):
      out.append(("free_%s" % s, {"name": s, "mode": "free"}))
  for name in sorted(daglib.BIG):
    for mode in ("constrained", "penalized", "scaled"):
      if tier == "quick" and mode == "scaled" and name != "long_chain":
        continue
      out.append(("big_%s_%s" % (name, mode), {"name": name, "mode": mode}))
  out.sort(key=lambda c: c[1]["name"] not in ("pairs3", "ladder",
                                              "diamond_skip"))
  return out


def build(ctx, name):
  skel, asg = DIAGRAMS[name]
  n, arcs = daglib.SKELETONS[skel]
  edges = []
  for i, (a, b) in enumerate(arcs):
    r = None
    if asg[i] is not None:
      r = daglib.gsd.SharedVariableAssignment(*asg[i])
    edges.append(daglib.gsd.Edge(a, b, ctx.real("c%d" % i, -50, 50), r, i))
  return daglib.gsd.CompleteStateDAG(0, edges, n - 1)


def check_tagged(ctx, path, assignments, packed, data, names):
  at = data.tagged_states[0]
  seen = {}
  for e in path:
    ctx.check(e.source == at, "tagged path is not connected")
    at = e.dest
    if e.required_assignment is not None:
      ctx.check(e.required_assignment.key not in seen,
                "tagged path assigns a variable twice")
      seen[e.required_assignment.key] = e.required_assignment.value
  ctx.check(at == data.tagged_states[packed.num_tagged_states - 1],
            "tagged path does not reach the final state")
  ctx.check(sorted(seen) == names, "tagged path skips a variable")
  for k in names:
    ctx.check(seen[k] == assignments[k], "tagged path and assignments differ")


def run(ctx, name, mode):
  nv = 2
  if mode == "free":
    dag, missing = daglib.make(ctx, name, 2, nv)
    ctx.assume(daglib.well_ordered(dag))
  elif name in daglib.BIG:
    dag, nv = daglib.big(ctx, name)
    missing = ctx.choice("missing", [0, nv - 1])
  else:
    dag = build(ctx, name)
    missing = ctx.choice("missing", [0, 1])
  packed, data = daglib.pack(dag, missing, nv)
  names = daglib.keys_of(dag)
  nk = len(names)
  paths = daglib.all_paths(dag)
  costs = [daglib.cost_of(ctx, p) for p in paths]
  asgs = [daglib.assignment_of(p, names, missing) for p in paths]
  pen = [[0.0] * nv for _ in range(nk)]

  def total(i):
    c = costs[i]
    for k in range(nk):
      for v in range(nv):
        # the value may be symbolic
        if asgs[i][names[k]] == v:
          x = pen[k][v]
          if daglib.is_inf(x):
            return math.inf
          c = c + x
    return c

  scale = 1
  if mode in ("scaled",):
    scale = ctx.choice("scale", SCALES)
    before = [packed.packed_edge_matrix[i]["cost"]
              for i in range(len(packed.packed_edge_matrix))]
    scaled = pd.scale_packed_dag_costs(packed, scale)
    if scale != 1:
      ctx.cover("scaled")
    for i, c in enumerate(before):
      ctx.check_eq(packed.packed_edge_matrix[i]["cost"], c,
                   "scaling changed the original diagram")
      ctx.check_eq(scaled.packed_edge_matrix[i]["cost"], c * scale,
                   "a cost was not scaled")
    packed = scaled
  tagged = False
  if mode == "penalized":
    memo = pd.empty_unpenalized_table(packed)
    if ctx.bool("query_first"):
      ctx.cover("stale")
      pd.compute_minimal_cost(memo)
    for k in range(nk):
      row = []
      for v in range(nv):
        if name in daglib.BIG and ((k + v) % 4 or k > 2):
          row.append(math.inf if (v + 2 * k) % 5 == 4 else float((k * v) % 6))
          continue
        x = ctx.real("p%d.%d" % (k, v), -50, 50)
        if v == 1 and k < 2 and ctx.bool("pi%d" % k):
          ctx.cover("infinite")
          x = math.inf
        row.append(x)
      pd.set_penalties(memo, k, np.array(row))
      pen[k] = row
    best = daglib.min_or_inf(ctx, [total(i) for i in range(len(paths))])
    ctx.assume(not daglib.is_inf(best))
    tagged = ctx.bool("tagged")
    path, got = pd.extract_minimal_cost_path_and_assignments(memo, data,
                                                             tagged)
  else:
    cons = {}
    pin = None
    if name in daglib.BIG and mode == "constrained":
      pin = ctx.choice("pin", [None, 0, len(paths) // 2, len(paths) - 1])
    for k in range(nk):
      if pin is not None:
        # (nearly) every variable is constrained, as for a whole assignment
        v = None if k == nk // 2 else asgs[pin][names[k]]
      elif name in daglib.BIG:
        v = (ctx.choice("con%d" % k, [None, 0, nv - 1])
             if k in (0, nk - 2) else None)
      else:
        v = ctx.choice("con%d" % k, [None, 0, 1])
      if v is not None:
        ctx.cover("constrained")
        cons[names[k]] = v
        pen[k] = [0.0 if u == v else math.inf for u in range(nv)]
    best = daglib.min_or_inf(ctx, [total(i) for i in range(len(paths))])
    ctx.assume(not daglib.is_inf(best))
    snap = dict(cons)
    path, got = pd.constrained_best_path(packed, data, cons)
    ctx.check(cons == snap, "the constraints were changed")
    for k in cons:
      ctx.check(got[k] == cons[k], "a constraint is not met")
  ctx.check(sorted(got) == names, "assignments do not cover the variables")
  if tagged:
    ctx.cover("tagged")
    check_tagged(ctx, path, got, packed, data, names)
    ids = [int(e.info) for e in path if int(e.info) >= 0]
  else:
    ids = [e.info for e in path]
    for e in path:
      o = dag.edges[e.info]
      ctx.check(e.source == o.source and e.dest == o.dest,
                "a returned edge is not an original edge")
      ctx.check_eq(e.cost, o.cost, "a returned edge has another cost")
  chosen = [i for i in range(len(paths)) if [e.info for e in paths[i]] == ids]
  ctx.check(len(chosen) == 1, "not a complete path of the diagram")
  i = chosen[0]
  if len(paths) > 1:
    ctx.cover("several_paths")
  used = [e for e in paths[i] if e.required_assignment is not None]
  if len(used) < nk:
    ctx.cover("missing_used")
  for k in names:
    ctx.check(got[k] == asgs[i][k], "assignments do not match the path")
  ctx.check_eq(total(i), best, "the path is not of minimal cost")
