"""P14: min-marginals and minimal costs are exact after any update history."""
import math
import numpy as np
from props import daglib
from r_u_sure.decision_diagrams import packed_dags as pd

ID = "P14"
# name -> (skeleton, (key, value) per edge); up to three variables
DIAGRAMS = {
    "pairs3": ("pairs3", [(0, 0), (0, 1), (1, 0), None, (2, 0), (2, 1)]),
    "pairs3b": ("pairs3", [(0, 1), None, (1, 1), (2, 0), None, None]),
    "ladder": ("ladder", [(0, 1), (1, 1), (1, 0), (2, 1), (2, 0)]),
    "diamond_skip": ("diamond_skip", [(0, 0), None, (2, 1), (1, 1), (2, 0)]),
    "late": ("late", [(0, 1), (1, 1), None, None, (2, 1)]),
    "one": ("double", [(0, 0), (0, 1)]),
    "none": ("skip", [None, None, None]),
}
BOUNDS = {
    "diagrams": "%d diagrams with 0..3 variables" % len(DIAGRAMS),
    "large diagrams": "four fixed diagrams of up to 26 edges, 9 variables and "
                      "7 values, with histories of 12 operations; 3..4 edge "
                      "costs and the penalties of two values symbolic",
    "costs": "edge costs and penalties arbitrary reals; penalties may be "
             "infinite (symbolic choice)",
    "history": "every sequence of 3 (quick) / 4 (thorough) operations out of: "
               "set penalties of a variable, min-marginals of a variable, all "
               "min-marginals, minimal cost by each strategy, copying, and "
               "partial prefix / suffix updates",
}
ASSUMPTIONS = ["costs are exact reals; float rounding is not modelled",
               "numba's compiled code behaves as its Python source"]
COVER = ["stale", "infinite", "copy", "zero_vars", "infeasible"]
# Histories for the large diagrams; the variable is taken modulo their number.
SCRIPTS = [
    "pen0 start pen7 mm3 pen4 end all pen2 mm8 copy pen1 middle",
    "all pen3 mm3 mm2 pen2 mm1 mm0 pen0 start pen5 end",
    "mm4 pen8 pre6 pen1 suf2 middle pen6 mm6 suf0 pen0 mm7 all",
    "copy pen2 mm1 pen2 mm3 pen2 mm2 pen0 pre3 middle start",
]
S = pd.MinimalCostComputationStrategy


def ops_for(nk):
  ops = ["all", "start", "end", "middle", "copy"]
  for i in range(nk):
    ops += ["pen%d" % i, "mm%d" % i, "pre%d" % i, "suf%d" % i]
  return ops


def cases(tier):
  q = tier == "quick"
  out = []
  for name in DIAGRAMS:
    nk = len({a[0] for a in DIAGRAMS[name][1] if a})
    n = 3 if q else 4
    if nk == 3:
      firsts = ["pen0", "pen2", "mm1", "all"] if q else ops_for(nk)
      if q and name != "ladder":
        firsts = ["pen1"] if name == "late" else ["pen1", "mm0"]
      for f in firsts:
        out.append(("%s_%s" % (name, f), {"name": name, "n": n, "first": f}))
    else:
      out.append((name, {"name": name, "n": n, "first": None}))
  for j, name in enumerate(sorted(daglib.BIG)):
    for i in range(len(SCRIPTS)):
      if q and (i + j) % 2:
        continue
      out.append(("big_%s_%d" % (name, i),
                  {"name": name, "n": 0, "first": None, "script": i}))
  return out


def build(ctx, name):
  skel, asg = DIAGRAMS[name]
  n, arcs = daglib.SKELETONS[skel]
  edges = []
  for i, (a, b) in enumerate(arcs):
    r = None
    if asg[i] is not None:
      r = daglib.gsd.SharedVariableAssignment(*asg[i])
    edges.append(daglib.gsd.Edge(a, b, ctx.real("c%d" % i, -50, 50), r, i))
  return daglib.gsd.CompleteStateDAG(0, edges, n - 1)


def run(ctx, name, n, first, script=None):
  missing, nv = 0, 2
  if script is None:
    dag = build(ctx, name)
  else:
    dag, nv = daglib.big(ctx, name)
    missing = 1
  packed, data = daglib.pack(dag, missing, nv)
  names = daglib.keys_of(dag)
  nk = len(names)
  if nk == 0:
    ctx.cover("zero_vars")
  paths = daglib.all_paths(dag)
  costs = [daglib.cost_of(ctx, p) for p in paths]
  asgs = [daglib.assignment_of(p, names, missing) for p in paths]
  pen = [[0.0] * nv for _ in range(nk)]
  memo = pd.empty_unpenalized_table(packed)

  def total(i, skip=()):
    c = costs[i]
    for k in range(nk):
      x = pen[k][asgs[i][names[k]]]
      if daglib.is_inf(x):
        return math.inf
      c = c + x
    return c

  def marginal(k, v):
    return daglib.min_or_inf(ctx, [total(i) for i in range(len(paths))
                                   if asgs[i][names[k]] == v])

  def best():
    return daglib.min_or_inf(ctx, [total(i) for i in range(len(paths))])

  def check_row(got, k):
    ctx.check(len(got) == nv, "number of min-marginals")
    for v in range(nv):
      ctx.check_eq(got[v], marginal(k, v), "min-marginal of an assignment")

  ops = ops_for(nk)
  had_query = False
  saved = None
  history = [None] * n
  if script is not None:
    history = [op if not op[-1].isdigit() else op[:-1] + str(int(op[-1]) % nk)
               for op in SCRIPTS[script].split()]
  for t in range(len(history)):
    op = history[t] or (
        first if t == 0 and first else ctx.choice("op%d" % t, ops))
    if op.startswith("pen"):
      k = int(op[3:])
      row = []
      for v in range(nv):
        if script is not None and ((v + t) % 4 or t % 3):
          # most are fixed, some of them infinite
          row.append(math.inf if (v + t) % 5 == 4 else float((t * v) % 6 - 2))
          continue
        x = ctx.real("p%d.%d" % (t, v), -50, 50)
        if v == 1 and ctx.bool("pi%d" % t):
          ctx.cover("infinite")
          x = math.inf
        row.append(x)
      pd.set_penalties(memo, k, np.array(row))
      pen[k] = row
      if had_query:
        ctx.cover("stale")
    elif op.startswith("mm"):
      had_query = True
      check_row(pd.compute_min_marginals_for_variable(memo, int(op[2:])),
                int(op[2:]))
    elif op.startswith("pre"):
      pd.update_prefixes_up_to(memo, int(op[3:]))
    elif op.startswith("suf"):
      pd.update_suffixes_up_to(memo, int(op[3:]) - 1)
    elif op == "all":
      had_query = True
      got = pd.compute_all_min_marginals(memo)
      for k in range(nk):
        check_row(got[k], k)
    elif op == "copy":
      ctx.cover("copy")
      if saved is None:
        # go on with the copy; the old one must keep its penalties
        saved = (memo, [list(r) for r in pen])
        memo = pd.copy_memo(memo)
    else:
      had_query = True
      st = {"start": S.AT_START, "end": S.AT_END, "middle": S.FROM_MIDDLE}[op]
      got = pd.compute_minimal_cost(memo, st)
      w = best()
      if daglib.is_inf(w):
        ctx.cover("infeasible")
      ctx.check_eq(got, w, "minimal cost (%s)" % op)
  # Whatever happened, a final query is exact.
  ctx.check_eq(pd.compute_minimal_cost(memo, S.FROM_MIDDLE), best(),
               "minimal cost at the end of the history")
  for k in range(nk):
    check_row(pd.compute_min_marginals_for_variable(memo, k), k)
  if saved is not None:
    memo, pen = saved
    ctx.check_eq(pd.compute_minimal_cost(memo, S.AT_END), best(),
                 "a copy changed the original tables")
