"""P18: extracted solutions cost what is reported; commitments only forbid."""
import math
from props import daglib, syslib
from r_u_sure.decision_diagrams import consistent_path_dual_solver as ds

ID = "P18"
BOUNDS = {
    "systems": "%d systems of 1..3 diagrams over 1..3 variables of 2 or 3 values, "
               "arbitrary real edge costs in [-50, 50]" % len(syslib.SYSTEMS),
    "before": "nothing, averaging any one variable, or fixing any one variable",
    "large systems": "4 and 6 diagrams over 5 and 7 variables of 3 values, two "
                     "costs symbolic",
    "directions": "forward and reverse",
    "commitment": "target 0.5, 1 or 1.5 per variable (1 quick), strictness 0, "
                  "0.5 or 1 (0.5 quick); three-valued systems only in "
                  "thorough",
}
ASSUMPTIONS = ["costs are exact reals; float rounding is not modelled",
               "partial commitment starts from a system in which every single "
               "value is possible (numpy's quantile of infinities is not "
               "modelled)"]
COVER = ["infeasible", "optimal_single", "forbidden", "made", "greedy",
         "averaged", "closed_made", "closed_stuck"]
D = ds.SweepDirection
SLACK = 1e-5


def sort(ctx, xs):
  xs = list(xs)
  for i in range(len(xs)):
    for j in range(len(xs) - 1 - i):
      a, b = xs[j], xs[j + 1]
      xs[j], xs[j + 1] = ctx.min([a, b]), ctx.max([a, b])
  return xs


def cases(tier):
  q = tier == "quick"
  out = []
  for name in syslib.SYSTEMS:
    out.append(("%s_extract" % name, {"name": name, "mode": "extract"}))
    commit = not (q and name in syslib.NV)
    for target in (() if not commit else (1.0,) if q else (0.5, 1.0, 1.5)):
      for strict in ((0.5,) if q else (0.0, 0.5, 1.0)):
        out.append(("%s_commit_%s_%s" % (name, target, strict),
                    {"name": name, "mode": "commit", "target": target,
                     "strict": strict}))
    if name not in syslib.NV and (name != "lone" or not q):
      out.append(("%s_closed" % name,
                  {"name": name, "mode": "closed", "target": 1.0,
                   "strict": 0.5}))
  for name in syslib.BIG:
    out.append(("%s_extract" % name, {"name": name, "mode": "extract"}))
    if name == "five" or not q:
      out.append(("%s_closed" % name, {"name": name, "mode": "closed",
                                       "target": 1.0, "strict": 0.5}))
  return out


def run(ctx, name, mode, target=None, strict=None):
  system, ref = syslib.make(ctx, name)
  nk = len(ref.keys)
  pre = ctx.choice("pre", [None] + list(range(nk)))
  if pre is not None:
    if mode == "closed" or mode == "extract" and ctx.bool("forbid"):
      ctx.cover("forbidden")
      keep = ctx.choice("kept", list(range(ref.nv)))
      ds.constrain_system(system, {ref.keys[pre]: keep})
      for v in range(ref.nv):
        if v != keep:
          ref.unary[ref.keys[pre]][v] = math.inf
    else:
      ctx.cover("averaged")
      ds.min_marginal_average(system.data, pre)
  direction = ctx.choice("direction", [D.FORWARD, D.REVERSE])
  before = syslib.penalties(system, ref)
  if mode == "extract":
    vec, cost = ds.greedy_extract(system.data, direction)
    ctx.check(len(vec) == nk, "length of the assignment vector")
    x = ds.assignments_from_assignment_vector(system, vec)
    ctx.check(sorted(x) == ref.keys, "assigned variables")
    for i, k in enumerate(ref.keys):
      ctx.check(x[k] in range(ref.nv) and x[k] == int(vec[i]),
                "assigned value")
    c = ref.joint(x)
    if daglib.is_inf(c):
      ctx.cover("infeasible")
    ctx.check_eq(cost, c, "reported cost is not the cost of the solution")
    if len(ref.paths) == 1:
      ctx.cover("optimal_single")
      ctx.check_eq(cost, daglib.min_or_inf(
          ctx, [ref.joint(y) for y in ref.assignments()]),
                   "extraction from one diagram is not optimal")
    after = syslib.penalties(system, ref)
    for a, b in zip(before, after):
      for r, s in zip(a, b):
        for p, q in zip(r, s):
          ctx.check_eq(q, p, "extraction changed the system's penalties")
    for i, k in enumerate(ref.keys):
      for v in range(ref.nv):
        ctx.check_eq(system.data.extra_unary_costs[i, v], ref.unary[k][v],
                     "extraction changed the system's unary costs")
    return
  # Partial commitment.
  if mode == "closed":
    closed_before(ctx, system, ref, before, direction, target, strict)
    return
  for k in ref.keys:
    for v in range(ref.nv):
      if not ref.possible(k, v):
        ctx.stop()
  # What the documentation promises, from the marginals before committing.
  marg = [[ds.system_min_marginals(system.data, i)[v] for v in range(ref.nv)]
          for i in range(nk)]
  best = ctx.max([ctx.min(row) for row in marg])
  flat = sort(ctx, [m for row in marg for m in row])
  pos = (1 - target / ref.nv) * (len(flat) - 1)
  lo = int(pos)
  threshold = flat[lo]
  if lo + 1 < len(flat):
    threshold = threshold + (flat[lo + 1] - threshold) * (pos - lo)
  bar = best + (threshold - best) * strict
  status = ds.partially_commit(system.data, direction, target, strict)
  pens = syslib.penalties(system, ref)
  closed = {}
  for i, k in enumerate(ref.keys):
    for v in range(ref.nv):
      u = system.data.extra_unary_costs[i, v]
      rows = [pens[j][ref.dag_keys[j].index(k)][v] for j in ref.relevant(k)]
      if daglib.is_inf(u):
        closed[(k, v)] = True
        ctx.check(all(daglib.is_inf(r) for r in rows),
                  "a forbidden value is still allowed in a subproblem")
      else:
        ctx.check_eq(u, ref.unary[k][v], "a unary cost changed")
        ctx.check_eq(syslib.total(rows), ref.unary[k][v],
                     "the total penalty of an allowed value changed")
        for j, r in zip(ref.relevant(k), rows):
          ctx.check_eq(r, before[j][ref.dag_keys[j].index(k)][v],
                       "the penalty of an allowed value changed")
    ctx.check(not all((k, v) in closed for v in range(ref.nv)),
              "every value of a variable was forbidden")
  S = ds.PartialCommitmentStatus
  if status == S.MADE_PARTIAL_ASSIGNMENT:
    ctx.cover("made")
    ctx.check(len(closed) > 0, "reports progress but forbade nothing")
  else:
    ctx.cover("greedy")
    ctx.check(status in (S.NEEDS_GREEDY_EXTRACT, S.STUCK), "status")
    ctx.check(not closed, "forbade values without reporting it")
    # With slack, the values at the threshold itself are always forbidden.
    ctx.check(status != S.STUCK or strict >= 1, "no progress was made")
  # Which values go: those beyond the bar, at least for the first variable
  # (for later ones the bar may have moved up, except with one diagram, where
  # the marginals can only have grown).
  if status == S.NEEDS_GREEDY_EXTRACT:
    ctx.check_le(threshold, best + SLACK, "reports greedy decoding but the "
                 "threshold leaves a gap")
  else:
    ctx.check_le(best, threshold, "committed although only greedy decoding "
                 "meets the threshold")
    first = 0 if direction == D.FORWARD else nk - 1
    for i, k in enumerate(ref.keys):
      for v in range(ref.nv):
        if (k, v) not in closed and (i == first or len(ref.paths) == 1):
          ctx.check_le(marg[i][v], bar + SLACK,
                       "a value beyond the gap was not forbidden")
        if (k, v) in closed and i == first:
          ctx.check_le(bar, marg[i][v] + SLACK,
                       "a value within the gap was forbidden")
  # The best solution of a single diagram is never lost.
  if len(ref.paths) == 1:
    all_costs = [ref.joint(y) for y in ref.assignments()]
    kept = [ref.joint(y) for y in ref.assignments()
            if not any((k, y[k]) in closed for k in y)]
    ctx.check(len(kept) > 0, "no solution is left")
    ctx.check_eq(daglib.min_or_inf(ctx, kept),
                 daglib.min_or_inf(ctx, all_costs),
                 "committing lost the best solution of a single diagram")


def closed_before(ctx, system, ref, before, direction, target, strict):
  """Commits where some values are impossible or forbidden already."""
  nk = len(ref.keys)
  for _ in range(2):
    marg = [[ds.system_min_marginals(system.data, i)[v]
             for v in range(ref.nv)] for i in range(nk)]
    ctx.assume(all(any(not daglib.is_inf(m) for m in row) for row in marg))
    open_before = {
        (i, v) for i in range(nk) for v in range(ref.nv)
        if not daglib.is_inf(system.data.extra_unary_costs[i, v])}
    status = ds.partially_commit(system.data, direction, target, strict)
    pens = syslib.penalties(system, ref)
    fresh = False
    for i, k in enumerate(ref.keys):
      for v in range(ref.nv):
        u = system.data.extra_unary_costs[i, v]
        rows = [pens[j][ref.dag_keys[j].index(k)][v] for j in ref.relevant(k)]
        if daglib.is_inf(u):
          ctx.check(all(daglib.is_inf(r) for r in rows),
                    "a forbidden value is still allowed in a subproblem")
          if (i, v) in open_before and not daglib.is_inf(marg[i][v]):
            fresh = True
        else:
          ctx.check((i, v) in open_before, "a forbidden value is allowed again")
          ctx.check_eq(u, ref.unary[k][v], "a unary cost changed")
          for j, r in zip(ref.relevant(k), rows):
            ctx.check_eq(r, before[j][ref.dag_keys[j].index(k)][v],
                         "the penalty of an allowed value changed")
    S = ds.PartialCommitmentStatus
    if status == S.MADE_PARTIAL_ASSIGNMENT:
      ctx.cover("closed_made")
      ctx.check(fresh, "reports progress but forbade nothing new")
    else:
      ctx.cover("closed_stuck")
      ctx.check(not fresh, "forbade values without reporting it")
      ctx.check(status in (S.NEEDS_GREEDY_EXTRACT, S.STUCK), "status")
      break
