"""P17: the sweep solver's report is true, and it stops when it should."""
import math
from props import daglib, syslib
from r_u_sure.decision_diagrams import consistent_path_dual_solver as ds

ID = "P17"
BOUNDS = {
    "systems": "%d systems of 1..3 diagrams over 1..3 variables, arbitrary "
               "real edge costs in [-50, 50]" % len(syslib.SYSTEMS),
    "sweeps": "runs of at most 6 (quick) / 8 (thorough) sweeps; longer runs "
              "lie outside the bound",
    "large systems": "4 and 6 diagrams over 5 and 7 variables of 3 values, two "
                     "costs symbolic, at most 4 sweeps",
    "clock": "arbitrary non-decreasing clock readings, soft timeout symbolic "
             "or infinite",
    "tolerance": "symbolic in [0.001, 100]",
}
ASSUMPTIONS = ["costs are exact reals; float rounding is not modelled"]
COVER = ["plateau", "timeout", "timeout_forward", "one_variable"]


def cases(tier):
  q = tier == "quick"
  n = 6 if q else 8
  out = []
  for name in syslib.SYSTEMS:
    for mode in ("timeout", "forever"):
      if q and name == "three" and mode == "forever":
        continue
      out.append(("%s_%s" % (name, mode),
                  {"name": name, "mode": mode,
                   "n": n if name != "three" or not q else 4}))
  for name in syslib.BIG:
    out.append(("%s_timeout" % name, {"name": name, "mode": "timeout",
                                      "n": 3 if q else 4}))
  return out


def run(ctx, name, mode, n):
  system, ref = syslib.make(ctx, name)
  nk = len(ref.keys)
  start = ctx.real("t0", 0, 10)
  readings = [start]

  def clock():
    if len(readings) > n + 1:
      ctx.stop()
    if len(readings) == 1 and not state["begun"]:
      state["begun"] = True
      return start
    d = ctx.real("dt%d" % len(readings), 0, 10)
    readings.append(readings[-1] + d)
    return readings[-1]

  state = {"begun": False}
  tol = ctx.real("tol", 0.001, 100)
  limit = math.inf
  if mode == "timeout":
    limit = ctx.real("limit", 0, 30)
  ctx.set_clock(clock)
  r = ds.solve_system_with_sweeps(system.data, limit, tol)
  ctx.set_clock(None)
  sweeps = len(readings) - 1
  if sweeps > n:
    ctx.stop()
  steps = [r.objective_at_step[i] for i in range(len(r.objective_at_step))]
  variables = [int(r.variable_at_step[i])
               for i in range(len(r.variable_at_step))]
  ends = [int(r.steps_at_sweep[i]) for i in range(len(r.steps_at_sweep))]
  ctx.check(len(variables) == len(steps), "one variable per step")
  ctx.check(len(ends) == sweeps and len(r.objective_at_sweep) == sweeps and
            len(r.time_at_sweep) == sweeps, "one record per sweep")
  ctx.check(sweeps > 0 and ends[-1] == len(steps), "steps at the last sweep")
  if nk == 1:
    ctx.cover("one_variable")
  ctx.check(len(steps) >= 1, "no update was made")
  # Order of the updates: forward and reverse sweeps cover all variables.
  at = 0
  for s in range(sweeps):
    block = variables[at:ends[s]]
    ctx.check(block == sorted(block, reverse=s % 2 == 1),
              "a sweep is not monotone in its direction")
    if s % 2:
      ctx.check(sorted(set(block + prev)) == list(range(nk)),
                "a pair of sweeps misses a variable")
    prev = block
    at = ends[s]
    if at:
      ctx.check_eq(r.objective_at_sweep[s], steps[at - 1],
                   "objective recorded for a sweep")
    ctx.check_eq(r.time_at_sweep[s], readings[s + 1] - start,
                 "time recorded for a sweep")
  # Objectives are the dual bound: they rise, stay below every solution and
  # the last one belongs to the penalties left behind.
  for a, b in zip(steps, steps[1:]):
    ctx.check_le(a, b, "the dual objective went down")
  for x in ref.assignments():
    c = ref.joint(x)
    if not daglib.is_inf(c) and steps:
      ctx.check_le(steps[-1], c, "the dual bound exceeds a solution")
  if nk == 1 and not daglib.is_inf(steps[-1]):
    joint = [ref.joint(x) for x in ref.assignments()]
    ctx.check(ctx.any([ctx.all([steps[-1] - c <= 1e-6, c - steps[-1] <= 1e-6])
                       for c in joint if not daglib.is_inf(c)]),
              "one variable, but the bound does not reach the optimum")
  pens = syslib.penalties(system, ref)
  ctx.check_eq(steps[-1], syslib.total([ref.penalized(j, pens)
                                        for j in range(len(ref.paths))]),
               "the last objective does not belong to the final penalties")
  # Stopping.
  late = [bool(readings[s + 1] - start > limit) for s in range(sweeps)]
  for s in range(sweeps - 1):
    ctx.check(not late[s], "went on after a sweep that ended past the timeout")

  def quiet(first, last):
    """No step of these sweeps improved by more than the tolerance."""
    lo = ends[first - 1] if first else 0
    for i in range(lo, ends[last]):
      if i == 0 or bool(steps[i] - steps[i - 1] > tol):
        return False
    return True

  if not late[-1]:
    ctx.cover("plateau")
    ctx.check(bool(r.reached_plateau), "stopped early without a plateau")
    ctx.check(sweeps % 2 == 0, "stopped between the sweeps of a pair")
    ctx.check(quiet(sweeps - 2, sweeps - 1),
              "stopped while the objective was still improving")
  else:
    ctx.cover("timeout")
    if sweeps % 2:
      ctx.cover("timeout_forward")
    ctx.check(
        bool(r.reached_plateau) ==
        quiet(sweeps - 1 if sweeps % 2 else sweeps - 2, sweeps - 1),
        "the report of a plateau does not match the last round of sweeps")
  for s in range(1, sweeps - 2, 2):
    ctx.check(not quiet(s - 1, s), "went on after a plateau")
