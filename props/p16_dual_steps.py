"""P16: penalty updates keep the joint cost; dual bounds are valid and rise."""
import math
import numpy as np
from props import daglib, syslib
from r_u_sure.decision_diagrams import consistent_path_dual_solver as ds

ID = "P16"
BOUNDS = {
    "systems": "%d systems of 1..3 diagrams over 1..3 variables of 2 or 3 values, "
               "arbitrary real edge costs in [-50, 50]" % len(syslib.SYSTEMS),
    "history": "every sequence of 2 (quick) / 3 (thorough) operations: "
               "averaging a variable, constraining one variable or all at once "
               "with a symbolic or infinite penalty, cloning, random symmetry breaking",
    "large systems": "4 and 6 diagrams over 5 and 7 variables of 3 values, two "
                     "costs symbolic, histories of 4..5 operations",
    "weights": "equal and 1:3",
}
ASSUMPTIONS = ["costs are exact reals; float rounding is not modelled",
               "update proportions whose ratios are exact in binary"]
COVER = ["averaged", "constrained_inf", "constrained_finite", "clone", "noise",
         "constrained_together", "nonparticipating", "impossible_value",
         "rejected", "accepted"]
SCRIPTS = ["avg0 avg3 con2 avg4", "con1 avg1 clone noise avg2",
           "avg4 avg3 avg2 avg1 avg0", "con_all clone avg3 avg0"]


def cases(tier):
  q = tier == "quick"
  out = []
  for name in syslib.SYSTEMS:
    nd = len(syslib.SYSTEMS[name])
    for w in ([None, [1, 3]] if nd == 2 else [None]):
      for jit in (False, True):
        if q and (jit != (w is not None)):
          continue
        if not q and jit and w is None:
          continue
        out.append(("%s_%s%s" % (name, "w" if w else "e", "j" if jit else ""),
                    {"name": name, "weights": w, "jit": jit,
                     "n": 2 if q else 3}))
  for name in ("overlap", "three", "lone"):
    out.append((name + "_reject", {"name": name, "weights": None,
                                   "jit": False, "n": -1}))
  for name in syslib.BIG:
    for i in range(len(SCRIPTS)):
      nd = len(syslib.BIG[name][0])
      out.append(("%s_script%d" % (name, i), {
          "name": name, "jit": i % 2 == 1, "script": i, "n": 0,
          "weights": None if i < 2 else [1 + j % 2 for j in range(nd)]}))
  return out


def rejects(ctx, name):
  """Diagrams that do not share their values make no system."""
  dags = syslib.build_dags(ctx, name)
  packed = [daglib.pack(d, 0, 2, False) for d in dags]
  values = ctx.choice("values", [[0, 2], [1, 0], [0], [0, 1, 2], [0, 1]])
  k = ctx.choice("diagram", list(range(len(packed))))
  dag, data = packed[k]
  packed[k] = (dag, data._replace(variable_values=values))
  failed = False
  try:
    ds.make_system(packed)
  except ValueError:
    failed = True
  ctx.cover("rejected" if failed else "accepted")
  ctx.check(failed == (values != [0, 1]),
            "diagrams over different values are put in one system")


def check_state(ctx, system, ref, what):
  """Penalties split the unary costs and nothing else."""
  pens = syslib.penalties(system, ref)
  for k in ref.keys:
    for v in range(ref.nv):
      rows = [pens[j][ref.dag_keys[j].index(k)][v] for j in ref.relevant(k)]
      got = syslib.total(rows)
      want = ref.unary[k][v]
      if daglib.is_inf(got) and not daglib.is_inf(want):
        # only a value that no joint assignment can take may be closed off
        ctx.cover("impossible_value")
        for x in ref.assignments():
          if x[k] == v:
            ctx.check(daglib.is_inf(ref.joint(x)),
                      "a possible value was forbidden")
      else:
        ctx.check_eq(got, want, what)
      ctx.check_eq(system.data.extra_unary_costs[ref.keys.index(k), v], want,
                   "recorded unary costs are wrong")
  return pens


def dual_value(ref, pens):
  return syslib.total([ref.penalized(j, pens) for j in range(len(ref.paths))])


def run(ctx, name, weights, jit, n, script=None):
  if n < 0:
    return rejects(ctx, name)
  system, ref = syslib.make(ctx, name, weights, jit)
  nk = len(ref.keys)
  ctx.check(list(system.variable_keys) == ref.keys,
            "variables are not the sorted union of the diagrams' variables")
  ctx.check(list(system.variable_values) == list(range(ref.nv)),
            "variable values")
  ctx.check(system.data.num_variable_keys == nk and
            system.data.num_variable_values == ref.nv, "sizes")
  for i, k in enumerate(ref.keys):
    for j, ks in enumerate(ref.dag_keys):
      want = ks.index(k) if k in ks else -1
      ctx.check(int(system.data.dag_variable_index_map[i, j]) == want,
                "variable index map")
  pens = check_state(ctx, system, ref, "fresh penalties")
  bound = dual_value(ref, pens)
  saved = None
  ops = []
  for k in range(nk):
    ops += ["avg%d" % k, "con%d" % k]
  ops += ["clone", "noise"]
  if nk > 1:
    ops += ["con_all"]
  history = [None] * n if script is None else SCRIPTS[script].split()
  for t in range(len(history)):
    op = history[t] or ctx.choice("op%d" % t, ops)
    if op.startswith("avg"):
      ctx.cover("averaged")
      k = int(op[3:])
      if len(ref.relevant(ref.keys[k])) < len(ref.paths):
        ctx.cover("nonparticipating")
      got = ds.min_marginal_average(system.data, k)
      pens = check_state(ctx, system, ref,
                         "averaging changed the total penalty of a value")
      # All subproblems agree, in proportion to their weights.
      w = weights or [1] * len(ref.paths)
      rel = ref.relevant(ref.keys[k])
      for v in range(ref.nv):
        ms = [ref.penalized(j, pens, (ref.keys[k], v)) for j in rel]
        for a, b in zip(rel, rel[1:]):
          x, y = ms[rel.index(a)], ms[rel.index(b)]
          if daglib.is_inf(x) or daglib.is_inf(y):
            ctx.check(daglib.is_inf(x) and daglib.is_inf(y),
                      "subproblems disagree on which values are possible")
          else:
            ctx.check_eq(x * w[b], y * w[a],
                         "subproblems disagree after averaging")
      ctx.check_eq(got, dual_value(ref, pens),
                   "returned bound is not the dual value")
      if not daglib.is_inf(got):
        if not daglib.is_inf(bound):
          ctx.check_le(bound, got, "averaging lowered the dual bound")
      for x in ref.assignments():
        c = ref.joint(x)
        if daglib.is_inf(got):
          ctx.check(daglib.is_inf(c), "infinite bound on a feasible system")
        elif not daglib.is_inf(c):
          ctx.check_le(got, c, "dual bound exceeds the cost of an assignment")
      bound = got
    elif op.startswith("con"):
      if op == "con_all":
        ctx.cover("constrained_together")
        ks = list(ref.keys)
        if ctx.bool("rev%d" % t):
          ks.reverse()
        vals = {k: (i + t) % ref.nv for i, k in enumerate(ks)}
      else:
        k = ref.keys[int(op[3:])]
        vals = {k: ctx.choice("val%d" % t, list(range(ref.nv)))}
      if ctx.bool("inf%d" % t):
        ctx.cover("constrained_inf")
        p = math.inf
        ds.constrain_system(system, dict(vals))
      else:
        ctx.cover("constrained_finite")
        p = ctx.real("pen%d" % t, 0, 50)
        ds.constrain_system(system, dict(vals), p)
      for k, v in vals.items():
        for u in range(ref.nv):
          if u != v:
            ref.unary[k][u] = syslib.total([ref.unary[k][u], p])
      pens = check_state(ctx, system, ref,
                         "constraining does not add the penalty once")
      bound = dual_value(ref, pens)
    elif op == "noise":
      ctx.cover("noise")
      scale = 0.5
      before = {k: list(ref.unary[k]) for k in ref.keys}
      ds.break_symmetry_randomly(system, scale, random_seed=t)
      for i, k in enumerate(ref.keys):
        for v in range(ref.nv):
          b = before[k][v]
          now = system.data.extra_unary_costs[i, v]
          if daglib.is_inf(b):
            ctx.check(daglib.is_inf(now), "noise revived a forbidden value")
          else:
            ctx.check_le(b, now, "negative noise")
            ctx.check_le(now, b + scale, "noise beyond its scale")
          ref.unary[k][v] = now
      pens = check_state(ctx, system, ref, "noise is not shared out exactly")
      bound = dual_value(ref, pens)
    elif saved is None:
      ctx.cover("clone")
      saved = (system, {k: list(ref.unary[k]) for k in ref.keys},
               syslib.penalties(system, ref))
      system = ds.clone_system(system)
  if saved is not None:
    system, ref.unary, old = saved
    now = check_state(ctx, system, ref, "a clone changed the original")
    for a, b in zip(old, now):
      for r, s in zip(a, b):
        for x, y in zip(r, s):
          ctx.check_eq(x, y, "a clone changed the original's penalties")
