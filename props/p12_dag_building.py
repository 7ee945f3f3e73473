"""P12: DAG construction, pruning and state rewriting keep every path."""
import math
import numba
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as gsd

ID = "P12"
BOUNDS = {
    "graphs": "every topologically listed multigraph with up to 4 states and "
              "4 edges (quick), 5 states and 5 edges (thorough), in every "
              "listing order, isolated start or end included",
    "costs": "each finite (arbitrary real) or infinite",
    "scratch table": "1..3 slots (so that states collide), and 64",
    "building": "every sequence of 3 (quick) / 4 (thorough) edge additions "
                "over 3 states, self-loops included",
}
BOUNDS["large graphs"] = (
    "three fixed graphs of 14, 20 and 17 states, 24, 30 and 42 edges "
    "(dead ends, unreachable parts, parallel edges, a full lattice), four edges finite or infinite, "
    "scratch tables of 1..64 slots")
# (from, to), topological; "!" marks edges that may be infinite
BIG = {
    "a": (14, "0-1 0-2 0-3! 1-4 1-5 2-5 2-6! 3-6 3-7 4-8 5-8 5-8 5-9! 6-9 7-10 "
              "8-11 8-12 9-12 9-12 10-12! 11-13 12-13 12-13 0-13"),
    "b": (20, "0-2 0-4 1-3 1-5 2-6! 4-6 3-7 5-7 6-8 6-9 7-9 8-10 9-10 9-11! "
              "10-12 10-13 11-13 12-14 13-14 13-15 14-16! 14-17 15-17! 16-18 "
              "17-18 18-19 17-19 10-19 8-19 6-19"),
    "c": (17, " ".join(
        ["0-1", "0-2", "0-3"] +
        ["%d-%d%s" % (3 * l + i, 3 * l + j + 3, "!" if i == j == l % 3 else "")
         for l in range(4) for i in (1, 2, 3) for j in (1, 2, 3)] +
        ["13-16", "14-16", "15-16"])),
}
ASSUMPTIONS = ["numba's compiled code behaves as its Python source"]
COVER = ["pruned", "nopath", "parallel", "collision", "rejected", "traceback"]


def cases(tier):
  q = tier == "quick"
  out = []
  for k in range(0, (4 if q else 5) + 1):
    for mode in ("prune", "rewrite"):
      out.append(("%s%d" % (mode, k), {"mode": mode, "k": k,
                                       "n": 4 if q else 5}))
  for k in range(1, (3 if q else 4) + 1):
    out.append(("build%d" % k, {"mode": "build", "k": k, "n": 3}))
  out.append(("traceback", {"mode": "traceback", "k": 1, "n": 2}))
  for name in sorted(BIG):
    for mode in ("prune", "rewrite"):
      out.append(("big_%s_%s" % (name, mode), {
          "mode": mode, "k": len(BIG[name][1].split()), "n": BIG[name][0],
          "big": name}))
  out.sort(key=lambda c: -c[1]["k"])
  return out


def graph(ctx, k, n):
  """Edges (source, dest, cost); listed in topological order."""
  pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
  edges = []
  seen = []
  for i in range(k):
    # After an edge leaves a state, none may enter it.
    a, b = ctx.choice("e%d" % i, [p for p in pairs if p[1] not in seen])
    seen.append(a)
    cost = ctx.real("c%d" % i, -9, 9)
    if ctx.bool("inf%d" % i):
      cost = math.inf
    edges.append(gsd.Edge(a, b, cost, None, i))
  return edges


def big_graph(ctx, name):
  edges = []
  for i, arc in enumerate(BIG[name][1].split()):
    a, b = arc.replace("!", "").split("-")
    cost = ctx.real("c%d" % i, -9, 9)
    if "!" in arc and ctx.bool("inf%d" % i):
      cost = math.inf
    edges.append(gsd.Edge(int(a), int(b), cost, None, i))
  return edges


def paths(edges, start, end):
  out = []

  def go(at, acc):
    if at == end:
      out.append(tuple(acc))
      return
    for e in edges:
      if e.source == at and not is_inf(e.cost):
        go(e.dest, acc + [e.info])

  go(start, [])
  return sorted(out)


def is_inf(c):
  return isinstance(c, float) and math.isinf(c)


def run(ctx, mode, k, n, big=None):
  if mode == "build":
    return build(ctx, k, n)
  if mode == "traceback":
    return tracebacks(ctx)
  edges = graph(ctx, k, n) if big is None else big_graph(ctx, big)
  final = n - 1
  dag = gsd.CompleteStateDAG(0, list(edges), final)
  want = paths(edges, 0, final)
  used = sorted(set(i for p in want for i in p))
  if len(used) < k:
    ctx.cover("pruned")
  if mode == "prune":
    ov = numba.OVERLOADS["prune_to_reachable"]
    for fn in (gsd.prune_to_reachable, ov(dag), gsd.prune_to_reachable_jit):
      got = fn(dag)
      ctx.check(got.initial_state == 0 and got.final_state == final,
                "pruning changed the end states")
      ctx.check([e.info for e in got.edges] == used,
                "pruned edges are not the edges of complete paths, in order")
      for e in got.edges:
        ctx.check(e is edges[e.info] or e == edges[e.info],
                  "pruning changed an edge")
    ctx.check(len(dag.edges) == k, "pruning modified its input")
    states = []
    for e in edges:
      for s in (e.source, e.dest):
        if s not in states:
          states.append(s)
    ctx.check(list(gsd.extract_state_list(dag)) == states,
              "state list differs")
    reach = set()
    for i in used:
      reach.add(edges[i].source)
      reach.add(edges[i].dest)
    if want:
      ctx.check(sorted(gsd.compute_reachable_states(dag)) == sorted(reach),
                "reachable states differ")
    return
  slots = ctx.choice("slots", (1, 2, 3, 64) if k < 4 else
                     (1, 2) if big is None else (1, 5, 13, 64))
  if slots < 3:
    ctx.cover("collision")
  table = np.full((slots,), -1, dtype=np.int32)
  try:
    got = gsd.prune_unreachable_and_rewrite_states(dag, table)
  except ValueError:
    ctx.cover("nopath")
    ctx.check(not want, "a DAG with a complete path was refused")
    return
  ctx.check(len(want) > 0, "a DAG without complete path was accepted")
  ctx.check([int(e.info) for e in got.edges] == used,
            "rewritten edges are not the edges of complete paths, in order")
  name = {0: int(got.initial_state), final: int(got.final_state)}
  for e in got.edges:
    o = edges[e.info]
    ctx.check_eq(e.cost, o.cost, "rewriting changed a cost")
    for s, t in ((o.source, e.source), (o.dest, e.dest)):
      ctx.check(name.setdefault(s, int(t)) == int(t),
                "one state was given two numbers")
  if len(used) > len(name) - 1:
    ctx.cover("parallel")
  ctx.check(sorted(name.values()) == list(range(len(name))),
            "states are not numbered consecutively and uniquely")


def build(ctx, k, n):
  """Adding edges accepts exactly the topologically sorted ones."""
  dag = gsd.partial_state_dag_starting_from(0)
  jit = gsd.partial_state_dag_starting_from(0)
  jit_add = numba.OVERLOADS["partial_state_dag_add_edge"](None, None)
  added = []
  for i in range(k):
    a = ctx.int("a%d" % i, 0, n - 1)
    b = ctx.int("b%d" % i, 0, n - 1)
    e = gsd.Edge(a, b, ctx.real("c%d" % i, -9, 9), None, i)
    bad = ctx.any([a == b] + [b == x.source for x in added])
    before = list(dag.edges)
    try:
      gsd.partial_state_dag_add_edge(dag, e)
    except ValueError:
      ctx.cover("rejected")
      ctx.check(bad, "a topologically sorted edge was refused")
      ctx.check(len(dag.edges) == len(before), "refused edge was added")
      continue
    ctx.check(not_(ctx, bad), "an edge that makes the listing unsorted or "
              "cyclic was accepted")
    added.append(e)
    jit_add(jit, e)
    ctx.check(len(dag.edges) == len(added) and dag.edges[-1] is e,
              "accepted edge was not appended")
    ctx.check(len(jit.edges) == len(added) and jit.edges[-1] is e,
              "accepted edge was not appended (jit)")
  done = gsd.partial_state_dag_finish(dag, n - 1)
  ctx.check(done.initial_state == 0 and done.final_state == n - 1 and
            [e.info for e in done.edges] == [e.info for e in added],
            "finished DAG differs from what was added")


def not_(ctx, c):
  return ctx.ite(c, 0, 1) == 1


def tracebacks(ctx):
  """Debug tracebacks can be stripped again."""
  info = ctx.choice("info", [None, 7, {"a": 1}, {}])
  e = gsd.Edge(0, 1, ctx.real("c", -9, 9), None, info)
  dag = gsd.partial_state_dag_starting_from(0)
  with gsd.adding_edge_tracebacks():
    gsd.partial_state_dag_add_edge(dag, e)
  ctx.cover("traceback")
  if ctx.bool("fails"):
    try:
      with gsd.adding_edge_tracebacks():
        gsd.partial_state_dag_add_edge(dag, gsd.Edge(1, 1, 0, None, None))
    except ValueError:
      pass
  got = gsd.strip_traceback_from_edge(dag.edges[0])
  ctx.check(got.source == 0 and got.dest == 1 and got.info == info and
            got.required_assignment is None, "stripping changed the edge")
  ctx.check_eq(got.cost, e.cost, "stripping changed the cost")
  dag2 = gsd.partial_state_dag_starting_from(0)
  gsd.partial_state_dag_add_edge(dag2, e)
  ctx.check(dag2.edges[0] is e, "tracebacks stayed enabled")
  same = gsd.strip_traceback_from_edge(e)
  ctx.check(same.info == info, "stripping an unmarked edge changed it")
