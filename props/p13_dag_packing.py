"""P13: packing a decision diagram keeps its paths, costs and assignments."""
from props import daglib
from r_u_sure.decision_diagrams import packed_dags

ID = "P13"
BOUNDS = {
    "diagrams": "fourteen topologies of 2..5 states and 1..6 edges; each edge "
                "assigns nothing or one of 2 keys (3 thorough)",
    "values": "symbolic, 2 values (3 thorough), missing value symbolic",
    "costs": "arbitrary reals in [-50, 50]",
    "large diagrams": "four fixed diagrams of up to 26 edges, 12 states, 9 "
                      "variables and 7 values, costs and missing value symbolic",
    "value order": "derived from the diagram, or given",
}
ASSUMPTIONS = ["every edge lies on a complete path (diagrams are pruned first)",
               "numba's compiled code behaves as its Python source"]
COVER = ["refused", "skipped_key", "missing_used", "given_order"]
QUICK = ["double", "chain", "skip", "pairs", "diamond", "chain_skip", "edge",
         "swapped", "ladder", "late"]


def cases(tier):
  out = []
  q = tier == "quick"
  for s in (QUICK if q else sorted(daglib.SKELETONS)):
    big = len(daglib.SKELETONS[s][1]) > 3
    for given in (False, True):
      if given and q and big:
        continue
      for keys in ((2,) if big and q else (2, 3)):
        if keys == 3 and len(daglib.SKELETONS[s][1]) > 4:
          continue
        out.append(("%s_%d_%d" % (s, keys, given),
                    {"skel": s, "keys": keys, "given": given,
                     "nv": 2 if q or big else 3}))
  if q:
    # keys in order along longer diagrams
    out.append(("late_ordered", {"skel": "late", "keys": 3, "given": True,
                                 "nv": 2, "filt": [[None, 0], [None, 1],
                                                   [1, 2], [None, 2], [2]]}))
    out.append(("pairs3_ordered", {"skel": "pairs3", "keys": 3, "given": True,
                                   "nv": 2, "filt": [[None, 0], [0], [None],
                                                     [1], [None, 2], [2]]}))
    out.append(("ladder_ordered", {"skel": "ladder", "keys": 3, "given": False,
                                   "nv": 2, "filt": [[None, 0], [None, 1], [1],
                                                     [None, 2], [2]]}))
  out.sort(key=lambda c: -len(daglib.SKELETONS[c[1]["skel"]][1]))
  for name in sorted(daglib.BIG):
    for given in (False, True):
      out.append(("big_%s_%d" % (name, given),
                  {"skel": name, "keys": 0, "given": given, "nv": 0}))
  return out


def run(ctx, skel, keys, given, nv, filt=None):
  if skel in daglib.BIG:
    dag, nv = daglib.big(ctx, skel, True)
    missing = ctx.int("missing", 0, nv - 1)
  else:
    dag, missing = daglib.make(ctx, skel, keys, nv, key_filter=filt)
  numba_fn = bool(ctx.bool("jit")) if len(dag.edges) < 3 else given
  try:
    packed, data = daglib.pack(dag, missing, nv if given else None, numba_fn)
  except ValueError:
    ctx.cover("refused")
    ctx.check(not daglib.well_ordered(dag),
              "a diagram whose paths assign keys in order was refused")
    return
  ctx.check(daglib.well_ordered(dag),
            "a diagram that assigns a key twice or out of order was accepted")
  names = daglib.keys_of(dag)
  ctx.check(list(data.variable_keys) == names, "variable keys differ")
  nk = len(names)
  ctx.check(packed.num_variable_keys == nk, "number of variables")
  ctx.check(packed.num_variable_values == len(data.variable_values),
            "number of values")
  for i in range(nk):
    ctx.check(data.variable_key_index_from_key[names[i]] == i, "key index")
  for j, v in enumerate(data.variable_values):
    ctx.check(data.variable_value_index_from_value[v] == j, "value index")
  if given:
    ctx.cover("given_order")
    ctx.check(list(data.variable_values) == list(range(nv)),
              "given value order was not used")
  else:
    for a, b in zip(data.variable_values, data.variable_values[1:]):
      ctx.check(a < b, "values are not sorted and distinct")
  # Table of edges.
  m = packed.packed_edge_matrix
  ne = len(m)
  ns = packed.num_tagged_states
  ctx.check(len(data.tagged_edges) == ne and len(data.tagged_states) == ns,
            "sizes of the packed tables differ")
  edges = []
  for i in range(ne):
    e = m[i]
    k = int(e["required_assignment_key_index"])
    v = int(e["required_assignment_value_index"])
    edges.append((int(e["source_index"]), int(e["dest_index"]), e["cost"], k,
                  v))
    t = data.tagged_edges[i]
    ctx.check(data.tagged_states[edges[-1][0]] == t.source and
              data.tagged_states[edges[-1][1]] == t.dest,
              "edge table and tagged edges disagree on states")
    ctx.check_eq(e["cost"], t.cost, "edge table and tagged edge costs differ")
    if t.required_assignment is None:
      ctx.check(k == -1, "spurious assignment")
    else:
      ctx.check(k >= 0 and names[k] == t.required_assignment.key,
                "assigned key differs")
      ctx.check(data.variable_values[v] == t.required_assignment.value,
                "assigned value differs")
    o = int(t.info)
    if o >= 0:
      ctx.check(dag.edges[o].cost is t.cost or
                bool(dag.edges[o].cost == t.cost), "original edge cost")
    ctx.check(edges[-1][0] < edges[-1][1], "edges do not go forward")
  # Groups of edges, and of states, by variable.
  gb = [int(x) for x in packed.edge_group_boundary_indices]
  ctx.check(len(gb) == 2 * nk + 2 and gb[0] == 0 and gb[-1] == ne and
            gb == sorted(gb), "edge group boundaries")
  sb = [int(x) for x in packed.state_variable_boundary_indices]
  ctx.check(len(sb) == nk + 2 and sb[0] == 0 and sb[-1] == ns and
            sb == sorted(sb), "state group boundaries")
  for i in range(ne):
    s, d, _, k, _ = edges[i]
    g = [j for j in range(2 * nk + 1) if gb[j] <= i < gb[j + 1]][0]
    if g % 2:
      ctx.check(k == g // 2, "assigning edge outside its variable's group")
      ctx.check(sb[k] <= s < sb[k + 1] <= d < sb[k + 2],
                "assigning edge does not step to the next state group")
    else:
      ctx.check(k == -1, "assigning edge in a non-assigning group")
      ctx.check(sb[g // 2] <= s < sb[g // 2 + 1] and
                sb[g // 2] <= d < sb[g // 2 + 1],
                "non-assigning edge leaves its state group")
  out = data.outgoing_edge_indices_for_tagged_state_index
  for s in range(ns):
    ctx.check([int(x) for x in out[s]] ==
              [i for i in range(ne) if edges[i][0] == s], "outgoing edge lists")
  # Paths correspond one to one.
  found = []

  def go(at, acc):
    if at == ns - 1:
      found.append(acc)
      return
    for i in range(ne):
      if edges[i][0] == at:
        go(edges[i][1], acc + [i])

  go(0, [])
  originals = daglib.all_paths(dag)
  mapped = []
  for p in found:
    ids = [int(data.tagged_edges[i].info) for i in p]
    orig = [o for o in ids if o >= 0]
    mapped.append(orig)
    ks = [edges[i][3] for i in p if edges[i][3] >= 0]
    ctx.check(ks == list(range(nk)),
              "a packed path does not assign every variable once, in order")
    want = daglib.assignment_of([dag.edges[o] for o in orig], names, missing)
    if len(orig) < len(p):
      ctx.cover("missing_used")
    for i in p:
      _, _, c, k, v = edges[i]
      if k >= 0:
        ctx.check(data.variable_values[v] == want[names[k]],
                  "a packed path changes an assignment")
      if ids[p.index(i)] < 0:
        ctx.check_eq(c, 0, "an inserted edge has a cost")
  ctx.check(sorted(mapped) == sorted([[e.info for e in p] for p in originals]),
            "packed paths are not the original paths")
  for p in originals:
    if len([e for e in p if e.required_assignment is not None]) < nk:
      ctx.cover("skipped_key")
