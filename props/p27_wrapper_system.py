"""P27: the wrapper's system prices every choice; its report is true."""
import numpy as np
from props import editlib, lib, regionlib
from props import p22_region_output as p22
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.wrappers import edit_distance_wrapper_base as base
from r_u_sure.wrappers import prefix_truncation_wrapper as ptw
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw

ID = "P27"
SYSTEMS = [("T", ["T"]), ("STE", ["T", ""]), ("STE", ["T", "T", "TT"]),
           ("STET", ["TT", "T"]), ("TXT", ["T", "TT"]), ("S(T)E", ["(T)", "T"]),
           ("(STE)", ["(T)", "(TT)"]), ("STXE", ["T", ""]), ("X", ["T", "T"]),
           ("SE", ["T", ""]), ("S(S)T(E)E", ["(T)"]), ("(S)TE", ["T"])]
MORE_S = [("STESTE", ["TT", "T"]), ("S(T)XE", ["(T)", "T", "(T)T"]),
          ("S(STE)E", ["(T)", "()"]), ("XTXTX", ["TT", "T"])]
INFO = [("STE", "T", ["T", ""]), ("TXT", "T", ["T", "TT"]),
        ("STE", "TT", ["T"]), ("S(T)E", "(T)", ["T", "(T)"]),
        ("STXE", "", ["T", ""]), ("T", "T", []), ("DSTE", "DT", ["T", "T"])]
MORE_I = [("STET", "TT", ["T", "TT"]), ("STE", "T", ["T", "TT", ""]),
          ("TXTX", "TT", ["T", ""])]
PROC = ["T", "TT", "TDT", "(T)T", "T(DT)", "T(T(T))D", "DT(TT)"]
MORE_C = ["(T(DT)T)", "T(T)(T)", "D(T)D(T)D", "(TDTD)T"]
LARGE_S = [("STET", ["TT", "T", "", "TTT", "TT"]),
           ("T(STXE)T", ["T(T)", "(T)T", "", "TTT"]),
           ("STETXSTE", ["TTTT", "TTT", "TT", ""]),
           ("S(T(ST)E)E(T)", ["(T(T)T)(T)T", "(T)T", "T(TT)"]),
           ("XTXTXTXTX", ["TTTT", "TTTTTTT", "T", "TT", "TTT", ""])]
LARGE_I = [("TSTDTEXT", "TTT", ["TTT", "TT", "TTTT", "", "TDT", "T"]),
           ("(STE)TXSTTET", "(T)TTT", ["(T)TTT", "(T)T", "TTTT", "(T)TT"])]
LARGE_C = ["TDT(T(TDT)DT(T)T)DTDT(TT(T(TD)))T", "D(TDTD)D(TTTTTTT(T)T)D"]
LONG = ["def", "a_rather_long_identifier", "(", "x<y", "\u00e9t\u00e9", ":",
        "return", "&amp;", "'text'", "", "+", "zz"]
BOUNDS = {
    "large cases": "%d systems with 3..6 targets (fixed parameters, "
                   "every assignment), %d reports with 4..6 "
                   "samples (fixed parameters, long texts), %d larger trees "
                   "with texts of 0..24 characters and groups to depth 4, "
                   "every fifth prediction location (thorough: every)" % (
                       len(LARGE_S), len(LARGE_I), len(LARGE_C)),
    "systems": "quick: %d prototype/target lists, thorough: %d; 1..3 targets" %
               (len(SYSTEMS), len(SYSTEMS + MORE_S)),
    "weights": "the default, or given weights from a fixed list",
    "parameters": "system: all eight utility parameters arbitrary reals in "
                  "[-10, 10], insertion cost >= 0; report: four of them "
                  "arbitrary, the others fixed (all fixed for the variance)",
    "assignments": "system: every assignment of every decision (symbolic); "
                   "report: every well-formed choice",
    "processing": "%d trees (thorough %d) of 1..2-character texts over any "
                  "letter, '<' and newline, every prediction location" % (
                      len(PROC), len(PROC + MORE_C)),
}
ASSUMPTIONS = ["insertion costs are non-negative (documented)",
               "costs are exact reals; float rounding is not modelled",
               "numba's compiled code behaves as its Python source"]
COVER = ["weights", "default", "jit", "rank", "samples", "exit", "regions",
         "shown", "same_target", "variance"]


def esc(s):
  return s.replace("(", "<").replace(")", ">")


def cases(tier):
  q = tier == "quick"
  out = []
  for p, t, ts in LARGE_I:
    for k in range(1 if q else 4):
      out.append(("large_info_%s_%d" % (esc(p), k),
                  {"mode": "info", "p": p, "t": t, "ts": ts, "fixed": True,
                   "large": k}))
  for p in LARGE_C:
    for w in ("regions", "prefix", "both"):
      out.append(("large_process_%s_%s" % (w, esc(p)),
                  {"mode": "process", "p": p, "which": w,
                   "large": 5 if q else 1}))
  for p, ts in LARGE_S:
    out.append(("large_system_" + esc(p),
                {"mode": "system", "p": p, "ts": ts, "large": 0}))
  for i, (p, ts) in enumerate(SYSTEMS if q else SYSTEMS + MORE_S):
    out.append(("system_%s_%s" % (esc(p), "_".join(esc(t) for t in ts)),
                {"mode": "system", "p": p, "ts": ts, "jit": i == 1}))
  for p, t, ts in (INFO if q else INFO + MORE_I):
    out.append(("info_%s_%s_%s" % (esc(p), esc(t), "_".join(map(esc, ts))),
                {"mode": "info", "p": p, "t": t, "ts": ts}))
    if len(ts) > 1:
      out.append(("variance_%s_%s" % (esc(p), "_".join(map(esc, ts))),
                  {"mode": "info", "p": p, "t": t, "ts": ts, "fixed": True}))
  for p in (PROC if q else PROC + MORE_C):
    for w in ("regions", "prefix", "both"):
      out.append(("process_%s_%s" % (w, esc(p)),
                  {"mode": "process", "p": p, "which": w}))
  return out


def words_for(ctx, shape, name, large=None):
  out = []
  for c in shape:
    if c == "T" and large is not None:
      k = len(out) + large
      if name != "p" and k % 3 == 1:
        k += len(name)  # not every target has the prototype's word
      out.append(LONG[k % len(LONG)])
    elif c == "T":
      out.append(ctx.choice("%s%d" % (name, len(out)), ["a", "bc"]))
    elif c == "D":
      out.append(" ")
  return out


def decisions(ctx, flat):
  x = {}
  for m in flat:
    if m.key is not None:
      x[m.key] = ctx.int("x%d" % m.index, 1, 3)
  return x


def run(ctx, mode, p, ts=None, t=None, jit=False, which=None, fixed=False,
        large=None):
  if mode == "system":
    system(ctx, p, ts, jit, large)
  elif mode == "info":
    info(ctx, p, t, ts, fixed, large)
  else:
    process(ctx, p, which, large)


def build_targets(ctx, ts, jit, name="w", large=None):
  trees, packed = [], []
  for i, t in enumerate(ts):
    if t in ts[:i] and ctx.bool("%s_same%d" % (name, i)):
      ctx.cover("same_target")  # one and the same object, given twice
      trees.append(trees[ts.index(t)])
      packed.append(packed[ts.index(t)])
      continue
    n = lib.build(t, words_for(ctx, t, "%s%d_" % (name, i),
                               None if large is None else large + i // 3))
    trees.append(regionlib.index_nodes(n)[0])
    packed.append(regionlib.pack_tree(n, jit))
  return trees, packed


def system(ctx, p, ts, jit, large=None):
  texts = ["a" if c == "T" else " " for c in p if c in "TD"]
  if large is not None:
    texts = words_for(ctx, p, "p", large)
  pn = lib.build(p, texts)
  ptree, flat = regionlib.index_nodes(pn)
  x = decisions(ctx, flat)
  par = editlib.parameters(ctx) if large is None else \
      editlib.fixed_parameters([1.0, 0.75, 0.5, 0.625, 0.375, 0.25, 1.5, 0.125])
  trees, packed = build_targets(ctx, ts, jit, large=large)
  if jit:
    ctx.cover("jit")
  w = base.EditDistanceWrapperBase(par, use_numba=jit)
  scale = ctx.choice("scale", [None, [0.5, 0.25, 2.0, 0.0625, 1.5, 1.0][:len(ts)],
                               [1.0, 3.0, 0.125, 0.5, 0.75, 0.25][:len(ts)]])
  ctx.cover("default" if scale is None else "weights")
  sysm = w.build_system(regionlib.pack_tree(pn, jit), {}, packed,
                        target_utility_scale_factors=scale)
  n = len(ts)
  weights = [1.0 / n] * n if scale is None else scale
  parts = []
  seen = set()
  for table, data in zip(sysm.data.dag_tables, sysm.conversion_data):
    parts.append(editlib.dag_cost(
        ctx, table.dag, regionlib.edge_table(table.dag, data), x))
    for k in data.variable_keys:
      seen.add(k)
  for k in seen:
    ctx.check(k in x, "a decision that the prototype does not have")
  for k in x:
    if k not in seen:
      parts.append(ctx.ite(x[k] == regionlib.NA, 0, editlib.BIG))
  got = ctx.sum(parts)
  ok, where, _ = regionlib.well_formed(ctx, ptree, x)
  want = ctx.sum([
      f * editlib.reference_cost(ctx, ptree, tt, x, where, par)
      for f, tt in zip(weights, trees)])
  bad = ctx.ite(ok, False, True)
  eps = 1e-6
  ctx.check(ctx.any([bad, got <= want + eps]),
            "the system charges more than the weighted edit distances")
  ctx.check(ctx.any([bad, got >= want - eps]),
            "the system charges less than the weighted edit distances")
  ctx.check(ctx.any([ok, got >= editlib.BIG / 2]),
            "an ill-formed choice has a finite cost")
  ctx.check(len(sysm.data.dag_tables) == n + 1, "number of diagrams")


def info(ctx, p, t, ts, fixed, large=None):
  """solution_info reports the true costs of a choice."""
  pn = lib.build(p, words_for(ctx, p, "p", large))
  ptree, flat = regionlib.index_nodes(pn)
  x, shown = p22.decide(ctx, ptree)
  ok, where, _ = regionlib.well_formed(
      ctx, ptree, {k: int(x[k]) for k in x})
  if not ok:
    ctx.stop()
  xi = {k: int(x[k]) for k in x}
  real = lambda name, v: v if fixed else ctx.real(name, 0, 8)
  par = ed.TrustRegionUtilityParameters(
      high_confidence_match_utility_per_char=1.0,
      high_confidence_delete_cost_per_char=real("delete", 0.75),
      low_confidence_match_utility_per_char=real("match", 0.5),
      low_confidence_delete_cost_per_char=0.5,
      insert_cost_per_char=real("insert", 0.375),
      low_confidence_region_cost=0.25,
      high_confidence_start_editing_cost=real("start", 1.5),
      low_confidence_start_editing_cost=0.125)
  ttree, tp = build_targets(ctx, [t], False, "e", large)
  strees, sp = build_targets(ctx, ts, False, large=large) if ts else ([], [])
  w = base.EditDistanceWrapperBase(par, use_numba=False)
  storage = regionlib.pack_tree(pn, False)
  weight = ctx.choice("weight", [None, [0.5]])
  evaluated = w.build_system(storage, {}, tp,
                             target_utility_scale_factors=weight)
  samples = w.build_system(storage, {}, sp) if ts else None
  r = w.solution_info(storage, tp[0], {}, evaluated, x, sample_system=samples)
  parts = r["extracted_parts"]
  real = [s for s in shown if s[0] is not None]
  ctx.check("".join([a for a, b in parts if not b]) ==
            "".join([a for a, b in real if not b]),
            "text outside of the regions")
  ctx.check(len(parts) == len(shown), "number of parts")
  for (a, b), (c, d) in zip(parts, shown):
    ctx.check(bool(b) == d, "a part is on the wrong side of a region boundary")
    if c is not None:
      ctx.check(a == c, "text of a part")
  cost = lambda tree: editlib.reference_cost(ctx, ptree, tree, xi, where, par)
  total = cost(ttree[0])
  ctx.check_eq(r["total_cost"], total, "total cost")
  if ts:
    ctx.cover("samples")
    costs = [cost(s) for s in strees]
    got = r["sample_system_costs_unsorted"]
    ctx.check(len(got) == len(costs), "number of sample costs")
    for a, b in zip(got, costs):
      ctx.check_eq(a, b, "cost of a sample")
    order = r["sample_system_costs"]
    ctx.check(len(order) == len(costs), "number of sorted sample costs")
    for a, b in zip(order, order[1:]):
      ctx.check_le(a, b, "sample costs are not sorted")
    ctx.check_eq(ctx.sum(list(order)), ctx.sum(costs), "sorted sample costs")
    mean = ctx.sum(costs) / len(costs)
    ctx.check(abs(r["sample_system_cost_average"] - mean) < 1e-6,
              "average sample cost")
    if len(costs) > 1 and fixed:
      ctx.cover("variance")
      var = ctx.sum([(c - mean) * (c - mean) for c in costs]) / (
          len(costs) - 1)
      ctx.check(abs(r["sample_system_cost_variance"] - var) < 1e-6,
                "variance of the sample costs")
    ctx.cover("rank")
    below = ctx.sum([ctx.ite(c < total, 1, 0) for c in costs])
    ctx.check(r["true_cost_rank_in_sample_system"] == below,
              "rank of the evaluated cost among the samples")


def process(ctx, p, which, large=None):
  """Prototype, target and context hold the right text and markers."""
  texts = []
  for i, c in enumerate([c for c in p if c in "TD"]):
    if large is not None:
      w = LONG[i % len(LONG)] if c == "T" else ["  ", " # b\n", "\n"][i % 3]
    else:
      w = ctx.char("c%d" % i, "a<\n") if c == "T" else " "
    if i == 1:
      w = w + ctx.char("z", "z&\n") if large is not None else w + "z"
    texts.append(w)
  nodes = lib.build(p, texts)
  before = lib.snapshot(nodes)
  whole = lib.text_of(nodes)
  at = ctx.choice("location", list(range(0, len(whole) + 1, large or 1)))
  if which == "regions":
    w = urw.UncertaintyRegionsWrapper(use_numba=False)
  else:
    w = ptw.PrefixByEditDistanceWrapper(
        use_numba=False, also_insert_uncertainty_regions=which == "both")
  proto, context = w.process_prototype_and_context(nodes, at)
  target = w.process_target(nodes, at)
  C = psn.PackedSequenceNodeCategory

  def read(storage):
    text = ""
    kinds = set()
    for nid in storage.preorder_traversal:
      kinds.add(nid.category)
      if nid.category == C.TEXT_TOKEN_NODE:
        text = text + storage.text_token_nodes[
            nid.index_in_category].text_contents
      elif nid.category == C.TEXT_DECORATION_NODE:
        text = text + storage.text_decoration_nodes[
            nid.index_in_category].text_contents
    return text, kinds

  text, kinds = read(proto)
  ctx.check(text == whole[at:], "text of the prototype")
  ctx.check((C.EARLY_EXIT_NODE in kinds) <= (which != "regions"),
            "early exits")
  ctx.check((C.REGION_START_NODE in kinds or C.REGION_END_NODE in kinds) <=
            (which != "prefix"), "region markers")
  if which != "regions" and len(whole) > at:
    ctx.cover("exit")
    ctx.check(C.EARLY_EXIT_NODE in kinds, "the suggestion cannot be cut")
  if which != "prefix" and kinds & {C.REGION_START_NODE}:
    ctx.cover("regions")
  text, kinds = read(target)
  ctx.check(text == whole[at:], "text of the target")
  ctx.check(not kinds & {C.EARLY_EXIT_NODE, C.REGION_START_NODE,
                         C.REGION_END_NODE}, "a target has no decisions")
  ctx.check(lib.snapshot(nodes) == before, "the parsed nodes were modified")
  # Showing the suggestion with no decision taken shows everything.
  x = {}
  for nid in proto.preorder_traversal:
    if nid.category in (C.REGION_START_NODE, C.REGION_END_NODE,
                        C.EARLY_EXIT_NODE, C.TEXT_TOKEN_NODE, C.GROUP_NODE):
      cat = {C.REGION_START_NODE: rd.DecisionCategory.REGION_SHOULD_START,
             C.REGION_END_NODE: rd.DecisionCategory.REGION_SHOULD_END,
             C.EARLY_EXIT_NODE: rd.DecisionCategory.SHOULD_EARLY_EXIT}.get(
                 nid.category, rd.DecisionCategory.NODE_IN_REGION)
      v = rd.DecisionValue.FALSE
      if nid.category == C.REGION_END_NODE:
        v = rd.DecisionValue.NOT_APPLICABLE
      x[rd.DecisionKey(nid.preorder_index, cat)] = v
  ctx.cover("shown")
  page = w.render_solution_html(proto, context, x)
  cut = page.find("<style>")
  if cut >= 0:
    page = page[:cut] + page[page.find("</style>") + 8:]
  page = page.replace("<br>", "")
  got = "".join([c for c, _ in p22.read_html(ctx, page)])
  ctx.check(got == whole, "the page does not show context and suggestion")
