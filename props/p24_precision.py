"""P24: the derived costs make the requested precision the break-even point."""
from props import editlib, lib, regionlib
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.wrappers import prefix_truncation_wrapper as ptw
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw

ID = "P24"
BOUNDS = {
    "parameters": "precision and probability arbitrary reals in [0, 1], start "
                  "cost arbitrary real in [0, 1000], sensitivity arbitrary "
                  "real in [0, 1], token length arbitrary real in (0, 1000]",
    "end to end": "systems built by both wrappers for a one-token suggestion "
                  "(length 1..3 and 40) against a right and a wrong target of the "
                  "same length, weighted by any probability; precision, "
                  "sensitivity and start cost from 3 values each, also the "
                  "wrappers' defaults",
}
ASSUMPTIONS = ["costs are exact reals; float rounding is not modelled"]
COVER = ["strict", "insensitive", "equal", "keep", "flag", "prefix", "default"]


def cases(tier):
  out = [("formulas", {"mode": "formulas"})]
  ps = (0.25, 0.5, 0.75) if tier == "quick" else (0.125, 0.25, 0.5, 0.75, 1.0)
  for n in (1, 2, 3, 40):
    for w in ("uncertainty", "prefix"):
      for p in ps:
        out.append(("%s_%d_%s" % (w, n, p), {"mode": w, "n": n, "p": p}))
    out.append(("default_%d" % n, {"mode": "default", "n": n}))
  return out


def formulas(ctx):
  p = ctx.real("precision", 0, 1)
  q = ctx.real("probability", 0, 1)
  s = ctx.real("sensitivity", 0, 1)
  c = ctx.real("start", 0, 1000)
  n = ctx.real("length", 0, 1000)
  ctx.assume(n > 0)
  par = urw.derive_uncertainty_region_costs(
      effective_precision=p, high_confidence_start_editing_cost=c,
      low_confidence_edit_sensitivity=s)
  hit = n * par.high_confidence_match_utility_per_char
  miss = (-n * par.high_confidence_delete_cost_per_char -
          par.high_confidence_start_editing_cost)
  low_hit = (n * par.low_confidence_match_utility_per_char -
             par.low_confidence_region_cost)
  low_miss = (-n * par.low_confidence_delete_cost_per_char -
              par.low_confidence_start_editing_cost -
              par.low_confidence_region_cost)
  high = q * hit + (1 - q) * miss
  low = q * low_hit + (1 - q) * low_miss
  ctx.check_eq(par.high_confidence_start_editing_cost, c,
               "the start cost is not the requested one")
  ctx.check_eq(par.high_confidence_match_utility_per_char, 1,
               "a matched character is not worth one")
  ctx.check_eq(par.high_confidence_delete_cost_per_char, 1,
               "a deleted character does not cost one")
  ctx.check_eq(par.insert_cost_per_char, 0,
               "inserted characters are not free")
  ctx.check_le(0, par.low_confidence_region_cost, "a negative region cost")
  ctx.check_le(miss, hit, "being wrong beats being right")
  ctx.check_le(low_miss, low_hit, "being wrong beats being right in a region")
  ctx.check_eq(low_hit - low_miss, s * (hit - miss),
               "edits in a region do not have the requested relative cost")
  if s < 1:
    if q > p:
      ctx.cover("keep")
      ctx.check(high > low, "a token likelier than the precision is flagged")
    elif q < p:
      ctx.cover("flag")
      ctx.check(high < low, "a token less likely than the precision is kept")
    else:
      ctx.cover("equal")
      ctx.check_eq(high, low, "no break-even at the precision")
    if s > 0:
      ctx.cover("strict")
  else:
    ctx.cover("insensitive")
    ctx.check_eq(low_hit, hit, "full sensitivity still makes a difference")
    ctx.check_eq(low_miss, miss, "full sensitivity still makes a difference")


def run(ctx, mode, n=0, p=0):
  if mode == "formulas":
    return formulas(ctx)
  q = ctx.real("probability", 0, 1)
  if mode == "default":
    ctx.cover("default")
    w = urw.UncertaintyRegionsWrapper(use_numba=False)
    p, s = 0.7, 0.5
    # 0.7 is not exact in binary: stay clear of the break-even point
    ctx.assume(ctx.any([q < 0.699, q > 0.701]))
  else:
    s = ctx.choice("sensitivity", [0.25, 0.5, 0.0])
    c = ctx.choice("start", [5.0, 1.0, 0.0])
    if mode == "prefix":
      ctx.cover("prefix")
      w = ptw.PrefixByEditDistanceWrapper(
          start_editing_cost=c, also_insert_uncertainty_regions=True,
          uncertainty_region_effective_precision=p,
          low_confidence_edit_sensitivity=s, use_numba=False)
    else:
      w = urw.UncertaintyRegionsWrapper(
          effective_precision=p, high_confidence_start_inserting_cost=c,
          low_confidence_edit_sensitivity=s, use_numba=False)
  suggestion = lib.build("STE", ["a" * n])
  storage = regionlib.pack_tree(suggestion, False)
  right = regionlib.pack_tree(lib.build("T", ["a" * n]), False)
  wrong = regionlib.pack_tree(lib.build("T", ["b" * n]), False)
  system = w.build_system(storage, {}, [right, wrong],
                          target_utility_scale_factors=[q, 1 - q])
  _, flat = regionlib.index_nodes(suggestion)
  kept = {flat[0].key: regionlib.FALSE, flat[1].key: regionlib.FALSE,
          flat[2].key: regionlib.NA}
  flagged = {m.key: regionlib.TRUE for m in flat}
  cost = {}
  for name, x in (("kept", kept), ("flagged", flagged)):
    parts = []
    for table, data in zip(system.data.dag_tables, system.conversion_data):
      parts.append(editlib.dag_cost(
          ctx, table.dag, regionlib.edge_table(table.dag, data), x))
    cost[name] = ctx.sum(parts)
  if q > p:
    ctx.cover("keep")
    ctx.check(cost["kept"] < cost["flagged"],
              "a token likelier than the precision is flagged")
  elif q < p:
    ctx.cover("flag")
    ctx.check(cost["flagged"] < cost["kept"],
              "a token less likely than the precision is kept")
  else:
    ctx.cover("equal")
    if mode != "default":
      ctx.check_eq(cost["flagged"], cost["kept"],
                   "no break-even at the precision")
