"""P26: region baselines flag exactly the tokens their rule names."""
import math
from props import editlib, lib, regionlib
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw

ID = "P26"
SHAPES = ["STE", "STET", "TSTE", "STESTE", "STTE", "STESTESTE", "S(T)E",
          "(STE)STE", "S(STE)E", "S(STE)ESTE", "SDTESTE", "T", "STESTTESTE",
          "S(STESTE)ESTE", "S(S(STE)E)ESTE", "STE(STE)STE", "SSTTEE",
          "STESTESTESTE", "S(TT)ESTE", "STEDSTE", "(DSTE)DSTE"]
MORE = ["STESTESTESTESTE", "S(STESTE)E(STE)", "S(S(STE)E)ESTESTE",
        "SSTESTEESTE", "S(STE)S(STE)ESTE", "(STE(STE))STESTE"]
LARGE = ["STESTTESTDTESTESTE", "S(STES(STE)ETT)ESTESTTTE",
         "TTTTSTETTTTDSTTTETTT", "S(S(S(STE)E)E)ESDTE", "STESTESTESTESTESTE",
         "(" * 12 + "STE" + ")" * 12 + "STE"]
LONG = ["def", "a_rather_long_identifier", "(", "x" * 300, "\u00e9t\u00e9", ":",
        "return", "n" * 5000, "'text'", "y", "+", "zz", "==", "foo", "p", "**",
        "self", "-1", "q"]
RULES = ["token", "cumulative", "offset", "fraction", "depth"]
BOUNDS = {
    "large cases": "%d longer prototypes (up to 17 tokens, six regions or "
                   "groups to depth 12, texts of 1..5000 characters, model tokens "
                   "that split them): two tokens of arbitrary log-probability, "
                   "the others fixed; other limits as below" % len(LARGE),
    "prototypes": "quick: %d shapes, thorough: %d (tokens, decorations, "
                  "groups, regions around tokens, groups or runs)" % (
                      len(SHAPES), len(SHAPES + MORE)),
    "texts": "tokens of 0..2 characters, all different; decorations of two "
             "characters with and without a line break",
    "probabilities": "arbitrary real log-probability per token and arbitrary "
                     "probability threshold",
    "limits": "arbitrary real character offset and example fraction, every "
              "pair of depth cutoffs in 1..2",
    "utility": "the wrapper's default parameters",
}
ASSUMPTIONS = ["log-probabilities are exact reals; exp is any increasing "
               "positive function with exp(0) = 1",
               "one model token per parsed text (alignment is P11)",
               "the clock does not run out (timeouts are P17)",
               "cumulative rule: no empty tokens (they count the next "
               "token's probability, as documented for empty spans)"]
COVER = ["flagged", "kept", "impossible", "names", "empty", "depth"]


def cases(tier):
  out = []
  for s in (SHAPES if tier == "quick" else SHAPES + MORE):
    n = s.replace("(", "<").replace(")", ">")
    for r in RULES:
      if r == "depth" and "(" not in s:
        continue
      out.append(("%s_%s" % (r, n), {"shape": s, "rule": r}))
  for s in LARGE:
    n = s.replace("(", "<").replace(")", ">")
    for r in RULES:
      if r == "depth" and "(" not in s:
        continue
      for k in ((1,) if tier == "quick" else (0, 1, 2, 3)):
        out.append(("large_%s_%s_%d" % (r, n, k),
                    {"shape": s, "rule": r, "large": k}))
  out.append(("wrapper", {"shape": "STESTE", "rule": "wrapper"}))
  out.sort(key=lambda c: -len(c[1]["shape"]))
  return out


def choices(tree):
  """Every well-formed choice of regions, as decision dictionaries."""

  def go(seq, i, inside, own, k):
    """inside: in a region; own: it was opened in this sequence."""
    if i == len(seq):
      if not own:
        yield from k({})
      return
    n = seq[i]

    def rest(d, ins, ow):
      for more in go(seq, i + 1, ins, ow, k):
        yield {**d, **more}

    if n.kind == "T":
      v = regionlib.TRUE if inside else regionlib.FALSE
      yield from rest({n.key: v}, inside, own)
    elif n.kind == "G":
      v = regionlib.TRUE if inside else regionlib.FALSE
      for d in go(n.children, 0, inside, False, lambda e: [e]):
        yield from rest({n.key: v, **d}, inside, own)
    elif n.kind == "S":
      if inside:
        yield from rest({n.key: regionlib.NA}, inside, own)
      else:
        yield from rest({n.key: regionlib.FALSE}, False, False)
        yield from rest({n.key: regionlib.TRUE}, True, True)
    elif n.kind == "E":
      if not inside:
        yield from rest({n.key: regionlib.NA}, inside, own)
      else:
        yield from rest({n.key: regionlib.FALSE}, inside, own)
        if own:
          yield from rest({n.key: regionlib.TRUE}, False, False)
    else:
      yield from rest({}, inside, own)

  return list(go(tree, 0, False, False, lambda e: [e]))


def in_region_cost(flat, x, par):
  """Cost of matching the suggestion with itself."""
  c = 0.0
  for n in flat:
    if n.kind == "T":
      u = par.high_confidence_match_utility_per_char
      if x[n.key] == regionlib.TRUE:
        u = par.low_confidence_match_utility_per_char
      c -= u * len(n.node.text_contents)
    elif n.kind == "S" and x[n.key] == regionlib.TRUE:
      c += par.low_confidence_region_cost
  return c


def run(ctx, shape, rule, large=None):
  ctx.set_clock(lambda: 0.0)
  texts = []
  for c in shape:
    if large is not None and c == "T":
      texts.append(LONG[len(texts)])
    elif c == "T":
      w = ["a", "bc", "d", "ef", "g"][len(texts)]
      if len(texts) == 1 and rule != "cumulative" and ctx.bool("blank"):
        w = ""
        ctx.cover("empty")
      texts.append(w)
    elif large is not None and c == "D":
      texts.append([" # note\n", "\t\r"][len(texts) % 2])
    elif c == "D":
      texts.append(ctx.choice("blank%d" % len(texts), ["  ", " \n"]))
  nodes = lib.build(shape, texts)
  tree, flat = regionlib.index_nodes(nodes)
  storage = regionlib.pack_tree(nodes, False)
  plain = regionlib.pack_tree(lib.build(
      "".join(c for c in shape if c not in "SE"), texts), False)
  model = []
  probs = {}
  for n in flat:
    if n.kind in "TD" and n.node.text_contents != "":
      if rule in ("token", "cumulative"):
        lo, hi = -50, 0
        if large is not None and len(model) % 6 != large:
          lo = hi = -0.25 - (len(model) * 5 % 7) / 8.0
        lp = ctx.real("lp%d" % n.index, lo, hi)
      else:
        lp = -1.0 - n.index
      t = n.node.text_contents
      if large is not None and len(t) > 2:  # the first part is certain
        model.append((t[:2], 0.0))
        t = t[2:]
      model.append((t, lp))
      if n.kind == "T":
        probs[n.index] = lp
  w = urw.UncertaintyRegionsWrapper(
      use_numba=False, baseline_token_prob_thresholds=(0.1,),
      baseline_example_fractions=(0.5,), baseline_depth_cutoffs=((1, 1),))
  builder = urw.UncertaintyRegionsBaselineBuilder(
      wrapper=w, prototype=storage, prototype_suggestion_as_target=plain,
      context_info={}, model_tokens_and_log_probs=model)
  if rule == "wrapper":
    ctx.cover("names")
    got = w.build_baseline_assignments(storage, plain, {}, model)
    want = {
        "prob_threshold_0.1_nonempty":
            builder.baseline_assignment_from_token_probabilities(
                0.1, only_constrain_nonempty=True, cumulative=False),
        "prob_threshold_0.1_cumulative":
            builder.baseline_assignment_from_token_probabilities(
                0.1, only_constrain_nonempty=True, cumulative=True),
        "example_fraction_0.5":
            builder.baseline_assignment_from_example_fraction(0.5),
        "cutoff_anc_1_child_1":
            builder.baseline_assignment_from_depth_cutoff(
                ancestor_depth_cutoff=1, child_depth_cutoff=1),
    }
    ctx.check(sorted(got) == sorted(want), "names of the baselines")
    for k in want:
      ctx.check(got[k] == want[k], "baseline %s is another rule's" % k)
    return
  low = []
  if rule in ("token", "cumulative"):
    logt = ctx.real("log_threshold", -60, 1)
    got = builder.baseline_assignment_from_token_probabilities(
        math.exp(logt), only_constrain_nonempty=True,
        cumulative=rule == "cumulative")
    total = 0
    for n in flat:
      if n.kind == "T" and n.index in probs:
        total = total + probs[n.index]
        v = total if rule == "cumulative" else probs[n.index]
        if v < logt:
          low.append(n)
  elif rule in ("offset", "fraction"):
    size = sum(len(t) for t in texts)
    if rule == "offset":
      limit = ctx.real("offset", -1, size + 1)
      got = builder.baseline_assignment_from_character_offset(limit)
    else:
      f = ctx.real("fraction", 0, 1)
      limit = f * size
      got = builder.baseline_assignment_from_example_fraction(f)
    seen = 0
    for n in flat:
      if n.kind in "TD":
        seen += len(n.node.text_contents)
        if n.kind == "T" and n.node.text_contents != "" and seen > limit:
          low.append(n)
  else:
    ctx.cover("depth")
    up = ctx.choice("ancestor", [1, 2])
    down = ctx.choice("child", [1, 2])
    got = builder.baseline_assignment_from_depth_cutoff(
        ancestor_depth_cutoff=up, child_depth_cutoff=down)
    depth = {}

    def mark(seq, d):
      for m in seq:
        depth[m.index] = d
        mark(m.children, d + 1)

    mark(tree, 0)
    tokens = [n for n in flat if n.kind == "T"]
    first = depth[tokens[0].index]
    for n in tokens[1:]:
      d = depth[n.index]
      if d <= first - up or d >= first + down:
        low.append(n)
  got = {k: int(got[k]) for k in got}
  par = urw.derive_uncertainty_region_costs(0.7, 5.0, 0.5)
  best, legal = None, None
  for x in choices(tree):
    c = in_region_cost(flat, x, par)
    bad = [n for n in low if x[n.key] != regionlib.TRUE]
    c += 1e6 * len(bad)
    if all(got.get(k, regionlib.NA) == x[k] for k in x):
      legal = (c, bad)
    if best is None or c < best[0]:
      best = (c, bad)
  ctx.check(legal is not None, "the decisions are not well formed")
  if low and not best[1]:
    ctx.cover("flagged")
  if best[1]:
    ctx.cover("impossible")
  if len(low) < shape.count("T"):
    ctx.cover("kept")
  ctx.check(len(legal[1]) == len(best[1]),
            "a token named by the rule is not flagged")
  ctx.check(abs(legal[0] - best[0]) < 1e-6,
            "more is flagged than the rule needs")
