"""P25: prefix baselines stop the suggestion exactly where their rule says."""
import math
from props import lib, regionlib
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import constraint_dags
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.wrappers import prefix_truncation_wrapper as ptw

ID = "P25"
SHAPES = ["TX", "XT", "XTXTX", "TXTX", "T(XTX)TX", "XT(TX)XT", "TDXTDX",
          "DXTXDX", "XXTX", "(T(X)T)X", "T", "X", "TTXTX", "XTDDXTX",
          "SXTEXT", "XSTEXSTE"]
MORE = ["XTXTXTX", "XT(XTX)XTX", "TXTXTXTX", "((XT)X(TX))", "XTDXTDXTDX",
        "SXTEXSTXE", "X(STX)EXT"]
LARGE = ["TDTXTDXT(TDX)TDXTTX", "DTDXDTTXDTX(T(TX)DX)DTXDTX",
         "TTTTTTTTTTTTTTTTTXTX", "X(T(T(T(TX)X)X)X)X",
         "(" * 12 + "TX" + ")" * 12 + "XT"]
WORDS = ["def", "a_rather_long_identifier_name", "(", "x", "\u00e9t\u00e9", ":",
         "return", "0x1F", "'text\n'"]
BLANKS = ["\n", "    ", "  \n", " # note\n", "\t", "\r\n"]
RULES = ["token", "cumulative", "average", "intellicode", "characters",
         "lines"]
BOUNDS = {
    "large cases": "%d longer prototypes (up to 17 tokens, groups to depth 12, "
                   "fixed texts of 1..29 characters, model tokens that split "
                   "the texts): two or three tokens of arbitrary "
                   "log-probability, the others fixed; arbitrary threshold; "
                   "limits arbitrary in 0..90" % len(LARGE),
    "prototypes": "quick: %d shapes, thorough: %d (tokens, decorations, "
                  "groups, early exits, region markers)" % (
                      len(SHAPES), len(SHAPES + MORE)),
    "texts": "tokens of 0..2 characters; decorations a space, a "
             "newline or both",
    "probabilities": "arbitrary real log-probabilities in [-50, 0] per token, "
                     "arbitrary probability threshold (also 0); IntelliCode "
                     "rule: log-probabilities 0.002 above and below its "
                     "curve",
    "limits": "character and line limits arbitrary in 0..8",
}
ASSUMPTIONS = ["log-probabilities are exact reals; exp is any increasing "
               "positive function with exp(0) = 1",
               "one model token per parsed text (alignment is P11)",
               "line counting: a decoration holds at most one newline"]
COVER = ["exit", "none", "late", "early", "zero", "names", "regions", "empty"]


def cases(tier):
  out = []
  for s in (SHAPES if tier == "quick" else SHAPES + MORE):
    n = s.replace("(", "<").replace(")", ">")
    for r in RULES:
      if r == "lines" and "D" not in s:
        continue
      out.append(("%s_%s" % (r, n), {"shape": s, "rule": r}))
  for s in LARGE:
    n = s.replace("(", "<").replace(")", ">")
    for r in RULES:
      for k in ((0, 1) if tier == "quick" else range(6)):
        if r == "lines" and "D" not in s:
          continue
        out.append(("large_%s_%s_%d" % (r, n, k),
                    {"shape": s, "rule": r, "large": k}))
  for s in ("XTX", "TDXTX"):
    out.append(("wrapper_" + s, {"shape": s, "rule": "wrapper"}))
  return out


def first_exit(flat, below):
  """Before the first offending token if possible, else at the next exit."""
  last = None
  hit = False
  for n in flat:
    if n.kind == "X":
      if hit:
        return n.index
      last = n.index
    elif n.kind == "T" and n.index in below and not hit:
      if below[n.index]:
        if last is not None:
          return last
        hit = True
  return None


def run(ctx, shape, rule, large=None):
  texts = []
  for c in shape:
    if large is not None and c in "TD":
      words = WORDS if c == "T" else BLANKS
      texts.append(words[(len(texts) + large) % len(words)])
    elif c == "T":
      if rule == "characters" or shape.count("T") < 3:
        texts.append(ctx.choice("w%d" % len(texts), ["a", "bc", ""]))
      else:
        texts.append("ab")
    elif c == "D":
      texts.append(ctx.choice("d%d" % len(texts), ["\n", " ", " \n"]))
  nodes = lib.build(shape, texts)
  _, flat = regionlib.index_nodes(nodes)
  if "" in texts:
    ctx.cover("empty")
  storage = regionlib.pack_tree(nodes, False)
  model = []
  probs = {}
  if rule == "intellicode":
    alpha, kappa = ctx.choice("curve", [(0.8, 10.0), (1.6, 1.0), (1.9, 0.5)])

  def near_curve(n):
    """A log-probability just above or just below the rule's curve."""
    r = alpha / (1 + math.exp(-len(probs) / kappa))
    step = ctx.choice("lp%d" % n.index, [0.002, -0.002])
    return min(-0.001, math.log(r) + step)

  for n in flat:
    if n.kind in "TD":
      t = n.node.text_contents
      if t == "":
        continue
      if large is not None:
        free = len(model) % 7 == large
        if rule == "intellicode":
          free = free or len(probs) > 14
          lp = near_curve(n) if free and n.kind == "T" else -0.01
        elif free:
          lp = ctx.real("lp%d" % n.index, -50, 0)
        else:
          lp = -0.25 - (len(model) * 5 % 7) / 8.0
          lp = ctx.real("lp%d" % n.index, lp, lp)  # exp is not computed
        if n.kind == "T":
          probs[n.index] = lp
        if len(t) > 2:  # two model tokens, the first one certain
          model.append((t[:2], 0.0))
          t = t[2:]
        model.append((t, lp))
        continue
      if rule == "intellicode":
        lp = near_curve(n) if n.kind == "T" else -1.0
      elif rule == "wrapper":
        lp = ctx.choice("lp%d" % n.index, [-0.125, -1.0]) \
            if n.kind == "T" else -1.0
      else:
        lp = ctx.real("lp%d" % n.index, -50, 0)
      model.append((t, lp))
      if n.kind == "T":
        probs[n.index] = lp
  if rule == "wrapper":
    return wrapper(ctx, storage, model)
  builder = ptw.PrefixByEditDistanceBaselineBuilder(
      prototype=storage, prototype_suggestion_as_target=storage,
      context_info={}, model_tokens_and_log_probs=model)
  if rule in ("token", "cumulative"):
    logt = ctx.real("log_threshold", -60, 1)
    zero = ctx.bool("zero")
    if zero:
      ctx.cover("zero")
      threshold = 0.0
    else:
      threshold = math.exp(logt)
    below = {}
    total = 0
    for i in probs:
      total = total + probs[i]
      v = total if rule == "cumulative" else probs[i]
      below[i] = False if zero else v < logt
    want = first_exit(flat, below)
    got = builder.baseline_assignment_from_token_prob(
        threshold, cumulative=rule == "cumulative")
  elif rule == "average":
    total, count, best, want = 0, 0, None, None
    for n in flat:
      if n.kind == "T" and n.index in probs:
        total = total + probs[n.index]
        count += 1
      elif n.kind == "X" and count:
        if best is None or total / count > best:
          best, want = total / count, n.index
    got = builder.baseline_assignment_from_max_average_log_prob()
  elif rule == "intellicode":
    below = {}
    for k, i in enumerate(probs):
      r = alpha / (1 + math.exp(-k / kappa))
      below[i] = math.exp(probs[i]) < r
    want = first_exit(flat, below)
    if alpha == 0.8:
      got = builder.baseline_assignment_from_intellicode_compose()
    else:
      got = builder.baseline_assignment_from_intellicode_compose(
          alpha=alpha, kappa=kappa)
  else:
    limit = ctx.int("limit", 0, 8 if large is None else 90)
    seen = 0
    hit = False
    want = None
    for n in flat:
      if n.kind == "X" and hit and want is None:
        want = n.index
      elif n.kind == "T" and rule == "characters":
        seen += len(n.node.text_contents)
        hit = hit or seen >= limit
      elif n.kind == "D" and rule == "lines":
        if "\n" in n.node.text_contents:
          seen += 1
          hit = hit or seen >= limit
    if rule == "characters":
      got = builder.baseline_assignment_from_characters(limit)
    else:
      got = builder.baseline_assignment_from_lines(limit)
  verify(ctx, flat, storage, want, got)


def verify(ctx, flat, storage, want, got):
  if want is None:
    ctx.cover("none")
  else:
    ctx.cover("exit")
    ctx.cover("early" if want == 0 else "late")
  over = False
  decisions = {}
  for n in flat:
    if n.kind == "X":
      ctx.check(n.key in got, "an exit is left undecided")
      v = int(got[n.key])
      if over:
        e = regionlib.NA
      elif n.index == want:
        e, over = regionlib.TRUE, True
      else:
        e = regionlib.FALSE
      ctx.check(v == e, "exit at %d decided as %d, expected %d" % (
          n.index, v, e))
    elif n.kind == "S":
      ctx.cover("regions")
      ctx.check(n.key in got and int(got[n.key]) != regionlib.TRUE,
                "a region may start")
    if n.key is not None:
      decisions[n.key] = True
  ctx.check(len(got) <= len(decisions), "decisions")
  for k in got:
    ctx.check(k in decisions, "a decision the prototype does not have")
  # The result is one of the well-formed choices.
  dag = constraint_dags.make_constraint_dag_builder(with_numba=False)(storage)
  packed, data = constraint_dags.pack_dag(gsd.prune_to_reachable(dag))
  path, _ = packed_dags.constrained_best_path(packed, data, got)
  for e in path:
    a = e.required_assignment
    if a is not None and a.key in got:
      ctx.check(int(a.value) == int(got[a.key]),
                "the decisions contradict the constraints")


def wrapper(ctx, storage, model):
  """The wrapper returns every configured baseline under its name."""
  ctx.cover("names")
  avg = ctx.bool("avg")
  compose = ctx.bool("intellicode")
  regions = ctx.bool("regions")
  w = ptw.PrefixByEditDistanceWrapper(
      baseline_token_prob_thresholds=(0.5, 0.9),
      baseline_prefix_prob_thresholds=(0.25, 0.5),
      baseline_max_characters=(1, 3), baseline_max_lines=(1, 2),
      baseline_max_avg_log_prob=avg,
      baseline_intellicode=compose,
      also_insert_uncertainty_regions=regions, use_numba=False)
  got = w.build_baseline_assignments(storage, storage, {}, model)
  if regions:
    ctx.check(len(got) == 0, "baselines are off when regions are inserted")
    return
  b = ptw.PrefixByEditDistanceBaselineBuilder(
      prototype=storage, prototype_suggestion_as_target=storage,
      context_info={}, model_tokens_and_log_probs=model)
  want = {}
  for t in (0.5, 0.9):
    want["prob_threshold_%s" % t] = b.baseline_assignment_from_token_prob(
        t, cumulative=False)
  for t in (0.25, 0.5):
    want["prefix_prob_threshold_%s" % t] = \
        b.baseline_assignment_from_token_prob(t, cumulative=True)
  for t in (1, 3):
    want["character_length_%d" % t] = b.baseline_assignment_from_characters(t)
  for t in (1, 2):
    want["line_length_%d" % t] = b.baseline_assignment_from_lines(t)
  if avg:
    want["max_avg_log_prob"] = \
        b.baseline_assignment_from_max_average_log_prob()
  if compose:
    want["intellicode"] = b.baseline_assignment_from_intellicode_compose()
  ctx.check(sorted(got) == sorted(want), "names of the baselines")
  for k in want:
    ctx.check(got[k] == want[k], "baseline %s is another rule's" % k)
