"""P29: combining samples annotates one of them and states its utility."""
import contextlib
import io
from IPython import display
from props import editlib, lib, regionlib
from props import p22_region_output as p22
from props import p26_region_baselines as p26
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.wrappers import call_sequence_wrapper as csw
from r_u_sure.wrappers import demo_runner
from r_u_sure.wrappers import prefix_truncation_wrapper as ptw
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw

ID = "P29"
FLAT = [("", ["?", "?"]), ("a", ["?", "b?"]), ("a ", ["?", "?", "b"]),
        ("a", ["??", "?"]), ("?", [" b", "?"]), ("a", ["", "?"])]
MORE_F = [("a ", ["?b", "?", "b?"]), ("", ["? ?", "?"]), ("?", ["?", "?"])]
PYTHON = [("a = ", ["f(?)\n", "f(b)\n"]), ("", ["a\n?\n", "a\n"]),
          ("if a:\n  ", ["?\n", "b()\n"])]
MORE_P = [("a", ["(?)\n", "[?]\n"]), ("", ["f(?, ?)\n", "f(b)\n"]),
          ("a=", ["'?'\n", "f.?()\n"])]
LARGE = [
    ("python", "def area(w, h):\n  # size!\n  ",
     ["return w * ?\n", "return h * w\n", "return w\n"]),
    ("python", "import os\n", ["p = os.path(a, '?')\nf()\n",
                              "p = os.getcwd()\n", "f(a)\n"]),
    ("python", "class A:\n  ", ["def f(self):\n    pass\n  x = [1, ?]\n",
                               "x = [1]\n"]),
    ("cpp", "A<int> f(int &a) {\n  ", ["return a + ?; }\n", "return a; }\n",
                                 "int b = g(a); // c\n}\n"]),
    ("java", "class A { ", ["int f() { return 1; } ?}", "int x = 0; }"]),
    ("javascript", "let f = (a) => ", ["{ return [a, ?]; };\n", "a + 1;\n"]),
    ("raw_simple_tokens", "The quick ", ["brown fox jumps ? the dog.",
                                       "brown dog", "red fox jumps", ""]),
]
BOUNDS = {
    "large cases": "%d contexts in four languages and plain text with 2..4 "
                   "samples of up to 35 characters, one of them arbitrary" %
                   len(LARGE),
    "inputs": "quick: %d contexts with 2..3 samples, thorough: %d; every '?' "
              "an arbitrary character of the alphabet (symbolic)" % (
                  len(FLAT + PYTHON), len(FLAT + PYTHON + MORE_F + MORE_P)),
    "alphabet": "a b < . space (plain text), a b . ( (Python)",
    "wrappers": "uncertainty regions, prefix, prefix with regions, API calls; "
                "default parameters (large cases with regions: effective "
                "precision 0.7337)",
    "prototype": "every sample in turn (large cases: the first, last)",
}
ASSUMPTIONS = ["the clock does not run out (timeouts are P17)",
               "IPython and matplotlib are stand-ins",
               "numba's compiled code behaves as its Python source"]
COVER = ["flagged", "cut", "whole", "calls", "bound", "baselines", "empty",
         "edits"]


def cases(tier):
  q = tier == "quick"
  out = []
  for lang, items in (("raw_simple_tokens", FLAT if q else FLAT + MORE_F),
                      ("python", PYTHON if q else PYTHON + MORE_P)):
    for i, (c, s) in enumerate(items):
      for w in ("regions", "prefix", "both", "calls"):
        if w == "calls" and lang != "python":
          continue
        if w == "both" and q and i % 3:
          continue
        out.append(("%s%d_%s" % (lang[0], i, w),
                    {"lang": lang, "context": c, "samples": s, "which": w}))
  for i, (lang, c, s) in enumerate(LARGE):
    for j, w in enumerate(("regions", "prefix", "both", "calls")):
      if w == "calls" and lang != "python":
        continue
      if q and (i + j) % 2 and w != "calls":
        continue
      out.append(("large%d_%s" % (i, w),
                  {"lang": lang, "context": c, "samples": s, "which": w,
                   "large": True}))
    out.append(("large_base%d" % i,
                {"lang": lang, "context": c, "samples": s[:1],
                 "which": "regions" if i % 2 else "prefix",
                 "mode": "baselines", "large": True}))
  for i, (c, s) in enumerate(PYTHON):
    for w in ("regions", "prefix"):
      out.append(("base%d_%s" % (i, w),
                  {"lang": "python", "context": c, "samples": s[:1],
                   "which": w, "mode": "baselines"}))
  return out


def make(which, large=False):
  if which == "regions":
    return urw.UncertaintyRegionsWrapper(
        use_numba=False, effective_precision=0.7337 if large else 0.7)
  if which == "calls":
    return csw.ApiCallSequenceWrapper(use_numba=False)
  return ptw.PrefixByEditDistanceWrapper(
      start_editing_cost=1.0, use_numba=False,
      also_insert_uncertainty_regions=which == "both")


def run(ctx, lang, context, samples, which, mode="combine",
        large=False):
  alphabet = "a)'" if large else "ab<. " if lang != "python" else "ab.("
  text = lib.fill(ctx, context, alphabet, prefix="k")
  texts = [lib.fill(ctx, s, alphabet, prefix="s%d_" % i)
           for i, s in enumerate(samples)]
  ctx.set_clock(lambda: 0.0)
  runner = demo_runner.DemoRunner(make(which, large), language=lang)
  if mode == "baselines":
    baselines(ctx, runner, which, text, texts[0])
    return
  k = ctx.choice("prototype", list(range(len(texts))) if not large else
                 [0, len(texts) - 1] if len(context) > 15 else [0])
  r = runner.combine(text, texts, prototype_index=k)
  ctx.set_clock(None)
  if r.assignment_map is None:
    ctx.cover("empty")
    ctx.check(which == "calls" or len(texts[k]) == 0 or not has_tokens(r),
              "no result for a suggestion with tokens")
    ctx.check(r.solution_info is None and runner.get_extracted_parts(r) is None,
              "a report without a solution")
    return
  check_text(ctx, runner, r, which, text, texts[k])
  nodes = psn.unpack(r.packed_prototype)
  tree, flat = regionlib.index_nodes(nodes)
  x = {}
  for n in flat:
    if n.key is not None:
      x[n.key] = int(r.assignment_map.get(n.key, rd.DecisionValue(
          regionlib.NA)))
  ok, where, _ = regionlib.well_formed(ctx, tree, x)
  ctx.check(ok, "the solution is not well formed")
  show_utilities(ctx, runner, r)
  info = r.solution_info
  costs = info["sample_system_costs_unsorted"]
  ctx.check(len(costs) == len(texts), "one utility per sample")
  mean = sum(costs) / len(costs)
  ctx.check(abs(mean + r.solution_utility) < 1e-6,
            "the utility is not the average over the samples")
  ctx.check(r.utility_dual_bound >= r.solution_utility - 1e-6,
            "the solution beats the bound")
  if which == "calls":
    ctx.cover("calls")
    return
  par = parameters(which, large)
  if which == "regions" and len(flat) < 12:
    # No choice of regions beats the bound.
    ctx.cover("bound")
    trees = [regionlib.index_nodes(psn.unpack(p))[0] for p in r.packed_targets]
    for y in p26.choices(tree):
      _, at, _ = regionlib.well_formed(ctx, tree, y)
      m = ctx.sum([editlib.reference_cost(ctx, tree, t, y, at, par)
                   for t in trees]) / len(trees)
      ctx.check(-m <= r.utility_dual_bound + 1e-6,
                "a better solution than the bound says exists")
  for s, packed, c in zip(texts, r.packed_targets, costs):
    tn = psn.unpack(packed)
    ctx.check(lib.text_of(tn) == s, "the text of a sample changed")
    ttree, _ = regionlib.index_nodes(tn)
    e = editlib.reference_cost(ctx, tree, ttree, x, where, par)
    ctx.check(abs(e - c) < 1e-6, "utility of the suggestion for a sample")


def show_utilities(ctx, runner, r):
  out = io.StringIO()
  with contextlib.redirect_stdout(out):
    runner.show_utilities(r)
  lines = out.getvalue().split("\n")[:-1]
  costs = r.solution_info["sample_system_costs_unsorted"]
  ctx.check(len(lines) == len(costs), "one line per sample")
  for i, (line, c) in enumerate(zip(lines, costs)):
    head, tail = line.split(":")
    ctx.check(head.endswith(" %d" % i), "number of a sample")
    ctx.check(abs(float(tail) + c) < 1e-5, "utility shown for a sample")


def parameters(which, large):
  if which == "regions":
    return urw.derive_uncertainty_region_costs(0.7337 if large else 0.7, 5.0,
                                               0.5)
  return urw.derive_uncertainty_region_costs(0.7, 1.0, 0.5)


def has_tokens(r):
  return len(r.packed_prototype.text_token_nodes) > 0


def check_text(ctx, runner, r, which, context, sample):
  """What is extracted and shown is the sample, annotated or cut."""
  parts = r.solution_info["extracted_parts"]
  grouped = runner.get_extracted_parts(r)
  ctx.check("".join([a for a, _ in grouped]) ==
            "".join([a for a, _ in parts]), "grouped parts differ")
  for (a, b), (c, d) in zip(grouped, grouped[1:]):
    ctx.check(b != d, "parts are not grouped by confidence")
  n = len(display.SHOWN)
  runner.show_suggestion(r)
  ctx.check(len(display.SHOWN) == n + 1, "nothing is shown")
  page = display.SHOWN.pop().data
  cut = page.find("<style>")
  if cut >= 0:
    page = page[:cut] + page[page.find("</style>") + 8:]
  page = page.replace("<br>", "")
  seen = p22.read_html(ctx, page)
  if which == "calls":
    return
  marks = [c for c, span in seen if c == "\ufe19"]
  text = "".join([c for c, _ in seen if c != "\ufe19"])
  plain = "".join([a for a, b in parts if not b])
  inside = "".join([a for a, b in parts if b and a != "\ufe19"])
  if any(b for _, b in parts):
    ctx.cover("flagged")
  ctx.check(text.startswith(context), "the context is not shown")
  body = text[len(context):]
  ctx.check(len(body) == len(plain) + len(inside) or marks,
            "shown and extracted text differ")
  if which == "regions":
    ctx.cover("whole")
    ctx.check(body == sample, "the suggestion is not the chosen sample")
  else:
    ctx.cover("cut")
    ctx.check(sample.startswith(body), "the suggestion is not a prefix")
  if hasattr(r, "packed_targets"):
    ctx.cover("edits")
    runner.show_edits(r)
    page = display.SHOWN.pop().data
    ctx.check(page.count("========== Target ") == len(r.packed_targets),
              "one edit script per sample")


def baselines(ctx, runner, which, context, sample):
  half = len(sample) // 2
  model = [(sample[:half], -0.5), (sample[half:], -1.5)]
  got = runner.build_baselines(context, model)
  for realign in (False, True):
    runner.show_token_probs(context, model, realign)
    seen = p22.read_html(ctx, display.SHOWN.pop().data)
    ctx.check("".join([c for c, _ in seen if c != "\u21a9"]) ==
              context + sample,
              "the text shown with probabilities")
  ctx.set_clock(None)
  ctx.cover("baselines")
  ctx.check(len(got) > 0, "no baselines")
  for name in got:
    r = got[name]
    if which == "calls":
      continue
    check_text(ctx, runner, r, which, context, sample)
    ctx.check(lib.text_of(psn.unpack(r.packed_prototype)) == sample,
              "prototype of a baseline")
    ctx.check(lib.text_of(psn.unpack(r.packed_prototype_as_target)) == sample,
              "target of a baseline")
