"""P22: the annotated suggestion shown to the user is the one decided on."""
import math
from props import lib, regionlib
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import token_prob_align

ID = "P22"
SHAPES = ["STE", "SE", "STETSTE", "S(T)E", "SDE", "SESTE", "TXT", "STXTE",
          "(STE)D", "S(TX)TE", "STEXSTE", "SSTEE", "D(XST)ET", "S()ET",
          "TSEXSE"]
MORE = ["STESTESTE", "S(T(D)T)E", "(ST(TE)S)TE", "XSXTXEX", "S(SE)TEXT",
        "STEDSEDST"]
LARGE = ["TDTDSTDTETDTDT", "DSTDTEDTXDTDSTET", "T(D(TST(TD)TE)D)TXT",
         "(S(T(T(T)T)T)E)T", "SESESESETSE",
         "(" * 12 + "STD" + ")" * 12 + "TE", "TTTTTTTTTTTTSTEXT"]
WORDS = ["def ", "Caf\u00e9_long_identifier_name_0123456789", "\n", "\t\t  ",
         "<b class=\"x\">&amp;'", "\r\n", "\u2603\U0001f600", "}", "",
         "# a comment, with {text} %s \\n that goes on for a while" * 3]
BOUNDS = {
    "large cases": "%d longer prototypes (up to 16 nodes, groups to depth 12) "
                   "whose texts are %d fixed strings (long, empty, markup, "
                   "white space, non-ASCII), each with or without an arbitrary "
                   "character" % (len(LARGE), len(WORDS)),
    "prototypes": "quick: %d shapes, thorough: %d (tokens, decorations, groups "
                  "to depth 2, region starts and ends, early exits)" % (
                      len(SHAPES), len(SHAPES + MORE)),
    "decisions": "every consistent choice of regions and exit",
    "texts": "every token is one (thorough: up to two) arbitrary characters",
    "marker": "an arbitrary character, or none",
    "log probabilities": "arbitrary texts, probabilities 0, 0.5 and 1 (large "
                         "cases: 1, 0.75, 0.1, 0 in turn)",
}
ASSUMPTIONS = ["decisions are consistent (they come from the solver under the "
               "constraint diagram)",
               "html.escape behaves as documented"]
COVER = ["empty_region", "exit", "exit_in_region", "two_regions", "escaped",
         "adjacent", "log_probs"]
V = rd.DecisionValue
REGION = '<span class="in_region">'
ROOT = '<span class="regions_root">'
ESCAPES = [("&lt;", "<"), ("&gt;", ">"), ("&amp;", "&"), ("&quot;", '"'),
           ("&#x27;", "'"), ("&#39;", "'")]


def cases(tier):
  q = tier == "quick"
  out = []
  for s in (SHAPES if q else SHAPES + MORE):
    n = s.replace("(", "<").replace(")", ">")
    for what in ("list", "html"):
      for jit in ((False,) if q else (False, True)):
        out.append(("%s_%s_%d" % (what, n, jit),
                    {"shape": s, "what": what, "jit": jit,
                     "long": not q and s.count("T") + s.count("D") < 4}))
  for s in LARGE:
    n = s.replace("(", "<").replace(")", ">")
    for what in ("list", "html"):
      for off in range(0, len(WORDS), 5 if q else 1):
        out.append(("large_%s_%s_%d" % (what, n, off),
                    {"shape": s, "what": what, "jit": False, "words": off}))
  for off in range(0, len(WORDS), 2):
    out.append(("large_probs_%d" % off,
                {"shape": "T" * 6, "what": "probs", "jit": False,
                 "words": off}))
  for k in (1, 2) if q else (1, 2, 3):
    out.append(("probs%d" % k, {"shape": "T" * k, "what": "probs",
                                "jit": False}))
  return out


def decide(ctx, tree):
  """Consistent decisions, and the (text, in region) list they stand for."""
  x = {}
  shown = []
  st = {"live": True, "in": False, "empty": False, "regions": 0}

  def go(seq):
    for n in seq:
      if n.key is not None:
        x[n.key] = V.NOT_APPLICABLE
      if not st["live"]:
        if n.kind == "G":
          go(n.children)
        continue
      name = "d%d" % n.index
      if n.kind in "TD":
        shown.append((n.node.text_contents, st["in"]))
        st["empty"] = False
        if n.key is not None:
          x[n.key] = V.TRUE if st["in"] else V.FALSE
      elif n.kind == "G":
        x[n.key] = V.TRUE if st["in"] else V.FALSE
        go(n.children)
      elif n.kind == "S" and not st["in"]:
        x[n.key] = ctx.choice(name, [V.TRUE, V.FALSE])
        if x[n.key] == V.TRUE:
          st["in"] = st["empty"] = True
          st["regions"] += 1
          if st["regions"] == 2:
            ctx.cover("two_regions")
          if shown and shown[-1][1]:
            ctx.cover("adjacent")
      elif n.kind == "E" and st["in"]:
        x[n.key] = ctx.choice(name, [V.TRUE, V.FALSE])
        if x[n.key] == V.TRUE:
          if st["empty"]:
            ctx.cover("empty_region")
            shown.append((None, True))
          st["in"] = st["empty"] = False
      elif n.kind == "X":
        x[n.key] = ctx.choice(name, [V.TRUE, V.FALSE])
        if x[n.key] == V.TRUE:
          ctx.cover("exit")
          if st["in"]:
            ctx.cover("exit_in_region")
          st["live"] = False

  go(tree)
  return x, shown


def read_html(ctx, body):
  """Characters of an HTML fragment with their innermost span, and balance."""
  out = []
  stack = []
  i = 0
  while i < len(body):
    if body[i] == "<":
      if body.startswith("</span>", i):
        ctx.check(stack, "unbalanced closing tag")
        stack.pop()
        i += 7
        continue
      ctx.check(body.startswith("<span ", i), "unescaped text")
      end = body.find(">", i)
      stack.append(body[i + 6:end])
      i = end + 1
      continue
    c = body[i]
    if c == "&":
      for e, u in ESCAPES:
        if body.startswith(e, i):
          c = u
          i += len(e) - 1
          ctx.cover("escaped")
          break
      else:
        ctx.fail("unescaped ampersand")
    out.append((c, stack[-1] if stack else None))
    i += 1
  ctx.check(not stack, "unclosed tag")
  return out


def run(ctx, shape, what, jit, long=False, words=None):
  texts = []
  for c in shape:
    if c in "TD" and words is not None:
      t = WORDS[(words + len(texts)) % len(WORDS)]
      if len(texts) == words % 3:
        t = t[:2] + ctx.char("c%d" % len(texts)) + t[2:]
      texts.append(t)
    elif c in "TD":
      t = ctx.char("t%d" % len(texts))
      if long and ctx.bool("long%d" % len(texts)):
        t = t + ctx.char("u%d" % len(texts))
      texts.append(t)
  if what == "probs":
    probs(ctx, texts)
    return
  nodes = lib.build(shape, texts)
  tree, _ = regionlib.index_nodes(nodes)
  x, shown = decide(ctx, tree)
  storage = regionlib.pack_tree(nodes, jit)
  if what == "list":
    marker = ctx.choice("marker", ["", "#", "ab"])
    got = list(rd.extract_sequence_with_regions(storage, x, marker))
    ctx.check(len(got) == len(shown), "number of tokens")
    for g, (t, inside) in zip(got, shown):
      ctx.check(bool(g.in_annotated_region) == inside,
                "a token is on the wrong side of a region boundary")
      ctx.check(g.token_or_decoration == (marker if t is None else t),
                "token text")
    return
  page = rd.render_regions_to_html(storage, x)
  at = page.find(ROOT)
  ctx.check(at >= 0, "no root")
  ctx.check(page.startswith("<style>") and page.find("</style>") < at,
            "style comes first")
  body = page[at:]
  got = read_html(ctx, body)
  want = []
  for t, inside in shown:
    for c in ("\ufe19" if t is None else t):
      want.append((c, inside))
  ctx.check(len(got) == len(want), "number of visible characters")
  for (a, span), (b, inside) in zip(got, want):
    ctx.check(a == b, "visible text differs from the suggestion")
    ctx.check(span is not None and ("in_region" in span) == inside,
              "highlighting differs from the decided regions")


def probs(ctx, texts):
  """Tokens shaded by probability keep their text."""
  if len(texts) > 3:
    ps = [[1.0, 0.75, 0.1, 0.0][i % 4] for i in range(len(texts))]
  else:
    ps = [ctx.choice("p%d" % i, [1.0, 0.5, 0.0]) for i in range(len(texts))]
  page = token_prob_align.render_tokens_and_log_probs_to_html(
      [(t, math.log(p) if p else -math.inf) for t, p in zip(texts, ps)])
  ctx.cover("log_probs")
  got = read_html(ctx, page)
  want = []
  for t, p in zip(texts, ps):
    for c in t:
      if c == "\n":
        want.append(("\u21a9", p))
      want.append((c, p))
  ctx.check(len(got) == len(want), "number of visible characters")
  for (a, span), (b, p) in zip(got, want):
    ctx.check(a == b, "visible text differs")
    nums = span[span.index("rgb(") + 4:span.index(")")].split(",")
    ctx.check([abs(float(v.strip().rstrip("%")) - w) < 1e-6
               for v, w in zip(nums, [100, 100 * p, 100 * p])] == [True] * 3,
              "shading")
