"""P21: the part-selection diagram's cost is that of the best placement."""
from props import editlib, lib, regionlib
from r_u_sure.edit_distance_utility import part_selection_dags as psd

ID = "P21"
PROTOS = ["STE", "STTE", "STET", "STESTE", "S(T)E", "(STE)", "STEE", "SSTE",
          "ETSE", "SE", "S(T)ET", "TSTET", "SDTE", "S(TT)E", "ST(T)E",
          "(STET)E", "S(STE)E", "T"]
TARGETS = ["", "T", "TT", "(T)", "T(T)", "TTT", "(TT)", "TDT", "()"]
MORE_P = ["STESTESTE", "S(T(T))E", "STTETSTE", "S((T)T)E", "(STE)(STE)",
          "S(T)E(STE)", "STETETE", "SETSTE", "S(T)(T)E"]
MORE_T = ["((T))", "(T)(T)", "T(TT)", "TTTT", "(T(T))", "D(T)D"]
BOUNDS = {
    "prototypes": "quick: %d shapes, thorough: %d (tokens, groups to depth 2, "
                  "decorations, region starts and ends in any arrangement)" % (
                      len(PROTOS), len(PROTOS + MORE_P)),
    "targets": "quick: %d shapes, thorough: %d" % (len(TARGETS),
                                                   len(TARGETS + MORE_T)),
    "large cases": "%d pairs of up to 30 prototype and 30 target nodes; the "
                   "decisions arbitrary, texts and utilities fixed" % 10,
    "texts": "each target token equals, in every combination, the first, the "
             "second or no prototype token; the first target node's type may "
             "differ",
    "utilities": "match utility and deletion cost of every token text "
                 "arbitrary reals in [-10, 10]",
    "assignments": "every assignment of every decision (symbolic)",
}
ASSUMPTIONS = ["prototypes have no early exits, targets no markers "
               "(documented)",
               "costs are exact reals; float rounding is not modelled",
               "numba's compiled code behaves as its Python source"]
COVER = ["match_group", "two_parts", "jit", "types_differ", "leading_end",
         "empty_target"]
LARGE = [
    ("STETTSTTETSTE", "a b c d e f h", "TTTTTTTT", "b c d e f a g h"),
    ("TST(TT)ET(STTE)STE", "a b c d e f g h", "TT(TT)T(TT)T",
     "x b c d e f g h"),
    ("STESTETSTE", "a b a c", "TTTTTTTT", "a b b a a b c c"),
    ("S(T(T)E)SETD(S((T)T)E)TSTE", "a b c d e f g", "(T(T)T)((T)T)TT",
     "a b c d e f g"),
    ("S" + "(" * 12 + "T" + ")" * 12 + "E", "a", "T" + "(" * 12 + "T" + ")" * 12,
     "b a"),
    ("STTETSTE(ST)E", "a~ ^ x B~ \u00e9", "TTTTT(T)", "a~ A~ a~ ^ B~ \u00e9"),
    ("STTETTSTTE", "a b x y c d", "T" * 30,
     " ".join("c b a q d".split() * 4 + "a b p q a c d c d z".split())),
    ("T" * 26 + "STTE", " ".join("abcdefghijklmnopqrstuvwxyz") + " x y", "TTT",
     "x x y"),
    ("ST(T)ET(STE)", "a b c d", "T" * 22 + "(T)T(T)(T)",
     " ".join("p q a r".split() * 5 + "q a b c d a".split())),
    ("STTTTTTTTE", "a b a b a b a c", "TTTTTTTTTTTT",
     "a b a b a b a b a b a c"),
]


def cases(tier):
  q = tier == "quick"
  ps = PROTOS if q else PROTOS + MORE_P
  ts = TARGETS if q else TARGETS + MORE_T
  out = []
  for i, p in enumerate(ps):
    for j, t in enumerate(ts):
      if q and len(p) + 2 * t.count("T") > 10:
        continue
      out.append(("%s_%s" % (p.replace("(", "<").replace(")", ">"),
                             t.replace("(", "<").replace(")", ">")),
                  {"p": p, "t": t, "jit": (i + j) % 2 == 0,
                   "near": (i + 2 * j) % len(NEAR)}))
  out.sort(key=lambda c: -len(c[1]["p"]) * len(c[1]["t"]))
  for i in range(len(LARGE)):
    out.insert(i, ("large%d" % i, {"p": LARGE[i][0], "t": LARGE[i][2],
                                   "jit": i % 2 == 0, "large": i}))
  return out


def items(tree):
  """Opening, closing and leaf items of a tree in reading order."""
  out = []
  for n in tree:
    if n.kind == "G":
      out.append(("(", n))
      out += items(n.children)
      out.append((")", n))
    elif n.kind != "D":
      out.append((n.kind, n))
  return out


def reference(ctx, pitems, titems, x, match, delete):
  """Least cost of placing the selected parts in the target, in order.

  Every selected part is either found as a contiguous stretch of the target,
  after the stretches of earlier parts, and earns its tokens' utility, or it
  pays for all of its tokens.
  """
  memo = {}
  n = len(titems)

  def same(p, t):
    if p[0] != t[0]:
      return False
    a, b = p[1].node, t[1].node
    if a.match_type != b.match_type:
      return False
    return p[0] != "T" or a.text_contents == b.text_contents

  def outside(i, j):
    key = ("o", i, j)
    if key not in memo:
      if i == len(pitems):
        r = 0
      elif pitems[i][0] == "S":
        r = ctx.ite(x[pitems[i][1].key] == regionlib.TRUE,
                    ctx.min([missing(i + 1, j)] +
                            [found(i + 1, m) for m in range(j, n + 1)]),
                    outside(i + 1, j))
      else:
        r = outside(i + 1, j)
      memo[key] = r
    return memo[key]

  def missing(i, j):
    key = ("m", i, j)
    if key not in memo:
      if i == len(pitems):
        r = editlib.BIG
      elif pitems[i][0] == "E":
        r = ctx.ite(x[pitems[i][1].key] == regionlib.TRUE, outside(i + 1, j),
                    missing(i + 1, j))
      elif pitems[i][0] == "T":
        r = delete[pitems[i][1].node.text_contents] + missing(i + 1, j)
      else:
        r = missing(i + 1, j)
      memo[key] = r
    return memo[key]

  def found(i, j):
    key = ("f", i, j)
    if key not in memo:
      if i == len(pitems):
        r = editlib.BIG
      elif pitems[i][0] == "E":
        r = ctx.ite(x[pitems[i][1].key] == regionlib.TRUE, outside(i + 1, j),
                    found(i + 1, j))
      elif pitems[i][0] == "S":
        r = found(i + 1, j)
      elif j < n and same(pitems[i], titems[j]):
        r = found(i + 1, j + 1)
        if pitems[i][0] == "T":
          r = r - match[pitems[i][1].node.text_contents]
      else:
        r = editlib.BIG
      memo[key] = r
    return memo[key]

  return outside(0, 0)


# Target texts that equal no prototype text, but nearly do.
NEAR = ["A ", "a", "bc\n", "def"]


def run(ctx, p, t, jit, large=None, near=0):
  words = ["a ", "bC\n", NEAR[near]]
  ptexts, k = [], 0
  for c in p:
    if c == "T":
      ptexts.append(words[k % 2])
      k += 1
    elif c == "D":
      ptexts.append(" ")
  ttexts, k = [], 0
  for c in t:
    if c == "T":
      ttexts.append(words[0] if large is not None else
                    ctx.choice("w%d" % k, words))
      k += 1
    elif c == "D":
      ttexts.append("  ")
  if large is not None:
    ptexts, ttexts, k = LARGE[large][1].split(), LARGE[large][3].split(), 0
    words = sorted(set(ptexts))
    for shape, texts in ((p, ptexts), (t, ttexts)):
      for i, c in enumerate([c for c in shape if c in "TD"]):
        if c == "D":
          texts.insert(i, " ")
        texts[i] = texts[i].replace("~", " ").replace("^", "")
    words = sorted(set(ptexts))
  pn = lib.build(p, ptexts)
  tn = lib.build(t, ttexts)
  if k and k < 3 and ctx.bool("type"):
    ctx.cover("types_differ")
    f = tn[0] if lib.kind(tn[0]) != "D" else tn[1]
    f.match_type = "other"
  ptree, flat = regionlib.index_nodes(pn)
  ttree, _ = regionlib.index_nodes(tn)
  x = {}
  for m in flat:
    if m.key is not None:
      x[m.key] = ctx.int("x%d" % m.index, 1, 3)
  match, delete = {}, {}
  for w in words if large is None else []:
    match[w] = ctx.real("match_" + w, -10, 10)
    delete[w] = ctx.real("delete_" + w, -10, 10)
  if large is not None:
    for i, w in enumerate(words):
      match[w] = float((3 * i) % 5 - 1)
      delete[w] = float((2 * i) % 3)
  if "(" in p and "(" in t:
    ctx.cover("match_group")
  if p.count("S") > 1:
    ctx.cover("two_parts")
  if p.startswith("E"):
    ctx.cover("leading_end")
  if not t:
    ctx.cover("empty_target")
  if jit:
    ctx.cover("jit")

  def utility(node):
    return psd.UtilitiesAndCostsForNode(
        match_utility=match[node.text_contents],
        delete_cost=delete[node.text_contents])

  build = psd.make_selection_dag_builder(
      psd.PartSelectionUtilityParameters(token_node_utility_fn=utility),
      with_numba=jit)
  dag = build(regionlib.pack_tree(pn, jit), regionlib.pack_tree(tn, jit))
  packed, data = regionlib.finish(dag, psd, jit)
  edges = regionlib.edge_table(packed, data)
  extra = []
  for key in x:
    if key not in data.variable_keys:
      extra.append(ctx.ite(x[key] == regionlib.NA, 0, editlib.BIG))
  for key in data.variable_keys:
    ctx.check(key in x, "a decision that the prototype does not have")
  got = editlib.dag_cost(ctx, packed, edges, x)
  if extra:
    got = got + ctx.sum(extra)
  ok, _, _ = regionlib.well_formed(ctx, ptree, x, forced_rule=False)
  want = reference(ctx, items(ptree), items(ttree), x, match, delete)
  bad = ctx.ite(ok, False, True)
  ctx.check(ctx.any([bad, got <= want]),
            "the diagram misses a better placement of the parts")
  ctx.check(ctx.any([bad, got >= want]),
            "the diagram charges less than the best placement costs")
  ctx.check(ctx.any([ok, got >= editlib.BIG / 2]),
            "inconsistent decisions have a finite cost")
