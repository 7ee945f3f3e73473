"""P20: the edit diagram's cost is the uncertainty-aware edit distance."""
from props import editlib, lib, regionlib

ID = "P20"
PROTOS = ["T", "TT", "STE", "T(T)", "S(T)E", "(STE)", "TXT", "STXE", "STET",
          "D(T)", "(T)(T)", "SE", "TSETX", "X(T)", "((T))", "(XT)T", "(S)(E)T"]
TARGETS = ["", "T", "TT", "DT", "(T)", "T(T)", "((T))", "(T)T", "(TT)"]
MORE_P = ["S(TT)ET", "STESTE", "(T(T))", "XTXTX", "S(T(T))E", "(STE)(STE)",
          "TTT", "S(T)XTE"]
MORE_T = ["TTT", "(T)(T)", "(T(T))", "TDT", "D", "((T)T)"]
BOUNDS = {
    "prototypes": "quick: %d shapes, thorough: %d (up to 8 nodes, 2 levels of "
                  "groups, regions, exits)" % (len(PROTOS),
                                               len(PROTOS + MORE_P)),
    "targets": "quick: %d shapes, thorough: %d" % (len(TARGETS),
                                                   len(TARGETS + MORE_T)),
    "large cases": "%d pairs of up to 32 prototype and 24 target nodes, six "
                   "levels of groups; the decisions arbitrary, texts and "
                   "parameters fixed" % 13,
    "texts": "each target token equals, in every combination, the first, the "
             "second or no prototype token (one that differs in case, in "
             "white space or altogether); lengths 0..3",
    "parameters": "all eight utility parameters arbitrary reals in [-10, 10], "
                  "insertion cost non-negative (documented)",
    "assignments": "every assignment of every decision (symbolic)",
}
ASSUMPTIONS = ["insertion costs are non-negative (the module's documented "
               "condition)",
               "costs are exact reals; float rounding is not modelled",
               "numba's compiled code behaves as its Python source"]
COVER = ["match_group", "exit", "region", "jit", "types_differ"]
# Prototype with its texts, target with its texts, parameters.
PAR1 = (1.0, 1.0, 0.75, 0.25, 0.5, 0.75, 2.5, 1.25)
PAR2 = (0.5, 2.0, 0.25, 0.5, 0.0, 3.0, 0.5, 4.0)
PAR3 = (2.0, 0.0, 3.0, -1.0, 1.5, -0.5, 6.0, 0.0)
LARGE = [
    ("TDTSTET(TST(T)E)TXT", "a bc def x y z w v u", "TTDT(TT(T))T",
     "a def x q z w u", PAR1),
    ("STTTTETTTSTE", "a bc d e f g h ij", "TTTTTTTT", "a bc e x f h i ij",
     PAR1),
    ("(((STE))(T))D(TST)E", "aa b c dd", "((T)(T)(T))(TT)", "x aa b c dd",
     PAR2),
    ("ST(T(T)T)E(STE)XT", "f g hh i jj k", "T(T(T)T)(T)T", "f g hh x jj k",
     PAR3),
    ("TTTTTTXTTTTSTE", "a b c a b c a b c d e", "TTTTTTT", "b c a c b d e",
     PAR3),
    ("S(TT)(TT)(TT)EX(T)", "a b c d e f g", "(TT)(T)(TT)(T)", "a b d e f g",
     PAR1),
    ("T(T(TSTE)(TT(ST)E)T)TD(TTXT)T(STTTTE)TTT",
     "def f a b c d e g h i j k l m n o p q r s", "T(T(TT)(TTT)T)(TTT)T(TTT)TT",
     "def f a b z d e g h i k l m n o q r s", PAR1),
    ("((((((STE))))))T((((T))))STTTE", "a b cc d e f",
     "((((((T))))))((((T))))TT", "a cc d f", PAR2),
    ("(" * 13 + "ST" + ")" * 13 + "E", "a", "(" * 13 + "T" + ")" * 13, "a", PAR1),
    ("(" * 12 + "STE" + ")" * 12 + "T", "a b", "T" + "(" * 12 + "T" + ")" * 12,
     "b a", PAR3),
    ("TSTET(T)TXTT", "a~ ^ B~c \u00e9a ~~ x ^ Q", "TTT(T)TT",
     "A~ ^ b~c \u00e9A ^ q", PAR1),
    ("STETSTE(T)", "^ a ~ ~a", "T(T)T", "^ a ~", PAR2),
    ("TSETSETSTETTXT", "aa bb cc dd ee ff gg", "TTTTTT", "aa xx bb cc yy ee",
     PAR2),
]


def cases(tier):
  q = tier == "quick"
  ps = PROTOS if q else PROTOS + MORE_P
  ts = TARGETS if q else TARGETS + MORE_T
  out = []
  for i, p in enumerate(ps):
    for j, t in enumerate(ts):
      nt = lambda s: s.count("T") + s.count("(")
      if q and nt(p) + nt(t) > 5:
        continue
      if q and len(p) > 4 and len(t) > 3:
        continue
      out.append(("%s_%s" % (p.replace("(", "<").replace(")", ">"),
                             t.replace("(", "<").replace(")", ">")),
                  {"p": p, "t": t, "jit": (i + j) % 2 == 0,
                   "near": (i + 2 * j) % len(NEAR)}))
  out.sort(key=lambda c: -len(c[1]["p"]) * len(c[1]["t"]))
  for i in range(len(LARGE)):
    out.insert(i, ("large%d" % i, {"p": LARGE[i][0], "t": LARGE[i][2],
                                   "jit": i % 2 == 0, "large": i}))
  return out


# Target texts that equal no prototype text, but nearly do.
NEAR = ["A ", "a", "bc\n", "def"]


def run(ctx, p, t, jit, large=None, near=0):
  words = ["a ", "bC\n", NEAR[near]]
  ptexts, k = [], 0
  for c in p:
    if c == "T":
      ptexts.append(words[k % 2])
      k += 1
    elif c == "D":
      ptexts.append(" ")
  ttexts, k = [], 0
  for c in t:
    if c == "T":
      ttexts.append(words[0] if large is not None else
                    ctx.choice("w%d" % k, words))
      k += 1
    elif c == "D":
      ttexts.append("  ")
  if large is not None:
    ptexts, ttexts, k = LARGE[large][1].split(), LARGE[large][3].split(), 0
    for shape, texts in ((p, ptexts), (t, ttexts)):
      for i, c in enumerate([c for c in shape if c in "TD"]):
        if c == "D":
          texts.insert(i, " ")
        texts[i] = texts[i].replace("~", " ").replace("^", "")
  pn = lib.build(p, ptexts)
  tn = lib.build(t, ttexts)
  if k and k < 3 and ctx.bool("type"):
    # another type of token or group at the front of the target
    ctx.cover("types_differ")
    f = tn[0] if lib.kind(tn[0]) != "D" else tn[1]
    f.match_type = "other"
  ptree, flat = regionlib.index_nodes(pn)
  ttree, _ = regionlib.index_nodes(tn)
  x = {}
  for m in flat:
    if m.key is not None:
      x[m.key] = ctx.int("x%d" % m.index, 1, 3)
  par = (editlib.parameters(ctx) if large is None
         else editlib.fixed_parameters(LARGE[large][4]))
  if "(" in p and "(" in t:
    ctx.cover("match_group")
  if "X" in p:
    ctx.cover("exit")
  if "S" in p:
    ctx.cover("region")
  if jit:
    ctx.cover("jit")
  packed, data = editlib.pack_edit(regionlib.pack_tree(pn, jit),
                                   regionlib.pack_tree(tn, jit), par, jit)
  edges = regionlib.edge_table(packed, data)
  extra = []
  for key in x:
    if key not in data.variable_keys:
      extra.append(ctx.ite(x[key] == regionlib.NA, 0, editlib.BIG))
  for key in data.variable_keys:
    ctx.check(key in x, "a decision that the prototype does not have")
  got = editlib.dag_cost(ctx, packed, edges, x)
  if extra:
    got = got + ctx.sum(extra)
  ok, info, _ = regionlib.well_formed(ctx, ptree, x, forced_rule=False)
  want = editlib.reference_cost(ctx, ptree, ttree, x, info, par)
  ctx.check(ctx.any([ctx.ite(ok, False, True), got <= want]),
            "the diagram misses a cheaper way of editing")
  ctx.check(ctx.any([ctx.ite(ok, False, True), got >= want]),
            "the diagram charges less than the edits cost")
  ctx.check(ctx.any([ok, got >= editlib.BIG / 2]),
            "inconsistent decisions have a finite cost")
