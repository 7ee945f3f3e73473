"""P19: the constraint diagram admits exactly the well-formed region choices."""
from props import lib, regionlib

ID = "P19"
BOUNDS = {
    "prototypes": "every sequence of up to 5 (quick) / 6 (thorough) symbols "
                  "over token, decoration, region start, region end, early "
                  "exit and groups nested to depth 2, plus longer ones of up to "
                  "40 symbols nested to depth 14",
    "assignments": "every assignment of every decision (symbolic)",
}
ASSUMPTIONS = ["numba's compiled code behaves as its Python source"]
COVER = ["nested", "exit", "region", "jit"]
LONG = ["STE(STE)STE", "S(SSTEE)E(ST)", "ST(S(TE)E)EX", "SX(XTE)EX(SE)",
        "S(S(SETE)E)E", "XSXTXEX", "(SST(E)E)(E)T", "S((ST)(TE))E",
        "S((((((TSTE))))))E(X)ST", "STESTESTESTESTESTESTESTE",
        "(T(ST(TE)SE)X)(S(T)E(ST)E)D((X)T)STE", "XTXTXTXSTXTXEXTXTX",
        "SSSSTEEEETSSTEE", "((S(T)E)(S(T)E))((S)(E))(SET(SE)T)",
        "(" * 14 + "STE" + ")" * 14 + "T", "S" + "(" * 13 + "TX" + ")" * 13 + "E",
        "ST(TTTTTTTTTTTT)TTTTTTTTETTTTTTSTE"]


def cases(tier):
  q = tier == "quick"
  out = []
  for s in LONG:
    for jit in (False, True):
      out.append(("long_%s_%d" % (s.replace("(", "<").replace(")", ">"), jit),
                  {"shape": s, "jit": jit}))
  n = 5 if q else 6
  firsts = "TDSEX("
  for k in range(1, n + 1):
    for f in firsts:
      if q and k < n - 1 and f in "D":
        continue
      for g in (firsts + ")" if k >= 4 else "-"):
        if g == ")" and f != "(":
          continue
        out.append(("gen%d_%s%s" % (k, f.replace("(", "<"),
                                    g.replace("(", "<").replace(")", ">")),
                    {"n": k, "first": f, "second": g, "jit": k % 2 == 0}))
  out.append(("empty", {"shape": "", "jit": False}))
  return out


def run(ctx, jit, shape=None, n=None, first=None, second=None):
  if shape is None:
    depth, out = 0, []
    for i in range(n):
      opts = list("TSEX") + (["D"] if i == 0 else [])
      if depth < 2:
        opts.append("(")
      if depth:
        opts.append(")")
      if i == 0:
        opts = [first]
      elif i == 1 and second != "-":
        opts = [second]
      c = ctx.choice("s%d" % i, opts) if len(opts) > 1 else opts[0]
      out.append(c)
      depth += {"(": 1, ")": -1}.get(c, 0)
    shape = "".join(out) + ")" * depth
  texts = ["ab" for c in shape if c in "TD"]
  nodes = lib.build(shape, texts)
  tree, flat = regionlib.index_nodes(nodes)
  x = {}
  for m in flat:
    if m.key is not None:
      x[m.key] = ctx.int("x%d" % m.index, 1, 3)
  if "((" in shape:
    ctx.cover("nested")
  if "X" in shape:
    ctx.cover("exit")
  if "S" in shape and "E" in shape:
    ctx.cover("region")
  if jit:
    ctx.cover("jit")
  storage = regionlib.pack_tree(nodes, jit)
  packed, data = regionlib.pack_constraints(storage, jit)
  # Some decision may be impossible to reach; then it has no variable and is
  # implicitly not applicable.
  edges = regionlib.edge_table(packed, data)
  for e in edges:
    ctx.check_eq(e[2], 0, "a constraint has a cost")
  conds = []
  for k in x:
    if k not in data.variable_keys:
      conds.append(x[k] == regionlib.NA)
  for k in data.variable_keys:
    ctx.check(k in x, "a decision that the prototype does not have")
  got = ctx.all(conds + [regionlib.accepted(ctx, packed, edges, x)])
  want, _, _ = regionlib.well_formed(ctx, tree, x)
  ctx.check(ctx.any([ctx.ite(got, False, True), want]),
            "an ill-formed set of regions is admitted")
  ctx.check(ctx.any([ctx.ite(want, False, True), got]),
            "a well-formed set of regions is refused")
