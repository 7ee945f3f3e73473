"""P09: removing a context prefix keeps exactly what follows the offset."""
from props import lib
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.tree_structure import transforms

ID = "P09"
BOUNDS = {
    "trees": "every node sequence of up to 4 (quick) / 5 (thorough) symbols "
             "over token, decoration, region start, early exit and groups to "
             "depth 2, fixed deeper trees and fixed trees of up to 20 texts",
    "texts": "each of length 0..2 (symbolic length), arbitrary characters; in the large trees "
             "0..12 characters",
    "offset": "symbolic, 0..total length + 1",
}
ASSUMPTIONS = ["the offset is not negative"]
COVER = ["zero", "inside", "boundary", "beyond", "group_cut"]


def cases(tier):
  n = 4 if tier == "quick" else 5
  out = []
  for k in range(0, n + 1):
    out.append(("trees%d" % k, {"n": k}))
  for s in ("S(TE(DX)T)XD", "X(S(T)E(T))ST", "((TS)X)(T)", "SXTD(E)T",
            "((((((T)S)D)X)T)E)T"):
    out.append(("shape:" + s, {"shape": s}))
  for s in ("D(T(T(TD)(T)D)T)(D(TDTDT)D(TTT(T)TT)DT)D", "TDTDTDTDTDTDTDTDTDTD",
            "(T" * 12 + "S" + "D)" * 12 + "T",
            "S(TDTE)X(((D(T(DST)E)D)T)X)(TDT)TXDT"):
    out.append(("long:" + s, {"shape": s, "big": 1}))
  out.reverse()
  return out


def run(ctx, n=None, shape=None, big=None):
  if shape is None:
    shape = lib.choose_shape(ctx, n, "TDS", 2)
  count = shape.count("T") + shape.count("D")
  texts = []
  total = 0
  for i in range(count):
    if big:
      # Mostly fixed texts, of 0..12 characters.
      k = (i * 5 + 3) % 13
      texts.append(ctx.text("t%d" % i, k) if i == 4 else "abcdefghijkl"[:k])
      total += k
      continue
    k = ctx.choice("len%d" % i, (1, 0, 2) if count <= 3 else (1, 0))
    texts.append(ctx.text("t%d" % i, k))
    total += k
  nodes = lib.build(shape, texts)
  before = lib.snapshot(nodes)
  off = ctx.int("offset", 0, total + 1)
  got = transforms.truncate_prefix_at_offset(nodes, off)
  ctx.check(lib.snapshot(nodes) == before, "the input tree was modified")
  whole = lib.text_of(nodes)
  ctx.check(lib.text_of(got) == whole[off:],
            "text after truncation is not the text from the offset on")
  if off == 0:
    ctx.cover("zero")
  if off > total:
    ctx.cover("beyond")

  def ref(seq, pos):
    """(kept nodes, end position)"""
    out = []
    for x in seq:
      k = lib.kind(x)
      if k == "G":
        kids, end = ref(x.children, pos)
        if end >= off:
          out.append(sn.GroupNode(kids, x.match_type))
          if pos < off:
            ctx.cover("group_cut")
        pos = end
      elif k in "TD":
        end = pos + len(x.text_contents)
        if pos >= off:
          out.append(x)
          if pos == off and off > 0:
            ctx.cover("boundary")
        elif end > off:
          ctx.cover("inside")
          rest = x.text_contents[off - pos:]
          out.append(sn.TextTokenNode(rest, x.match_type) if k == "T"
                     else sn.TextDecorationNode(rest))
        pos = end
      elif pos >= off:
        out.append(x)
    return out, pos

  want, _ = ref(nodes, 0)
  ctx.check(lib.same_nodes(ctx, got, want),
            "nodes after truncation differ: markers or groups lost or kept")
