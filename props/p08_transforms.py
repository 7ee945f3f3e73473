"""P08: tree transforms only regroup or add markers, exactly where allowed."""
from props import lib
from r_u_sure.tree_structure import sequence_node_helpers
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.tree_structure import transforms
from r_u_sure.wrappers import parser_tools

ID = "P08"
BOUNDS = {
    "trees": "every node sequence of up to 4 (quick) / 6 (thorough) symbols "
             "over token, decoration, early exit, region start/end and nested "
             "groups to depth 3; chains of singleton groups to depth 4",
    "large trees": "%d fixed trees of up to 60 nodes, up to 9 deep and 14 "
                   "children wide" % 4,
    "texts": "arbitrary (symbolic) token text",
    "filters": "the node filter is an arbitrary boolean function of the node",
}
ASSUMPTIONS = []
COVER = ["nested", "filtered", "singleton", "empty_group", "walk"]
BIG = [
    "D(T(TD(T)(T(DT)T)D)(T)(((T)))DT)(TT(T(T(T(T(TD)T)T)T)T))T()D",
    "TDTDTDTDTDTDTDT(TTTTTTTTTTTTTT)D((()))(D)((D))(T)",
    "(((((((((T)))))))))((((((((DT))))))T)",
    "(" * 16 + "TDT" + ")" * 16 + "D",
    "(T(D)T)(T(D)T)((T)(T)(T))(((T)(T))((T)(T)))(()T())",
]
OPS = ["flatten", "singleton", "exit", "regions", "single", "strip", "walk",
       "pseudofilter"]


def cases(tier):
  q = tier == "quick"
  n = 4 if q else 6
  out = []
  for op in OPS:
    for k in range(0, n + 1):
      out.append(("%s%d" % (op, k), {"op": op, "n": k}))
  out.append(("singleton_deep", {"op": "singleton", "shape": "((((T))))(D)(())"}))
  out.append(("exit_deep", {"op": "exit", "shape": "(T(T(DT)))T(())"}))
  out.append(("regions_deep", {"op": "regions", "shape": "(T(T(DT)))D(())"}))
  out.append(("single_deep", {"op": "single", "shape": "(T(T(DT)))D(())"}))
  for op in OPS:
    for i, shape in enumerate(BIG):
      if op in ("strip", "walk", "flatten"):
        shape = shape.replace("D(", "DX(").replace(")T", ")SET")
      out.append(("%s_big%d" % (op, i), {"op": op, "shape": shape}))
  out.reverse()
  return out


def run(ctx, op, n=None, shape=None):
  if shape is None:
    syms = {"strip": "TDSEX", "walk": "TSX", "flatten": "TDS"}.get(op, "TD")
    shape = lib.choose_shape(ctx, n, syms, 3)
  count = shape.count("T") + shape.count("D")
  texts = [ctx.text("t%d" % i, 1) for i in range(count)]
  nodes = lib.build(shape, texts)
  before = lib.snapshot(nodes)
  if "((" in shape:
    ctx.cover("nested")
  if "()" in shape:
    ctx.cover("empty_group")
  globals()["do_" + op](ctx, nodes)
  ctx.check(lib.snapshot(nodes) == before, "the input tree was modified")


def same(ctx, got, want, msg):
  ctx.check(lib.same_nodes(ctx, got, want), msg)
  ctx.check(sequence_node_helpers.render_text_contents(got) ==
            lib.text_of(want), "rendered text differs")


def flat(nodes):
  out = []
  for x in nodes:
    if lib.kind(x) == "G":
      out.extend(flat(x.children))
    else:
      out.append(x)
  return out


def do_flatten(ctx, nodes):
  same(ctx, transforms.flatten_groups(nodes), flat(nodes),
       "flattening is not the leaves in order")


def collapse(nodes):
  out = []
  for x in nodes:
    types = []
    while lib.kind(x) == "G" and len(x.children) == 1 and (
        lib.kind(x.children[0]) in "GT"):
      types.append(x.match_type)
      x = x.children[0]
    if lib.kind(x) == "G":
      out.append(sn.GroupNode(collapse(x.children),
                              tuple(types + [x.match_type])))
    elif lib.kind(x) == "T":
      out.append(sn.TextTokenNode(x.text_contents,
                                  tuple(types + [x.match_type])))
    else:
      out.append(x)
  return out


def do_singleton(ctx, nodes):
  ctx.cover("singleton")
  same(ctx, transforms.flatten_singleton_groups(nodes), collapse(nodes),
       "singleton groups are not collapsed with their types kept")


def ref_exit(nodes, inside, start):
  out = [sn.EarlyExitNode()] if start else []
  for x in nodes:
    k = lib.kind(x)
    if k == "G" and inside:
      out.append(sn.GroupNode(ref_exit(x.children, True, False), x.match_type))
    else:
      out.append(x)
    if k in "GT":
      out.append(sn.EarlyExitNode())
  return out


def do_exit(ctx, nodes):
  inside = bool(ctx.bool("inside"))
  start = bool(ctx.bool("start"))
  got = transforms.insert_early_exit(
      nodes, allowed_within_group=inside, allowed_at_start=start)
  same(ctx, got, ref_exit(nodes, inside, start),
       "early exits are not after each token or group")
  same(ctx, transforms.strip_decision_nodes(got), nodes,
       "stripping does not undo the insertion")


def ref_regions(nodes, empty, allowed):
  out = []
  for x in nodes:
    k = lib.kind(x)
    y = x
    if k == "G":
      y = sn.GroupNode(ref_regions(x.children, empty, allowed), x.match_type)
    if k in "GT" and allowed(x):
      out.append(sn.RegionStartNode())
      if empty:
        out.append(sn.RegionEndNode())
      out.append(y)
      out.append(sn.RegionEndNode())
    else:
      out.append(y)
  if empty:
    out.extend([sn.RegionStartNode(), sn.RegionEndNode()])
  return out


def do_regions(ctx, nodes):
  empty = bool(ctx.bool("empty"))
  answers = []

  def allowed(node):
    for known, ans in answers:
      if known is node:
        return ans
    ans = (ctx.bool("f%d" % len(answers)) if len(answers) < 5
           else len(answers) % 3 > 0)
    answers.append((node, ans))
    if not ans:
      ctx.cover("filtered")
    return ans

  got = transforms.insert_region_options_around_subsequences(
      nodes, allow_empty_regions=empty, node_filter=allowed)
  same(ctx, got, ref_regions(nodes, empty, allowed),
       "region markers are not around the allowed nodes")
  same(ctx, transforms.strip_decision_nodes(got), nodes,
       "stripping does not undo the insertion")
  # Default filter: every node.
  got = transforms.insert_region_options_around_subsequences(
      nodes, allow_empty_regions=empty)
  same(ctx, got, ref_regions(nodes, empty, lambda x: True),
       "region markers are not around every node")


def ref_single(nodes):
  out = []
  for x in nodes:
    k = lib.kind(x)
    if k == "G":
      x = sn.GroupNode(ref_single(x.children), x.match_type)
    if k in "GT":
      out.append(sn.GroupNode([sn.RegionStartNode(), x, sn.RegionEndNode()],
                              "region_scope"))
    else:
      out.append(x)
  return out


def do_single(ctx, nodes):
  same(ctx, transforms.insert_region_options_around_single_nodes(nodes),
       ref_single(nodes), "each node is not wrapped in its own region scope")


def ref_strip(nodes):
  out = []
  for x in nodes:
    k = lib.kind(x)
    if k == "G":
      out.append(sn.GroupNode(ref_strip(x.children), x.match_type))
    elif k in "TD":
      out.append(x)
  return out


def do_strip(ctx, nodes):
  same(ctx, transforms.strip_decision_nodes(nodes), ref_strip(nodes),
       "stripping removes or keeps the wrong nodes")


def do_walk(ctx, nodes):
  pre = bool(ctx.bool("pre"))
  post = bool(ctx.bool("post"))
  want = []
  depth = [1]
  tag = sequence_node_helpers.WalkTag

  def ref(seq, path, d):
    depth[0] = max(depth[0], d)
    for i in range(len(seq)):
      x = seq[i]
      p = path + (i,)
      if lib.kind(x) == "G":
        if pre:
          want.append((x, p, tag.GROUP_BEFORE_CHILDREN))
        ref(x.children, p, d + 1)
        if post:
          want.append((x, p, tag.GROUP_AFTER_CHILDREN))
      else:
        want.append((x, p, tag.LEAF))

  ref(nodes, (), 1)
  got = list(sequence_node_helpers.walk_with_paths(
      nodes, visit_groups_before=pre, visit_groups_after=post))
  ctx.check(len(got) == len(want), "walk visits the wrong number of nodes")
  ctx.cover("walk")
  for (x, p, t), (wx, wp, wt) in zip(got, want):
    ctx.check(x is wx and p.path == wp and t == wt,
              "walk visits the wrong node, path or tag")
    # A path leads to its node, and paths are visited in document order.
    at = nodes
    for j in p.path[:-1]:
      at = at[j].children
    ctx.check(at[p.path[-1]] is x, "path does not lead to the node")
  if not post:
    for (_, p, _), (_, p2, _) in zip(got, got[1:]):
      ctx.check(p < p2, "paths are not increasing")
  ctx.check(sequence_node_helpers.compute_depth(nodes) == depth[0],
            "computed depth differs")


def do_pseudofilter(ctx, nodes):
  """Regions are kept out of bracket nodes and lone newlines."""
  kinds = ["MATCH_LEFT", "MATCH_INNER", "MATCH_RIGHT", "MATCH", "CONTENT_LEAF",
           "SPLIT_GROUP", "STRING_LITERAL", "ROOT"]
  t = ctx.choice("mt", kinds)
  for x in nodes:
    if lib.kind(x) in "GT":
      y = (sn.GroupNode(x.children, t) if lib.kind(x) == "G"
           else sn.TextTokenNode(x.text_contents, t))
      want = t not in kinds[:3]
      if lib.kind(x) == "T":
        want = ctx.all([want, x.text_contents != "\n"])
      got = parser_tools.allow_regions_around_pseudoparse_node(y)
      ctx.check(got == want, "region filter for parsed code")
