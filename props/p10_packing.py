"""P10: packing a tree is lossless and all of its indices agree."""
from props import lib
import numba
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import sequence_nodes as sn

ID = "P10"
BOUNDS = {
    "trees": "every node sequence of up to 4 (quick) / 5 (thorough) symbols "
             "over the five leaf kinds, groups to depth 3, and fixed trees "
             "of up to 60 nodes and 10 levels",
    "texts": "arbitrary (symbolic) text, also empty",
    "path lookups": "every path entry is symbolic, -1..3, path length 0..3 (6 in one deep tree)",
    "variants": "plain lists and typed lists, both traversal implementations",
}
ASSUMPTIONS = ["numba's compiled code behaves as its Python source"]
COVER = ["roundtrip", "bad_path", "deep", "strip"]
C = psn.PackedSequenceNodeCategory
CAT = {"T": C.TEXT_TOKEN_NODE, "D": C.TEXT_DECORATION_NODE, "G": C.GROUP_NODE,
       "S": C.REGION_START_NODE, "E": C.REGION_END_NODE,
       "X": C.EARLY_EXIT_NODE}


def cases(tier):
  n = 4 if tier == "quick" else 5
  out = []
  for k in range(0, n + 1):
    out.append(("trees%d" % k, {"n": k}))
  for s in ("S(T(D(TE)X)(T))D", "(()((T)))TX"):
    out.append(("shape:" + s, {"shape": s}))
    out.append(("path:" + s, {"shape": s, "path": 3}))
  for s in ("D(T(TD(T)(T(DT)T)D)(T)S(((T)))EDT)X(TT(T(T(T(T(TD)T)T)T)T))T()D",
            "TDTDTDTDTDTDTSXET(TTTTTXTDTTTTT)D((()))(D)((D))(T)",
            "(((((((((T)))))))))S((((((((DT))))))E)",
            "(" * 24 + "TDS" + ")" * 24 + "T",
            "(T" * 14 + "D" + "E)" * 14):
    out.append(("big:" + s, {"shape": s}))
  out.append(("bigpath", {"shape": "(T)(((((T)S)E)X)T(D))TTT", "path": 6}))
  out.append(("path:T(T)", {"shape": "T(TS)", "path": 2}))
  out.reverse()
  return out


def run(ctx, n=None, shape=None, path=None):
  if shape is None:
    shape = lib.choose_shape(ctx, n, "TDSEX", 3)
  count = shape.count("T") + shape.count("D")
  texts = [ctx.text("t%d" % i, 1) for i in range(count)]
  nodes = lib.build(shape, texts)
  storages = [psn.pack(nodes),
              psn.pack(nodes, as_numba_typed=True,
                       match_type_numba_type=numba.typeof("tok"))]
  if path is not None:
    return lookup(ctx, nodes, storages[ctx.choice("st", (0, 1))], path)
  for st in storages:
    check_storage(ctx, nodes, st)


def check_storage(ctx, nodes, st):
  ctx.check(lib.same_nodes(ctx, psn.unpack(st), nodes),
            "unpacking does not restore the tree")
  ctx.cover("roundtrip")
  # preorder reference
  order = []
  counts = {"T": 0, "D": 0, "G": 0}
  flat = []

  def visit(seq, path, parent):
    for i in range(len(seq)):
      x = seq[i]
      k = lib.kind(x)
      order.append((x, k, path + (i,), parent, i))
      me = len(order) - 1
      if k == "G":
        flat.append(("before", me))
        visit(x.children, path + (i,), me)
        flat.append(("after", me))
      else:
        flat.append(("leaf", me))

  visit(nodes, (), -1)
  size = len(order)
  ctx.check(len(st.preorder_traversal) == size and
            len(st.level_from_preorder) == size and
            len(st.parents_and_offsets_from_preorder) == size,
            "preorder tables have the wrong length")
  deepest = 0
  for j in range(size):
    x, k, path, parent, i = order[j]
    nid = st.preorder_traversal[j]
    ctx.check(nid.preorder_index == j, "preorder index differs from position")
    ctx.check(nid.category == CAT[k], "wrong node category")
    if k in counts:
      ctx.check(nid.index_in_category == counts[k],
                "index in category differs")
      counts[k] += 1
      stored = {"T": st.text_token_nodes, "D": st.text_decoration_nodes,
                "G": st.group_nodes}[k][nid.index_in_category]
      if k in "TD":
        ctx.check(stored.text_contents == x.text_contents, "stored text")
      if k in "TG":
        ctx.check(stored.match_type == x.match_type, "stored match type")
      if k == "G":
        want = [q for q in range(size) if order[q][3] == j]
        ctx.check([c.preorder_index for c in stored.children_ids] == want and
                  [c for c in stored.children_ids] ==
                  [st.preorder_traversal[q] for q in want],
                  "stored children differ")
    pos = st.parents_and_offsets_from_preorder[j]
    ctx.check(pos.parent_preorder_index == parent and
              pos.index_of_child_in_parent == i, "position in parent differs")
    ctx.check(st.level_from_preorder[j] == len(path) - 1, "level differs")
    deepest = max(deepest, len(path))
    ctx.check(st.path_from_preorder_index(j).path == path,
              "path of a preorder index differs")
    ctx.check(st.node_id_from_node_path(sn.NestedNodePath(path)) == nid,
              "node at a path differs")
    ctx.check(psn.render_text_contents_of_node(nid, st) == lib.text_of([x]),
              "rendered node text differs")
  ctx.check(st.depth == max(deepest, 1), "depth differs")
  if deepest >= 4:
    ctx.cover("deep")
  ctx.check([r.preorder_index for r in st.root_sequence] ==
            [q for q in range(size) if order[q][3] == -1], "root sequence")
  ctx.check(psn.render_text_contents_of_list(st.root_sequence, st) ==
            lib.text_of(nodes), "rendered text differs")
  tc = psn.InOrderTraversalCategory
  cat = {"before": tc.BEFORE_GROUP, "after": tc.AFTER_GROUP, "leaf": tc.LEAF}
  overload = numba.OVERLOADS["in_order_traversal"]
  for strip in (False, True):
    want = [(cat[a], st.preorder_traversal[j]) for a, j in flat
            if not (strip and order[j][1] == "D")]
    if strip and len(want) < len(flat):
      ctx.cover("strip")
    for fn in (psn.in_order_traversal, overload(st, strip)):
      got = [(it.category, it.node_id) for it in fn(st, strip)]
      ctx.check(got == want, "in-order traversal differs")


def lookup(ctx, nodes, st, n):
  """Any path either leads to its node or is refused."""
  k = ctx.choice("plen", range(1, n + 1))
  path = tuple(ctx.int("p%d" % i, -1 if i < k - 1 else 0, 3)
               for i in range(k))
  at = nodes
  ok = True
  for i in range(k):
    j = path[i]
    if not 0 <= j < len(at):
      ok = False
      break
    x = at[j]
    if i < k - 1:
      if lib.kind(x) != "G":
        ok = False
        break
      at = x.children
  try:
    nid = st.node_id_from_node_path(sn.NestedNodePath(path))
  except (ValueError, IndexError):
    ctx.cover("bad_path")
    ctx.check(not ok, "a valid path was refused")
    return
  ctx.check(ok, "an invalid path was accepted")
  ctx.check(nid.category == CAT[lib.kind(x)], "path leads to another node")
  back = st.path_from_preorder_index(nid.preorder_index).path
  ctx.check(len(back) == k, "path does not round-trip")
  for a, b in zip(back, path):
    ctx.check(a == b, "path does not round-trip")
