"""P28: API-call suggestions list the calls of the suggestion, faithfully."""
import keyword
from props import editlib, lib, regionlib
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.tree_structure import transforms
from r_u_sure.wrappers import call_sequence_wrapper as csw

ID = "P28"
# t token, . dot, _ space, n newline, (..) parentheses, [..] brackets,
# {..} a plain group
SHAPES = ["t()", "t(t)", "t.t(t)", "t_t(t)", "t_t.t()", "t[t](t)", "{t(t)}",
          "(t(t))", "t(t(t))", "_t()t()", "t_(t)", "t", "()", "{t(t)}{t()}",
          "{t(t)n}{t.t()n}", "t(t)[t(t)]", "{tn}{t(t)}", "[t(t)]{t()}",
          "t(){t_t()}", "tn_t(t)", ".t()", "tnt(t)", "t_nt()", "t(_)",
          "t.t(n)", "{t(_n)}t()"]
MORE = ["t.t.t(t)", "t_t_t(t)", "{t_t(t)n}{t.t(t)n}{t()}", "{{t(t)}t(t)}",
        "t_.t(t)", "{t}{t[t]}{t(t_t)}", "t_t.t_t.t(t)"]
COSTS = ["t()", "t(t)", "t.t(t)", "t_t()", "t_t.t(t)"]
LARGE = ["{t.t.t(t_t)n}{t_t_t.t(t)n}{t(t(t))n}",
         "{t_t(t)n{t.t(t(t)[t])n{t(t)n}}}t()", "t[t(t)](t)_t.t_t(t(t.t(t)))",
         "{t_t.t(t_t_t)n}{t.t_t()n}{_t(t)n}{[t()](t)}",
         "{t(t)n}{t(t)n}{t(t)n}{t(t)n}{t(t)n}{t(t)n}"]
LONG = ["x", "define", "foo", "bar", "class_", "x", "printer", "Def", "return",
        "await", "foo", "a_rather_long_identifier", "\u00e9t\u00e9", "0x1F",
        "self", "classes", "'s'", "y", "len", "True", "ValueError", "+"]
MANY = [["t(t)", "t.t(t)"], ["t(t)", "t_t.t(t)", "t()", "t.t.t(t)"],
        ["t.t(t)", "t.t(t)", "t.t(t)", "t.t()", "t(t)", "t_t(t)"]]
BUILTINS = ["len", "ValueError", "+"]
WORDS = ["", "print", "def", "class"]
LETTERS = "fghijk"
BOUNDS = {
    "large cases": "%d longer suggestions (up to 14 words, nesting to depth "
                   "4); words of 1..24 characters, fixed (repeated, starting "
                   "like reserved words, non-ASCII) but for one" % len(LARGE),
    "suggestions": "quick: %d trees, thorough: %d (tokens, dots, whitespace, "
                   "parentheses, brackets and groups nested to depth 2)" % (
                       len(SHAPES), len(SHAPES + MORE)),
    "texts": "each token an arbitrary letter of %d (equal or not to others: "
             "symbolic), or print, def, class" % len(LETTERS),
    "prediction location": "every offset of the text (large cases: 8 offsets)",
    "reports": "%d suggestions of 2..6 calls, every subset of the "
               "first 3 and one more in the final code, one name arbitrary" % len(MANY),
    "break-even": "%d calls, every probability, precision from 3 values" %
                  len(COSTS),
}
ASSUMPTIONS = ["decorations inside a call are whitespace (what the parsers "
               "produce)",
               "the part of the tree after the prediction location is the one "
               "of P09"]
COVER = ["call", "none", "nested", "def", "novel", "expected", "context",
         "keep", "drop", "wrong", "found", "baseline", "many"]
V = rd.DecisionValue
C = psn.PackedSequenceNodeCategory


def cases(tier):
  q = tier == "quick"
  out = []
  for s in (SHAPES if q else SHAPES + MORE):
    out.append(("calls_" + s.replace("(", "<").replace(")", ">"),
                {"mode": "calls", "shape": s}))
  for s in LARGE:
    for k in ((0, 7, 14) if q else range(0, 22)):
      out.append(("large_%s_%d" % (s.replace("(", "<").replace(")", ">"), k),
                  {"mode": "calls", "shape": s, "large": k}))
  for s in COSTS:
    for p in (0.25, 0.5, 0.75):
      out.append(("precision_%s_%s" % (
          s.replace("(", "<").replace(")", ">"), p),
                  {"mode": "precision", "shape": s, "p": p}))
  for s, t in (("t(t)", "t(t)"), ("t.t(t)", "t.t()"), ("t.t()", "t(t)"),
               ("t_t.t(t)", "t.t(t)"), ("t()", "t")):
    out.append(("info_%s_%s" % (s, t), {"mode": "info", "shape": s, "t": t}))
  for i, s in enumerate(MANY):
    for k in range(len(s)):
      if q and i == 2 and k % 3:
        continue
      out.append(("many%d_%d" % (i, k), {
          "mode": "many", "shape": s, "p": (0.25, 0.7)[k % 2], "large": k}))
  return out


def build(shape, words):
  pos = [0]
  used = [0]

  def parse(close):
    out = []
    while pos[0] < len(shape) and shape[pos[0]] != close:
      c = shape[pos[0]]
      pos[0] += 1
      if c == "t":
        out.append(sn.TextTokenNode(words[used[0]], "CONTENT_LEAF"))
        used[0] += 1
      elif c == ".":
        out.append(sn.TextTokenNode(".", "CONTENT_LEAF"))
      elif c in "_n":
        out.append(sn.TextDecorationNode(" " if c == "_" else "\n"))
      elif c in "([":
        end = {"(": ")", "[": "]"}[c]
        inner = parse(end)
        pos[0] += 1
        out.append(sn.GroupNode([
            sn.TextTokenNode(c, "MATCH_LEFT"),
            sn.GroupNode(inner, "MATCH_INNER"),
            sn.TextTokenNode(end, "MATCH_RIGHT")], "MATCH"))
      elif c == "{":
        inner = parse("}")
        pos[0] += 1
        out.append(sn.GroupNode(inner, "SPLIT_GROUP"))
    return out

  return parse("")


def is_call(group):
  k = group.children
  return (group.match_type == "MATCH" and len(k) == 3 and
          lib.kind(k[0]) == "T" and k[0].text_contents == "(")


def calls_in(ctx, seq, known):
  """Calls of a sequence, as lists of (kind, text, type), in reading order."""
  start = 0
  while start < len(seq) and lib.kind(seq[start]) == "D":
    start += 1
  end = start
  while end < len(seq) and lib.kind(seq[end]) != "G":
    end += 1
  out = []
  if end < len(seq):
    head = seq[start:end]
    first = head[0].text_contents if head else None
    if first in ("def", "class"):
      ctx.cover("def")
    if (head and is_call(seq[end]) and lib.kind(head[-1]) == "T" and
        first not in ("def", "class")):
      parts = [("S", None, None)]
      for n in head:
        if lib.kind(n) == "D":
          parts.append(("D", n.text_contents, None))
          parts.append(("S", None, None))
        elif n.text_contents == ".":
          parts.append(("S", None, None))
          parts.append(("T", ".", "ATTRIBUTE_DOT"))
        else:
          seen = bool(ctx.any([n.text_contents == k for k in known]))
          ctx.cover("expected" if seen else "novel")
          parts.append(("T", n.text_contents,
                        "EXPECTED" if seen else "NOVEL"))
      args = lib.text_of(seq[end].children[1].children)
      parts += [("T", "(", "START_CALL"), ("E", None, None),
                ("T", args, "ARGS" if args else "EMPTY_ARGS"),
                ("T", ")", "END_CALL"), ("E", None, None)]
      out.append(parts)
    else:
      if calls_in(ctx, seq[end].children, known):
        ctx.cover("nested")
      out += calls_in(ctx, seq[end].children, known)
    for n in seq[end + 1:]:
      if lib.kind(n) == "G":
        out += calls_in(ctx, n.children, known)
  return out


def read(storage):
  """The packed calls, in the same form, with preorder indices."""
  out = []
  for nid in storage.root_sequence:
    if nid.category != C.GROUP_NODE:
      continue
    parts = []
    for k in storage.group_nodes[nid.index_in_category].children_ids:
      i = k.index_in_category
      if k.category == C.TEXT_TOKEN_NODE:
        n = storage.text_token_nodes[i]
        parts.append(("T", n.text_contents, n.match_type, k.preorder_index))
      elif k.category == C.TEXT_DECORATION_NODE:
        parts.append(("D", storage.text_decoration_nodes[i].text_contents,
                      None, k.preorder_index))
      elif k.category == C.REGION_START_NODE:
        parts.append(("S", None, None, k.preorder_index))
      elif k.category == C.REGION_END_NODE:
        parts.append(("E", None, None, k.preorder_index))
      else:
        parts.append(("?", None, None, k.preorder_index))
    out.append(parts)
  return out


def pick_words(ctx, shape, name, words):
  """Each word an arbitrary letter, or (by choice) a reserved word."""
  out = []
  for i in range(shape.count("t")):
    w = ctx.choice("%s%d" % (name, i), words) if len(words) > 1 else ""
    out.append(ctx.char("%sc%d" % (name, i), LETTERS) if w == "" else w)
  return out


def run(ctx, mode, shape, p=None, t=None, large=None):
  if mode == "calls":
    return calls(ctx, shape, large)
  if mode == "precision":
    return precision(ctx, shape, p)
  if mode == "many":
    return many(ctx, shape, p, large)
  return info(ctx, shape, t)


def known_tokens(seq, at):
  """Tokens that begin before the offset."""
  out = []
  pos = [0]

  def go(s):
    for n in s:
      if lib.kind(n) == "G":
        go(n.children)
      else:
        if lib.kind(n) == "T" and pos[0] < at:
          out.append(n.text_contents)
        pos[0] += len(n.text_contents)

  go(seq)
  return out


def calls(ctx, shape, large=None):
  nt = shape.count("t")
  if large is not None:
    words = [LONG[(i + large) % len(LONG)] for i in range(nt)]
    words[large % nt] = ctx.choice("word", WORDS[1:] + [
        words[large % nt], words[-1], ctx.char("letter", LETTERS)])
  else:
    words = pick_words(ctx, shape, "w", WORDS if nt < 3 else
                       WORDS[:3] if nt < 4 else WORDS[:2])
  nodes = build(shape, words)
  whole = lib.text_of(nodes)
  before = lib.snapshot(nodes)
  at = ctx.choice("location", list(range(0, len(whole) + 1, 1 if large is None
                                         else len(whole) // 7)))
  w = csw.ApiCallSequenceWrapper(use_numba=False)
  proto, context = w.process_prototype_and_context(nodes, at)
  target = w.process_target(nodes, at)
  ctx.check(lib.snapshot(nodes) == before, "the parsed nodes were modified")
  line = whole[:at].rfind("\n")
  line = 0 if line < 0 else line
  known = known_tokens(nodes, at)
  if known:
    ctx.cover("context")
  known = known + ["print", "def", "class"] + [
      k for k in LONG if keyword.iskeyword(k) or k in BUILTINS]
  want = calls_in(ctx, transforms.truncate_prefix_at_offset(nodes, line),
                  known)
  got = read(proto)
  ctx.cover("call" if want else "none")
  ctx.check(len(got) == len(want), "number of calls")
  for a, b in zip(got, want):
    ctx.check(same(ctx, a, b), "a call differs")
  plain = read(target)
  ctx.check(len(plain) == len(want), "number of calls in the target")
  for a, b in zip(plain, want):
    ctx.check(same(ctx, a, [q for q in b if q[0] not in "SE"]),
              "a call of the target differs")
  baselines(ctx, w, proto, context, got)


def same(ctx, a, b):
  if [(q[0], q[2]) for q in a] != [(q[0], q[2]) for q in b]:
    return False
  return ctx.all([x[1] == y[1] for x, y in zip(a, b) if y[0] in "TD"])


def baselines(ctx, w, proto, context, got):
  out = w.build_baseline_assignments(proto, proto, context, [])
  spans = {"all_calls_full": [], "all_calls_shorter": [],
           "novel_calls_shorter": []}
  for parts in got:
    ctx.cover("baseline")
    ends = [i for i, q in enumerate(parts) if q[0] == "E"]
    starts = [i for i, q in enumerate(parts) if q[0] == "S"]
    spans["all_calls_full"].append((parts[0][3], parts[-1][3]))
    cut = max([i for i, q in enumerate(parts) if q[0] == "D"] + [-1])
    first = min([i for i in starts if i > cut])
    short = (parts[first][3], parts[ends[0]][3])
    spans["all_calls_shorter"].append(short)
    if any(q[2] == "NOVEL" for q in parts[first:ends[0]]):
      spans["novel_calls_shorter"].append(short)
  ctx.check(sorted(out) == sorted(spans), "names of the baselines")
  for name in spans:
    inside = False
    left = list(spans[name])
    for parts in got:
      for kind, _, _, i in parts:
        if kind == "S":
          key = rd.DecisionKey(i, rd.DecisionCategory.REGION_SHOULD_START)
          if inside:
            e = V.NOT_APPLICABLE
          elif left and left[0][0] == i:
            e, inside = V.TRUE, True
          else:
            e = V.FALSE
        elif kind == "E":
          key = rd.DecisionKey(i, rd.DecisionCategory.REGION_SHOULD_END)
          if not inside:
            e = V.NOT_APPLICABLE
          elif left[0][1] == i:
            e, inside = V.TRUE, False
            left = left[1:]
          else:
            e = V.FALSE
        else:
          continue
        ctx.check(key in out[name] and out[name][key] == e,
                  "decision of baseline %s" % name)
    ctx.check(not left and not inside, "reference")


def system_cost(ctx, proto, system, x):
  """Total cost of a choice over all diagrams of a system, as weighted there."""
  inside = False
  full = {}
  for nid in proto.preorder_traversal:
    if nid.category == C.REGION_START_NODE:
      key = rd.DecisionKey(nid.preorder_index,
                           rd.DecisionCategory.REGION_SHOULD_START)
      full[key] = int(x[key])
      inside = inside or x[key] == V.TRUE
    elif nid.category == C.REGION_END_NODE:
      key = rd.DecisionKey(nid.preorder_index,
                           rd.DecisionCategory.REGION_SHOULD_END)
      full[key] = int(x[key])
      inside = inside and x[key] != V.TRUE
    elif nid.category in (C.TEXT_TOKEN_NODE, C.GROUP_NODE):
      full[rd.DecisionKey(nid.preorder_index,
                          rd.DecisionCategory.NODE_IN_REGION)] = (
                              regionlib.TRUE if inside else regionlib.FALSE)
  parts = []
  for table, data in zip(system.data.dag_tables, system.conversion_data):
    parts.append(editlib.dag_cost(
        ctx, table.dag, regionlib.edge_table(table.dag, data), full))
  return ctx.sum(parts)


def precision(ctx, shape, p):
  """A call is worth showing exactly above the requested precision."""
  q = ctx.real("probability", 0, 1)
  words = pick_words(ctx, shape, "w",
                     ["", "print"] if shape.count("t") < 4 else [""])
  nodes = build(shape, words)
  w = csw.ApiCallSequenceWrapper(effective_precision=p, use_numba=False)
  proto, context = w.process_prototype_and_context(nodes, 0)
  right = w.process_target(nodes, 0)
  wrong = w.process_target(build("t", ["zz"]), 0)
  system = w.build_system(proto, context, [right, wrong],
                          target_utility_scale_factors=[q, 1 - q])
  which = ctx.choice("part", ["all_calls_full", "all_calls_shorter"])
  starts = w.build_baseline_assignments(proto, proto, context, [])[which]
  none = {k: (V.FALSE if k.category == rd.DecisionCategory.REGION_SHOULD_START
              else V.NOT_APPLICABLE) for k in starts}
  cost = {}
  for name, x in (("show", starts), ("hide", none)):
    cost[name] = system_cost(ctx, proto, system, x)
  ctx.check_eq(cost["hide"], 0, "showing nothing is not free")
  if q > p:
    ctx.cover("keep")
    ctx.check(cost["show"] < 0, "a likely enough call is not worth showing")
  elif q < p:
    ctx.cover("drop")
    ctx.check(cost["show"] > 0, "an unlikely call is worth showing")
  else:
    ctx.check_eq(cost["show"], 0, "no break-even at the precision")


def info(ctx, shape, t):
  """Counts and total cost of an evaluated choice."""
  few = shape.count("t") + t.count("t") > 5
  pw = pick_words(ctx, shape, "w", [""] if few else ["", "print"])
  if few:
    pw[1] = pw[0]
    pw[2] = "print"
  tw = pick_words(ctx, t, "v", [""] if few else ["", "print"])
  w = csw.ApiCallSequenceWrapper(effective_precision=0.25, use_numba=False)
  proto, context = w.process_prototype_and_context(build(shape, pw), 0)
  target = w.process_target(build(t, tw), 0)
  which = ctx.choice("part", ["all_calls_full", "all_calls_shorter"])
  x = w.build_baseline_assignments(proto, proto, context, [])[which]
  system = w.build_system(proto, context, [target])
  r = w.solution_info(proto, target, context, system, x,
                      sample_system=system)
  parts = read(proto)[0]
  inside = False
  chosen = []
  shown = []
  for kind, text, typ, i in parts:
    if kind == "S":
      inside = inside or x[rd.DecisionKey(
          i, rd.DecisionCategory.REGION_SHOULD_START)] == V.TRUE
    elif kind == "E":
      inside = inside and x[rd.DecisionKey(
          i, rd.DecisionCategory.REGION_SHOULD_END)] != V.TRUE
    else:
      shown.append((text, inside))
      if kind == "T" and inside:
        chosen.append((text, typ))
  hay = [[(q[1], q[2]) for q in c if q[0] == "T"] for c in read(target)]
  at = []
  for h in hay:
    for i in range(len(h) - len(chosen) + 1):
      at.append(ctx.all([a[0] == b[0] and a[1] == b[1]
                         for a, b in zip(h[i:i + len(chosen)], chosen)]))
  found = bool(ctx.any(at))
  ctx.cover("found" if found else "wrong")
  page = w.render_pairwise_matching_html(
      prototype=proto, targets=[target], context_info=context, system=system,
      assignments=x)
  ctx.check(page.count("========== Target 0 ") == 1, "one target shown")
  ctx.check(("MATCHED" in page) == (found and bool(chosen)) and
            ("WRONG" in page) == (not found and bool(chosen)),
            "the matching shown")
  names = {"NOVEL": "novel", "EXPECTED": "not_novel", "ARGS": "args"}
  for typ in names:
    k = sum([1 for c in chosen if c[1] == typ])
    ctx.check(r["correct_" + names[typ]] == (k if found else 0),
              "correctly predicted tokens")
    ctx.check(r["deleted_" + names[typ]] == (0 if found else k),
              "wrongly predicted tokens")
  worth = sum([{"NOVEL": 10, "EXPECTED": 1, "ARGS": 1, "EMPTY_ARGS": 1}.get(
      c[1], 0) for c in chosen])
  cost = -0.75 * worth if found else 0.25 * worth
  ctx.check_eq(r["total_cost"], cost, "total cost")
  other = w.process_target(build("t", ["zz"]), 0)
  n = ctx.choice("samples", [1, 3])
  whole = w.build_system(proto, context, [target] + [other] * (n - 1))
  ctx.check_eq(n * system_cost(ctx, proto, whole, x),
               cost + 0.25 * worth * (n - 1),
               "samples without weights do not count equally")
  ctx.check_eq(r["sample_system_costs"][0], cost, "sample cost")
  ctx.check(len(r["extracted_parts"]) >= len(shown), "extracted parts")
  for (a, b), (c, d) in zip(r["extracted_parts"], shown):
    ctx.check(a == c and bool(b) == d, "extracted parts")


def many(ctx, shapes, p, k):
  """Several calls shown, some of them in the final code: counts and cost."""
  used = 0
  shown = []
  for i, s in enumerate(shapes):
    words = []
    for j in range(s.count("t")):
      words.append("w%d" % used if used % 3 else "print")
      used += 1
    # A word no other call has, so that each call is found in one place only.
    words[0] = "u%d" % i
    shown.append((s, words))
  shown[k][1][0] = ctx.char("name", LETTERS)
  right = [bool(ctx.choice("right%d" % i, [0, 1])) if i < 3 or i == k else
           i % 2 == 0 for i in range(len(shown))]
  w = csw.ApiCallSequenceWrapper(effective_precision=p, use_numba=False)

  def code(calls):
    out = []
    for s, words in calls:
      out.append(sn.GroupNode(build(s + "n", words), "SPLIT_GROUP"))
    return out

  proto, context = w.process_prototype_and_context(code(shown), 0)
  target = w.process_target(code(
      [c for c, r in zip(shown, right) if r] + [("t()", ["zz"])]), 0)
  x = w.build_baseline_assignments(proto, proto, context, [])["all_calls_full"]
  system = w.build_system(proto, context, [target])
  r = w.solution_info(proto, target, context, system, x, sample_system=system)
  names = {"NOVEL": "novel", "EXPECTED": "not_novel", "ARGS": "args"}
  count = {}
  cost = 0
  for c, ok in zip(read(proto), right):
    ctx.cover("many")
    for q in c:
      if q[2] in names:
        name = ("correct_" if ok else "deleted_") + names[q[2]]
        count[name] = count.get(name, 0) + 1
      worth = {"NOVEL": 10, "EXPECTED": 1, "ARGS": 1, "EMPTY_ARGS": 1}.get(
          q[2], 0)
      cost += -(1 - p) * worth if ok else p * worth
  for n in names.values():
    for kind in ("correct_", "deleted_"):
      ctx.check(r[kind + n] == count.get(kind + n, 0), kind + n)
  ctx.check(abs(r["total_cost"] - cost) < 1e-6, "total cost")
  ctx.check(abs(r["sample_system_costs"][0] - cost) < 1e-6, "sample cost")
