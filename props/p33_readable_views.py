"""P33: the readable views of trees show every node, in its place."""
from props import lib
from props import programs
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.tree_structure import sequence_node_helpers as snh
from r_u_sure.tree_structure import sequence_nodes as sn

ID = "P33"
SHAPES = ["", "T", "D", "S", "E", "X", "()", "TD", "(T)", "(TD)T", "((T)D)",
          "S(T)E", "(S)X(E)", "T(T(T))", "(()T)", "DTXD", "((())T)"]
MORE = ["(T(D)T)D", "(((T)T)T)", "S(T)(D)E", "X(X(X))T"]
LONG = [0, 1, 40, 76, 77, 78, 79, 80, 81, 82, 200]
CODE = ["a(b)", "?", "(?)", "a\n ?", "f(?)[b]", "{?;a}", "a ?\n", "(a", "x)?",
        "a:\n  ?\nb"]
PRINTABLE = "abz() \n[{"
MAX = 80
BOUNDS = {
    "nodes": "quick: %d trees to depth 3, thorough: %d, one text of 0..1 "
             "arbitrary characters (a lone one 0..2), the others one of 3 letters" % (
                 len(SHAPES), len(SHAPES + MORE)),
    "long texts": "texts and groups of %s characters, one of them arbitrary" %
                  LONG,
    "match types": "text, absent, or a number",
    "parses": "%d templates with an arbitrary character of %r, and the "
              "realistic programs of P02, in four languages" % (
                  len(CODE), PRINTABLE),
    "decisions": "every kind of decision and value",
}
ASSUMPTIONS = ["token columns are checked for tokens without quotes and "
               "backslashes, which the view does not escape"]
COVER = ["group", "marker", "abridged", "exact", "untyped", "masked", "list",
         "single", "names", "plain"]


def cases(tier):
  q = tier == "quick"
  out = []
  for s in (SHAPES if q else SHAPES + MORE):
    for two in range(max(1, s.count("T") + s.count("D"))):
      out.append(("nodes_%s_%d" % (s.replace("(", "<").replace(")", ">"), two),
                  {"mode": "nodes", "shape": s, "two": two}))
  for n in LONG:
    out.append(("long_%d" % n, {"mode": "long", "shape": "", "two": n}))
  for lang in ("python", "cpp", "java", "javascript"):
    for t in CODE:
      out.append(("parse_%s_%s" % (lang, lib.esc(t)),
                  {"mode": "parse", "shape": t, "lang": lang}))
    for i in range(len(programs.PROGRAMS[lang])):
      out.append(("program_%s_%d" % (lang, i),
                  {"mode": "parse", "shape": "", "lang": lang, "two": i}))
  out.append(("names", {"mode": "names", "shape": ""}))
  return out


def run(ctx, mode, shape, two=None, lang=None):
  if mode == "nodes":
    k = shape.count("T") + shape.count("D")
    texts = []
    for i in range(k):
      if i == two:
        texts.append(ctx.text("t%d" % i, ctx.choice("len", [0, 1, 2] if shape == "D" else [0, 1])))
      else:
        texts.append(ctx.char("t%d" % i, "abc"))
    nodes = lib.build(shape, texts)
    retype(nodes, len(shape) + two)
    views(ctx, nodes)
  elif mode == "long":
    c = ctx.text("c", 1) if two else ""
    at = ctx.choice("at", [0, two // 2, min(two, 77) - 1, two - 1]) if (
        two) else 0
    text = "x" * at + c + "y" * (two - at - 1)
    half = two // 2
    nodes = [sn.TextTokenNode(text, "k"), sn.TextDecorationNode(text),
             sn.GroupNode([sn.TextTokenNode(text[:half], None),
                           sn.GroupNode([sn.TextTokenNode(text[half:], None)],
                                        None)], "g")]
    ctx.check(len(text) == two, "reference")
    views(ctx, nodes)
  elif mode == "parse":
    parse(ctx, shape, two, lang)
  else:
    names(ctx)


def retype(nodes, k):
  types = ["some type", None, 7]
  k = k % 3

  def go(ns):
    for n in ns:
      if lib.kind(n) in "TG":
        n.match_type = types[k]
      if lib.kind(n) == "G":
        go(n.children)

  go(nodes)


def line(ctx, n):
  """What a node's line says."""
  k = lib.kind(n)
  if k not in "TDG":
    ctx.cover("marker")
    return str(n)
  text = lib.text_of([n])
  head = {"T": "TOK", "D": "DEC", "G": "GROUP"}[k]
  if k != "D":
    if n.match_type is None:
      ctx.cover("untyped")
    else:
      head = head + "(" + str(n.match_type) + ")"
  if len(text) > MAX:
    ctx.cover("abridged")
    return head + ": " + repr(text[:MAX - 3]) + "..."
  if len(text) == MAX:
    ctx.cover("exact")
  return head + ": " + repr(text)


def lines(ctx, nodes, depth, out):
  for n in nodes:
    out.append("  " * depth + line(ctx, n))
    if lib.kind(n) == "G":
      ctx.cover("group")
      lines(ctx, n.children, depth + 1, out)


def views(ctx, nodes):
  before = lib.snapshot(nodes)
  want = []
  lines(ctx, nodes, 0, want)
  ctx.cover("list")
  ctx.check(snh.render_debug(nodes) == "\n".join(want), "view of a sequence")
  for n in nodes:
    want = []
    lines(ctx, [n], 0, want)
    ctx.cover("single")
    ctx.check(snh.render_debug(n) == "\n".join(want), "view of a node")
  ctx.check(snh.render_text_contents(nodes) == lib.text_of(nodes),
            "text of the nodes")
  ctx.check(lib.snapshot(nodes) == before, "the nodes were modified")


def parse(ctx, template, program, lang):
  if template:
    code = lib.fill(ctx, template, PRINTABLE)
  else:
    code = programs.fill(ctx, programs.PROGRAMS[lang][program], 0, PRINTABLE)
  root, _, _, raw, _ = stack_parser.PseudoParser.parse_and_maybe_preprocess(
      lang, code)
  flat = []

  def walk(n, depth):
    flat.append((n, depth))
    for c in n.children:
      walk(c, depth + 1)

  walk(root, 0)
  columns(ctx, root.human_readable_string(), flat, None)
  plain = True
  for t in raw:
    for c in t:
      if c == "'" or c == '"' or c == "\\" or not (
          c == "\n" or (" " <= c and c <= "~")):
        plain = False
  if plain:
    ctx.cover("plain")
  columns(ctx, root.human_readable_string(list(raw)), flat,
          raw if plain else [])


def columns(ctx, view, flat, raw):
  rows = view.split("\n")
  ctx.check(len(rows) == len(flat), "one row per node")
  for row, (n, depth) in zip(rows, flat):
    ctx.check(row.startswith("| "), "columns of a row")
    name = "   " * depth + "Node(%d-%d, %s)" % (n.lo, n.hi, n.annotation)
    ctx.check((row + " ").rstrip(" ").endswith("| " + name),
              "a node is not shown in its place")
    if raw is None:
      continue
    mask = row[2:len(row.rstrip(" ")) - len(name) - 3]
    if raw and n.hi > 0:
      ctx.cover("masked")
      want = ""
      for i, t in enumerate(raw):
        t = t.replace("\n", "\\n")
        want += t if n.lo <= i and i < n.hi else "_" * len(t)
      ctx.check(mask.rstrip(" ") == want.rstrip(" "),
                "the tokens shown are not those of the node")


def names(ctx):
  """Different decisions read differently."""
  ctx.cover("names")
  seen = {}
  for category in rd.DecisionCategory:
    for value in rd.DecisionValue:
      key = rd.DecisionKey(3, category)
      s = key.summarize_assignment(value)
      ctx.check(category.shortname() in s and value.shortname() in s,
                "a decision does not name its kind and value")
      ctx.check(s not in seen, "two decisions read the same")
      seen[s] = True
  for value in rd.DecisionValue:
    ctx.check(value.name.lower().replace("not_applicable", "n/a") ==
              value.shortname() or value.name == "NOT_APPLICABLE",
              "name of a value")
