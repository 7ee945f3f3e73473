"""P04: Python indentation becomes exactly the block structure of the tree."""
from r_u_sure.parsing.pseudo_parser import stack_parser

ID = "P04"
BOUNDS = {
    "text": "every string of 0..5 (quick) / 0..7 (thorough) characters over "
            "{space, newline, a, (, )}; every program of 2..4 lines with "
            "indentation 0..4 and line bodies from a fixed list",
    "tabs": "3 lines whose indentation mixes tabs and spaces, "
            "each counting one",
    "spaces_per_indent": "symbolic, 1..4",
    "long programs": "7..14 lines, indentation up to 24, up to 12 levels, "
                     "with two lines of arbitrary indentation 0..12",
}
# (indentation, index into BODIES); None is arbitrary.
LONG = [
    [(0, 0), (2, 0), (4, 0), (6, 0), (8, 0), (10, 0), (12, 0), (14, 0),
     (None, 0), (6, 0), (None, 0), (0, 0)],
    [(0, 0), (24, 0), (None, 0), (12, 0), (1, 0), (0, 0), (None, 0)],
    [(8, 0), (0, 1), (3, 4), (None, 0), (8, 5), (4, 2), (0, 0), (2, 3),
     (4, 0), (None, 1), (4, 0), (0, 4), (0, 0)],
    [(0, 0), (4, 0), (8, 2), (0, 0), (12, 3), (None, 0), (0, 1), (0, 1),
     (8, 0), (4, 4), (None, 4), (4, 0), (0, 5), (4, 0)],
    [(0, 5), (4, 5), (None, 1), (4, 1), (8, 0), (8, 0), (12, 4), (None, 0),
     (8, 0), (0, 1)],
    [(0, 0), (16, 1), (4, 0), (13, 1), (40, 1), (None, 1), (8, 0), (16, 4),
     (None, 0), (12, 1), (0, 0)],
]
TABS = ["", "\t", " \t", "\t\t", "    ", "\t  \t"]

BODIES = ["a", "", "(", ")", "#", '""" \n  "" """']
ASSUMPTIONS = [
    "block depth is compared on logical lines outside brackets when bracket "
    "correction was not needed"]
COVER = ["indent2", "dedent2", "blank", "bracketed_newline", "header",
         "tab", "block"]
TT = stack_parser.TokenType


def cases(tier):
  q = tier == "quick"
  out = []
  for n in range(0, (5 if q else 7) + 1):
    out.append(("text%d" % n, {"kind": "text", "n": n}))
  out.append(("plain4", {"kind": "lines", "n": 4, "bodies": [0], "maxind": 4}))
  out.append(("blank3", {"kind": "lines", "n": 3, "bodies": [0, 1],
                         "maxind": 3}))
  out.append(("mixed3", {"kind": "lines", "n": 3,
                         "bodies": [0, 2, 3] if q else [0, 1, 2, 3, 4],
                         "maxind": 2}))
  out.append(("string3", {"kind": "lines", "n": 3, "bodies": [0, 4, 5],
                          "maxind": 2}))
  out.append(("tabs3", {"kind": "tabs", "n": 3, "bodies": [0, 1]}))
  for i in range(len(LONG)):
    out.append(("long%d" % i, {"kind": "lines", "n": i, "bodies": None,
                               "maxind": 12}))
  if not q:
    out.append(("mixed4", {"kind": "lines", "n": 4,
                           "bodies": [0, 1, 2, 3], "maxind": 2}))
    out.append(("plain5", {"kind": "lines", "n": 5,
                           "bodies": [0], "maxind": 6}))
  out.reverse()
  return out


def expected(code, spi):
  """Reference: [(offset of a logical line, level)] or None if brackets are bad.

  Only the characters the cases use are understood: newline, space, brackets,
  '#' comments to end of line, triple-quoted strings.
  """
  out = []
  depth = 0
  i = 0
  start = 0
  n = len(code)
  while i < n:
    c = code[i]
    if code[i:i + 3] == '"""':
      j = i + 3
      while code[j:j + 3] != '"""':
        j += 1
      i = j + 3
      continue
    if c == "#":
      while i < n and code[i] != "\n":
        i += 1
      continue
    if c == "(":
      depth += 1
    elif c == ")":
      depth -= 1
      if depth < 0:
        return None
    elif c == "\n" and depth == 0:
      out.append((start, i + 1))
      start = i + 1
    i += 1
  if depth:
    return None
  if start < n:
    out.append((start, n))
  res = []
  for lo, hi in out:
    line = code[lo:hi]
    k = 0
    while k < len(line) and line[k] in " \t\n":
      k += 1
    if k == len(line):
      continue
    # leading newlines cannot occur: a line ends at its first newline
    res.append((lo + k, k // spi))
  return res


def run(ctx, kind, n, bodies=None, maxind=None):
  spi = ctx.int("spi", 1, 4)
  if kind == "text":
    code = ctx.text("c", n, alphabet=" \na()")
  elif kind == "tabs":
    code = ""
    for i in range(n):
      code = (code + TABS[ctx.choice("ind%d" % i, range(len(TABS)))] +
              BODIES[bodies[ctx.choice("body%d" % i, range(len(bodies)))]] +
              "\n")
      if i == 0:
        ctx.cover("tab")
  elif bodies is None:
    code = ""
    for i, (ind, body) in enumerate(LONG[n]):
      if ind is None:
        ind = ctx.choice("ind%d" % i, range(maxind + 1))
      code = code + " " * ind + BODIES[body] + "\n"
  else:
    code = ""
    for i in range(n):
      ind = ctx.choice("ind%d" % i, range(maxind + 1))
      body = BODIES[bodies[ctx.choice("body%d" % i, range(len(bodies)))]]
      code = code + " " * ind + body + "\n"
  root, tokens, types, raw, (n_pre, n_post) = (
      stack_parser.PseudoParser.parse_and_maybe_preprocess(
          "python", code, spaces_per_indent=spi))
  ctx.check("".join(raw) == code, "raw tokens joined differ from the input")
  # Indent / dedent tokens nest properly and are balanced.
  level = 0
  at = {}
  off = 0
  for i in range(len(tokens)):
    if types[i] == TT.PYTHON_INDENT:
      level += 1
    elif types[i] == TT.PYTHON_DEDENT:
      level -= 1
      ctx.check(level >= 0, "dedent without indent")
      # placed directly before the newline that ends the block's last line
      j = i
      while j < len(tokens) and types[j] == TT.PYTHON_DEDENT:
        j += 1
      ctx.check(j < len(tokens) and tokens[j] == "\n",
                "dedent is not directly before a newline")
    elif raw[i] != "":
      at[off] = (level, i)
      off += len(raw[i])
  ctx.check(level == 0, "indents and dedents are not balanced")
  depth_of = {}
  blocks = []

  def walk(node, d):
    is_ind = node.annotation == "paired" and (
        types[node.lo] == TT.PYTHON_INDENT)
    if is_ind:
      blocks.append((node.lo, node.hi))
      ctx.check(types[node.hi - 1] == TT.PYTHON_DEDENT,
                "indented block not closed by a dedent")
      if node.lo > 0 and types[node.lo - 1] == TT.NEWLINE:
        # A block belongs to the line that precedes it.
        g = node.parent
        h = g.parent
        ctx.cover("header")
        ctx.check(g.annotation == "split" and h is not None and
                  h.annotation == "split" and len(h.children) == 2 and
                  h.children[1] is g and h.children[0].hi == g.lo and
                  h.children[0].annotation == "split",
                  "indented block is not grouped under its header line")
    if not node.children:
      for i in range(node.lo, node.hi):
        depth_of[i] = d
    for c in node.children:
      ctx.check(c.parent is node, "wrong parent link")
      walk(c, d + 1 if is_ind and c.annotation == "middle" else d)

  walk(root, 0)
  want = expected(code, spi)
  if want is None or n_pre or n_post:
    ctx.check(want is None, "correction of well-formed code")
    return
  for lo, hi in blocks:
    # White space alone never makes a block.
    ctx.cover("block")
    ctx.check("".join(raw[lo:hi]).strip() != "", "block without any code")
  prev = 0
  for off, lev in want:
    ctx.check(off in at, "logical line does not start a token")
    got, i = at[off]
    ctx.check(got == lev, "block depth differs from the indentation")
    ctx.check(depth_of[i] == lev, "tree depth differs from the indentation")
    if got - prev >= 2:
      ctx.cover("indent2")
    if prev - got >= 2:
      ctx.cover("dedent2")
    prev = got
  if kind == "lines" and "\n\n" in code:
    ctx.cover("blank")
  if kind == "lines" and "(\n" in code:
    ctx.cover("bracketed_newline")
