"""Shared helpers of the property harnesses (rewritten with them)."""
from r_u_sure.tree_structure import sequence_nodes as sn


def fill(ctx, template, alphabet=None, hole="?", prefix="c"):
  """Template with every hole replaced by an input character."""
  code = ""
  k = 0
  for ch in template:
    if ch == hole and alphabet is not None and len(alphabet) == 1:
      code = code + alphabet
    elif ch == hole:
      code = code + ctx.char("%s%d" % (prefix, k), alphabet)
      k += 1
    else:
      code = code + ch
  return code


def esc(s):
  return s.encode("unicode_escape").decode()


def kind(node):
  if isinstance(node, sn.TextTokenNode):
    return "T"
  if isinstance(node, sn.TextDecorationNode):
    return "D"
  if isinstance(node, sn.GroupNode):
    return "G"
  if isinstance(node, sn.RegionStartNode):
    return "S"
  if isinstance(node, sn.RegionEndNode):
    return "E"
  if isinstance(node, sn.EarlyExitNode):
    return "X"
  return "?"


def text_of(nodes):
  """Independent rendering of the text in a list of nodes."""
  r = ""
  for node in nodes:
    k = kind(node)
    if k in "TD":
      r = r + node.text_contents
    elif k == "G":
      r = r + text_of(node.children)
  return r


def same_nodes(ctx, a, b):
  """Condition: two node lists are equal, including types and kinds."""
  if len(a) != len(b):
    return False
  conds = []
  for x, y in zip(a, b):
    k = kind(x)
    if k != kind(y):
      return False
    if k in "TG" and x.match_type != y.match_type:
      return False
    if k in "TD":
      conds.append(x.text_contents == y.text_contents)
    elif k == "G":
      conds.append(same_nodes(ctx, x.children, y.children))
  return ctx.all(conds)


def snapshot(nodes):
  """Deep copy as plain tuples, for detecting mutation."""
  out = []
  for n in nodes:
    k = kind(n)
    if k == "G":
      out.append((k, n.match_type, snapshot(n.children)))
    elif k == "T":
      out.append((k, n.match_type, n.text_contents))
    elif k == "D":
      out.append((k, None, n.text_contents))
    else:
      out.append((k, None, None))
  return out


def build(shape, texts):
  """Nodes for a shape string such as 'T(SDTE)X'; texts supply T and D.

  Group match types alternate by depth so that types matter.
  """
  it = [0]
  pos = [0]

  def parse(depth):
    out = []
    while pos[0] < len(shape):
      c = shape[pos[0]]
      pos[0] += 1
      if c == "(":
        out.append(sn.GroupNode(parse(depth + 1), "g%d" % (depth % 2)))
      elif c == ")":
        return out
      elif c in "TD":
        t = texts[it[0]]
        it[0] += 1
        if c == "T":
          out.append(sn.TextTokenNode(t, "tok"))
        else:
          out.append(sn.TextDecorationNode(t))
      elif c == "S":
        out.append(sn.RegionStartNode())
      elif c == "E":
        out.append(sn.RegionEndNode())
      elif c == "X":
        out.append(sn.EarlyExitNode())
    return out

  return parse(0)


def choose_shape(ctx, n, symbols, maxdepth, balanced=True):
  """A shape of n symbols picked by the solver (forks); groups are closed."""
  out = []
  depth = 0
  for i in range(n):
    opts = list(symbols)
    if depth < maxdepth:
      opts.append("(")
    if depth > 0:
      opts.append(")")
    c = ctx.choice("s%d" % i, opts)
    out.append(c)
    if c == "(":
      depth += 1
    elif c == ")":
      depth -= 1
  return "".join(out) + ")" * depth
