"""P31: the SVG picture contains what was drawn, readable and in view."""
from IPython import display
from props import p30_drawings as p30
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.rendering import render_in_notebook
from r_u_sure.rendering import rendering
from r_u_sure.rendering import svg_renderer

ID = "P31"
KINDS = ["box", "point", "container", "line", "dot"]
TEXT = "a<&\"\n"
LONG = ["first line\n  second <b>\n\nfourth & 'last'", "a\tb \u00e9\u2603 %s {0}",
        "x" * 60 + "\n" + "y" * 3, "\n\n"]
BOUNDS = {
    "large cases": "drawings of 10 items; labels and hover texts of up to 64 "
                   "characters and 4 lines with one arbitrary character; "
                   "lines of 3..13 points",
    "drawings": "1 or 2 items (thorough: 3) of 5 kinds, optionally grouped",
    "geometry": "arbitrary real coordinates, sizes, padding",
    "texts": "2 (thorough: 3) arbitrary characters of a < & \" newline; hover "
             "text of one such character, or none",
    "directions": "all 9",
    "notebook": "a diagram of 3 states and 3 edges, finite or infinite",
}
ASSUMPTIONS = ["style tags are plain words", "coordinates are exact reals",
               "html.escape behaves as documented",
               "how a browser lays out text is out of scope"]
COVER = ["two_lines", "escaped", "title", "no_title", "empty", "group", "up",
         "down", "side", "around", "notebook"]
D = rendering.PointDirection


def cases(tier):
  q = tier == "quick"
  out = [("empty", {"items": []})]
  for a in KINDS:
    out.append(("text_" + a, {"items": [a], "n": 2 if q else 3}))
    for b in KINDS:
      out.append(("%s_%s" % (a, b), {"items": [a, b], "n": 0}))
      if not q:
        for c in KINDS:
          out.append(("%s_%s_%s" % (a, b, c), {"items": [a, b, c], "n": 0}))
    if a not in ("container",):
      for j in range(len(LONG)):
        out.append(("long_%s_%d" % (a, j), {"items": [a], "n": 1, "long": j}))
  out.append(("many", {"items": KINDS * 2, "n": 0}))
  out.append(("many_back", {"items": KINDS[::-1] + ["point", "box"] * 2,
                            "n": 0}))
  out.append(("notebook", {"items": [], "mode": "notebook"}))
  return out


# ------------------------------------------------------------------- reading --
VOID = ("path", "rect", "circle")
ESCAPES = [("&lt;", "<"), ("&gt;", ">"), ("&amp;", "&"), ("&quot;", '"'),
           ("&#x27;", "'"), ("&#39;", "'")]


class Element:

  def __init__(self, tag, attrs):
    self.tag = tag
    self.attrs = attrs
    self.children = []
    self.text = ""


def attributes(text):
  out = {}
  pos = 0
  while pos < len(text):
    if text[pos] in " \n\t":
      pos += 1
      continue
    eq = text.find("=", pos)
    name = text[pos:eq]
    pos = eq + 1
    if pos < len(text) and text[pos] == '"':
      end = text.find('"', pos + 1)
      out[name] = text[pos + 1:end]
      pos = end + 1
    else:
      end = pos
      while end < len(text) and text[end] not in " \n\t":
        end += 1
      out[name] = text[pos:end]
      pos = end
  return out


def parse(ctx, page):
  """Elements of the page; fails on anything not properly nested."""
  root = Element("", {})
  stack = [root]
  pos = 0
  while pos < len(page):
    c = page[pos]
    if c == "<":
      end = page.find(">", pos)
      ctx.check(end >= 0, "an unfinished tag")
      inner = page[pos + 1:end]
      inner = inner if isinstance(inner, str) else inner.concrete()
      pos = end + 1
      if inner[:1] == "/":
        ctx.check(len(stack) > 1 and stack[-1].tag == inner[1:].strip(),
                  "tags are not properly nested")
        stack.pop()
        continue
      closed = inner.endswith("/")
      inner = inner[:-1] if closed else inner
      name = inner.split()[0]
      e = Element(name, attributes(inner[len(name):]))
      stack[-1].children.append(e)
      if not closed:
        stack.append(e)
    elif c == "&":
      for a, b in ESCAPES:
        if page[pos:pos + len(a)] == a:
          stack[-1].text = stack[-1].text + b
          pos += len(a)
          break
      else:
        ctx.fail("an unescaped ampersand")
    else:
      stack[-1].text = stack[-1].text + c
      pos += 1
  ctx.check(len(stack) == 1, "an element is not closed")
  return root


def walk(e, trail=()):
  """(element, its ancestors), in document order."""
  out = []
  for k in e.children:
    out.append((k, trail))
    out += walk(k, trail + (k,))
  return out


# ------------------------------------------------------------------- drawing --
def run(ctx, items, n=0, mode=None, long=None):
  if mode == "notebook":
    return notebook(ctx)
  hover = ctx.choice("hover", [True, False]) if n else True
  r = svg_renderer.SVGRenderer(with_hover_text=hover)
  wanted = []
  grouped = bool(items) and n == 0 and ctx.choice("group", [False, True])
  if grouped:
    ctx.cover("group")
    with r.group(hover_text="g", style_tags=("mine", "yours")):
      for i, k in enumerate(items):
        wanted.append(draw(ctx, r, k, i, n, long))
  else:
    for i, k in enumerate(items):
      wanted.append(draw(ctx, r, k, i, n, long))
  pad = ctx.real("pad", 0, 100)
  page = r.to_html(padding=pad)
  cut = page.find("<style")
  after = page.find("</style>")
  ctx.check(0 <= cut < after, "no styles")
  root = parse(ctx, page[:cut] + page[after + 8:])
  svgs = [e for e, _ in walk(root) if e.tag == "svg"]
  ctx.check(len(svgs) == 1, "one picture")
  drawn = [(e, t) for e, t in walk(svgs[0])
           if not any(a.tag in ("marker", "defs", "filter") for a in t)]
  view(ctx, svgs[0], wanted, pad)
  left = [(e, t) for e, t in drawn
          if e.tag in ("rect", "text", "path", "circle")]
  for w in wanted:
    left = match(ctx, w, left, hover)
  ctx.check(not left, "something else is drawn")
  marked = [e for e, _ in drawn if "mine" in e.attrs.get("class", "").split()
            and "yours" in e.attrs.get("class", "").split()]
  ctx.check(len(marked) == (1 if grouped else 0), "groups")
  if grouped:
    for e, t in drawn:
      ctx.check(e.tag not in ("rect", "text", "path", "circle") or
                marked[0] in t, "an item outside its group")
    titles = [e.text.strip() for e in marked[0].children if e.tag == "title"]
    ctx.check(titles == ["g"], "title of a group")


def pt(ctx, name):
  return rendering.Point(ctx.real(name + "x", -50, 50),
                         ctx.real(name + "y", -50, 50))


def draw(ctx, r, k, i, n, long=None):
  """Draws one item; (kind, corner points, texts, title, details)."""
  text = "t%d" % i
  title = None
  if n:
    text = ctx.text("text", n, TEXT)
    if ctx.choice("titled", [False, True]):
      title = ctx.text("title", 1, TEXT[:4])
    if long is not None:
      text = LONG[long][:7] + text + LONG[long][7:]
      if title is not None:
        title = title + LONG[(long + 1) % len(LONG)].strip("\n")
  tag = "tag%d" % i
  size = ctx.real("size%d" % i, 1, 50)
  if k == "box" or k == "container":
    b = rendering.BoundingBox(
        ctx.real("l%d" % i, -50, 50), ctx.real("t%d" % i, -50, 50),
        ctx.real("w%d" % i, 0, 50), ctx.real("h%d" % i, 0, 50))
    pts = [(b.left, b.top), (b.left + b.width, b.top + b.height)]
    if k == "box":
      r.label_in_box(b, text, title, size, (tag, "more"))
      return (k, pts, text, title, tag, size, None)
    r.container(b, (tag, "more"))
    return (k, pts, None, None, tag, None, None)
  if k == "point":
    d = ctx.choice("direction%d" % i, list(D)) if n else D.AROUND
    f = ctx.real("fraction", 0, 4) if n else 0.5
    p = pt(ctx, "p%d" % i)
    r.label_at_point(p, text, size, d, title, f, (tag, "more"))
    return (k, [(p.x, p.y)], text, title, tag, size, (d, f))
  if k == "line":
    ps = [pt(ctx, "p%d%d" % (i, j)) for j in range(3 if n else 2)]
    if long is not None:
      far = [rendering.Point(9.0 * j * (1 - j % 3), 11.0 * j * (1 - 2 * (j % 2)))
             for j in range(2 + 3 * long)]
      ps = ps[:1] + far + ps[1:2]
    r.line(ps, title, (tag, "more"))
    return (k, [(p.x, p.y) for p in ps], None, title, tag, None, None)
  p = pt(ctx, "p%d" % i)
  r.dot(p, title, (tag, "more"))
  return (k, [(p.x, p.y)], None, title, tag, None, None)


def view(ctx, svg, wanted, pad):
  """The view box is what was drawn and the padding around it."""
  v = [ctx.number(x) for x in svg.attrs["viewBox"].split()]
  ctx.check(len(v) == 4, "view box")
  pts = [p for w in wanted for p in w[1]]
  if not pts:
    ctx.cover("empty")
    ctx.check(ctx.all([v[2] > 0, v[3] > 0]), "an empty picture has no size")
    return
  xs = [p[0] for p in pts]
  ys = [p[1] for p in pts]
  ctx.check_eq(v[0], ctx.min(xs) - pad, "left of the view")
  ctx.check_eq(v[1], ctx.min(ys) - pad, "top of the view")
  ctx.check_eq(v[0] + v[2], ctx.max(xs) + pad, "right of the view")
  ctx.check_eq(v[1] + v[3], ctx.max(ys) + pad, "bottom of the view")


def match(ctx, w, left, hover):
  """Takes the elements of one item off the front of the list."""
  kind, pts, text, title, tag, size, more = w
  shape = {"box": "rect", "container": "rect", "line": "path",
           "dot": "circle", "point": None}[kind]
  own = []
  if shape is not None:
    ctx.check(left and left[0][0].tag == shape, "order of the items")
    own.append(left[0])
    left = left[1:]
  lines = []
  if text is not None:
    want = text.split("\n")
    for _ in want:
      ctx.check(left and left[0][0].tag == "text", "a line of text is missing")
      lines.append(left[0])
      left = left[1:]
    own = own + lines
    for (e, _), x in zip(lines, want):
      ctx.check(e.text == x, "the text changed")
      if "<" in x or "&" in x:
        ctx.cover("escaped")
    if len(want) > 1:
      ctx.cover("two_lines")
  if shape is not None or text is not None:
    mine = own[0][0].attrs.get("class", "").split()
    ctx.check(tag in mine and "more" in mine, "style tags")
  # Title: on an ancestor that holds all of the item and nothing else.
  trail = own[0][1]
  near = trail[-1]
  for _, t in own:
    ctx.check(t[-1] is near, "an item is split")
  titles = [e for e in near.children if e.tag == "title"]
  if title is None or not hover:
    ctx.cover("no_title")
    ctx.check(not titles, "a title out of nowhere")
  else:
    ctx.cover("title")
    ctx.check(len(titles) == 1 and titles[0].text == title, "hover text")
  num = ctx.number
  e = own[0][0]
  if shape == "rect":
    ctx.check_eq(num(e.attrs["x"]), pts[0][0], "x of a box")
    ctx.check_eq(num(e.attrs["y"]), pts[0][1], "y of a box")
    ctx.check_eq(num(e.attrs["x"]) + num(e.attrs["width"]), pts[1][0],
                 "width of a box")
    ctx.check_eq(num(e.attrs["y"]) + num(e.attrs["height"]), pts[1][1],
                 "height of a box")
  elif shape == "circle":
    ctx.check_eq(num(e.attrs["cx"]), pts[0][0], "x of a dot")
    ctx.check_eq(num(e.attrs["cy"]), pts[0][1], "y of a dot")
  elif shape == "path":
    d = e.attrs["d"].replace(",", " ").replace("M", "M ").replace("L", "L ")
    d = d.split()
    ctx.check(len(d) == 3 * len(pts) and d[0] == "M" and
              [c for c in d[3::3] if c != "L"] == [], "a line of points")
    for i, (x, y) in enumerate(pts):
      ctx.check_eq(num(d[3 * i + 1]), x, "x of a point")
      ctx.check_eq(num(d[3 * i + 2]), y, "y of a point")
  if text is not None:
    placed(ctx, kind, pts, lines, size, more)
  return left


def placed(ctx, kind, pts, lines, size, more):
  """Where the lines of a label are."""
  num = ctx.number
  xs = [num(e.attrs["x"]) for e, _ in lines]
  ys = [num(e.attrs["y"]) for e, _ in lines]
  for e, _ in lines:
    ctx.check_eq(num(e.attrs["font-size"]), size, "size of the text")
  for a, b in zip(ys, ys[1:]):
    ctx.check_eq(b, a + size, "lines are not stacked")
  if kind == "box":
    for x in xs:
      ctx.check_eq(x, (pts[0][0] + pts[1][0]) / 2, "text beside its box")
    ctx.check_eq(ctx.sum(ys), len(ys) * (pts[0][1] + pts[1][1]) / 2,
                 "text above or below its box")
    return
  d, f = more
  px, py = pts[0]
  anchor = ("start" if d in (D.RIGHT, D.UP_RIGHT, D.DOWN_RIGHT) else
            "end" if d in (D.LEFT, D.UP_LEFT, D.DOWN_LEFT) else "middle")
  dx = {"start": f * size, "end": -f * size, "middle": 0}[anchor]
  for x, (e, _) in zip(xs, lines):
    ctx.check_eq(x, px + dx, "horizontal position of a label")
    style = e.attrs.get("style", "").replace(" ", "")
    ctx.check("text-anchor:" + anchor in style, "alignment of a label")
  if d in (D.UP, D.UP_LEFT, D.UP_RIGHT):
    ctx.cover("up")
    ctx.check_eq(ys[-1], py - f * size - 0.5 * size,
                 "a label above a point ends on it or below")
  elif d in (D.DOWN, D.DOWN_LEFT, D.DOWN_RIGHT):
    ctx.cover("down")
    ctx.check_eq(ys[0], py + f * size + 0.5 * size,
                 "a label below a point starts on it or above")
  elif d in (D.LEFT, D.RIGHT):
    ctx.cover("side")
    ctx.check_eq(ctx.sum(ys), len(ys) * py, "a label is not level")
  else:
    ctx.cover("around")
    above = [y for y in ys if y < py]
    ctx.check(len(above) * 2 - len(ys) in (0, 1), "lines around a point")
    ctx.check_eq(above[-1], py - 0.5 * size, "a label is not around a point")


def notebook(ctx):
  """The whole page for a diagram."""
  edges = []
  for i, (s, d) in enumerate([("A", "<B"), ("<B", "F"), ("A", "F")]):
    c = ctx.choice("edge%d" % i, [None, 1.0, float("inf")])
    if c is not None:
      edges.append(gsd.Edge(s, d, c, None, {"color": "red"} if i == 1 else
                            None))
  if not edges:
    ctx.stop()
  hover = ctx.choice("hover", [False, True])
  emph = ctx.choice("emphasis", [None, 0])
  notes = p30.Simple({
      "A": rendering.BoundingBox(ctx.real("ax", -9, 9), 0, 5, 5),
      "<B": rendering.BoundingBox(20, ctx.real("by", -9, 9), 5, 5),
      "F": rendering.BoundingBox(ctx.real("fx", 30, 99), 0, 5, 5)})
  n = len(display.SHOWN)
  render_in_notebook.render_dag_in_notebook(
      gsd.CompleteStateDAG("A", edges, "F"), notes, hover_for_info=hover,
      emphasized_edges=None if emph is None else edges[:1])
  pages = [s.data for s in display.SHOWN[n:] if "<svg" in (s.data or "")]
  del display.SHOWN[n:]
  ctx.check(len(pages) == 1, "one page is shown")
  ctx.cover("notebook")
  page = pages[0]
  cut, after = page.find("<style"), page.find("</style>")
  css = page[cut:after]
  for word in (".unreachable-edge", ".lowlight", "color_red",
               "rect.label_in_box"):
    ctx.check(word in css, "a style is missing")
  root = parse(ctx, page[:cut] + page[after + 8:])
  drawn = [(e, t) for e, t in walk(root)
           if not any(a.tag in ("marker", "defs", "filter") for a in t)]
  used = sorted(set([e.source for e in edges] + [e.dest for e in edges]))
  names = [e.text for e, t in drawn if e.tag == "text" and
           not any("edge-annotation" in a.attrs.get("class", "") for a in t)]
  ctx.check(sorted(names) == used, "the states shown")
  groups = [e for e, _ in drawn
            if "edge-annotation" in e.attrs.get("class", "").split()]
  ctx.check(len(groups) == len(edges), "the edges shown")
  for i, (g, e) in enumerate(zip(groups, edges)):
    inner = [k for k, _ in walk(g)]
    ctx.check([k.tag for k in inner if k.tag in ("path", "circle", "text")] ==
              ["path", "circle", "text"], "an edge is line, dot and label")
    text = [k.text for k in inner if k.tag == "text"][0]
    ctx.check(text == "%s" % e.cost, "label of an edge")
    ctx.check(("color_red" in g.attrs["class"].split()) ==
              (e.info is not None), "color of an edge")
    ctx.check(("highlight" in g.attrs["class"].split()) ==
              (emph is not None and i == 0), "emphasis of an edge")
    ctx.check(bool([k for k in inner if k.tag == "title"]) == hover,
              "hover text")
