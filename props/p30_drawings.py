"""P30: a drawing of a diagram shows every state and edge, where they belong."""
import contextlib
import math
from props import lib
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.edit_distance_utility import constraint_dags as cd
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.edit_distance_utility import part_selection_dags as psd
from r_u_sure.rendering import dag_annotator as da
from r_u_sure.rendering import rendering
from r_u_sure.rendering import simple_dag_annotator
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw

ID = "P30"
PAIRS = [("STE", "T"), ("S(T)E", "(T)"), ("(STE)D", "T"), ("TXT", "T"),
         ("()T", "()"), ("D", "D"), ("", "T"), ("T", "")]
MORE = [("STXTE", "(T)D"), ("(S(TE)S)TE", "(T(T))"), ("S(STE)TE", "TT"),
        ("(T(TX)D)", "(TD)")]
LARGE = [("TDTSTDTEXT", "TDTTT"), ("(T(STE(T))D)T", "T((T)T)T"),
         ("STESTESTE", "TTTTT")]
LARGE_C = ["(T(STE(T)X)D)TX", "STESTESTESTE", "S(S(S(T)E)E)E"]
CONSTRAINTS = ["T", "STE", "S(T)E", "(STE)T", "()", "TXT", "S(X)E", "(T)(T)"]
MORE_C = ["S(STE)TE", "(S(TE)S)TE", "STESTE", "(ST)E", "SXTXEX"]
BOUNDS = {
    "generic drawing": "5 states, up to 5 edges, each absent, finite or "
                       "infinite; arbitrary real boxes, alignments, offsets "
                       "and text sizes; arbitrary emphasised edges",
    "simple annotator": "one edge, arbitrary real boxes and scales",
    "layouts": "quick: %d pairs of trees for edit and part selection diagrams, "
               "%d trees for constraint diagrams (thorough: %d, %d), arbitrary "
               "positive sizes and gaps (the larger ones: three sets)" % (
                   len(PAIRS + LARGE), len(CONSTRAINTS + LARGE_C),
                   len(PAIRS + LARGE + MORE),
                   len(CONSTRAINTS + LARGE_C + MORE_C)),
}
ASSUMPTIONS = ["the exponential is positive and strictly increasing",
               "coordinates are exact reals"]
COVER = ["highlight", "lowlight", "unreachable", "horizontal", "vertical",
         "short", "long", "region", "texts", "straight", "bent", "color"]
STATES = ["A", "B", "C", "D", "F"]
EDGES = [("A", "B"), ("B", "C"), ("A", "C"), ("C", "F"), ("B", "D")]
TEXTS = ["a", "b'", "\n"]


class Recorder:
  """Renderer that remembers what it was asked to draw."""

  def __init__(self):
    self.boxes = []
    self.containers = []
    self.groups = []
    self.loose = 0
    self.open = None

  def label_in_box(self, bounds, text, hover_text, text_size, style_tags=()):
    self.boxes.append((bounds, text, hover_text, text_size, style_tags))

  def container(self, bounds, style_tags=()):
    self.containers.append((bounds, style_tags))

  def label_at_point(self, point, text, text_size, direction, hover_text=None,
                     padding_fraction=0.5, style_tags=()):
    self.add(("label", point, text, text_size, direction))

  def line(self, points, hover_text=None, style_tags=()):
    self.add(("line", list(points)))

  def dot(self, point, hover_text=None, style_tags=()):
    self.add(("dot", point))

  def add(self, item):
    if self.open is None:
      self.loose += 1
    else:
      self.open[2].append(item)

  @contextlib.contextmanager
  def group(self, hover_text=None, style_tags=()):
    before = self.open
    self.open = (hover_text, style_tags, [])
    self.groups.append(self.open)
    yield
    self.open = before


def cases(tier):
  q = tier == "quick"
  out = []
  for axis in ("h", "v"):
    for k in (range(4) if q else range(5)):
      out.append(("edge%d_%s" % (k, axis),
                  {"mode": "generic", "axis": axis, "k": k}))
  out.append(("tags", {"mode": "tags"}))
  for info in ("none", "color", "bad"):
    for v in (None, 0, 7):
      out.append(("simple_%s_%s" % (info, v),
                  {"mode": "simple", "info": info, "value": v}))
  for i, (p, t) in enumerate(PAIRS + LARGE if q else PAIRS + LARGE + MORE):
    out.append(("edit%d" % i, {"mode": "layout", "what": "edit", "p": p,
                               "t": t}))
    if "X" not in p:
      out.append(("select%d" % i, {"mode": "layout", "what": "select", "p": p,
                                   "t": t}))
  for i, p in enumerate(CONSTRAINTS + LARGE_C if q else
                        CONSTRAINTS + LARGE_C + MORE_C):
    out.append(("constraint%d" % i, {"mode": "layout", "what": "constraint",
                                     "p": p, "t": ""}))
  return out


def run(ctx, mode, axis=None, k=None, info=None, value=None, what=None, p=None,
        t=None):
  if mode == "generic":
    generic(ctx, axis, k)
  elif mode == "tags":
    tags(ctx)
  elif mode == "simple":
    simple(ctx, info, value)
  else:
    layout(ctx, what, p, t)


def box(ctx, name):
  return rendering.BoundingBox(
      ctx.real(name + ".l", -100, 100), ctx.real(name + ".t", -100, 100),
      ctx.real(name + ".w", 0, 100), ctx.real(name + ".h", 0, 100))


class Notes(da.StateDAGAnnotator):
  """An annotator with given answers."""

  def __init__(self, states, edges, extra=()):
    self.states = states
    self.edges = edges
    self.extra = extra
    self.setups = 0

  def annotate_state(self, state):
    return self.states[state]

  def annotate_edge(self, edge):
    return self.edges[edge.info]

  def extra_annotations(self):
    return self.extra

  def renderer_specific_setup(self, renderer):
    self.setups += 1


def same_box(ctx, a, b, msg):
  ctx.check_eq(a.left, b.left, msg + ": left")
  ctx.check_eq(a.top, b.top, msg + ": top")
  ctx.check_eq(a.left + a.width, b.left + b.width, msg + ": right")
  ctx.check_eq(a.top + a.height, b.top + b.height, msg + ": bottom")


def generic(ctx, axis, k):
  """One edge with arbitrary geometry, among two states and annotations."""
  states = {}
  for s in ("A", "F"):
    states[s] = da.StateAnnotation(box(ctx, s), "text " + s,
                                   ctx.real("size" + s, 1, 50), "hover " + s,
                                   ("tag_" + s,))
  e = gsd.Edge("A", "F", 1.0, None, "E1")
  O = da.ElbowEdgeOrientation
  note = da.ElbowEdgeAnnotation(
      primary_axis=O.HORIZONTAL if axis == "h" else O.VERTICAL,
      elbow_distance=ctx.real("elbow", 0, 1) if k != 1 else 0.25,
      start_alignment=ctx.real("start", 0, 1) if k != 2 else 0.5,
      text_alignment=ctx.real("at", 0, 1) if k == 3 else 0.5,
      end_alignment=ctx.real("end", 0, 1) if k != 2 else 0.25,
      display_text="edge text", text_size=ctx.real("size", 1, 50),
      hover_text="edge hover", style_tags=("mine",),
      elbow_distance_adjust=ctx.real("adjust", -9, 9) if k != 3 else 0.0,
      text_alignment_adjust=ctx.real("tadjust", -9, 9) if k == 1 else 0.0)
  region = da.RegionAnnotation(box(ctx, "R"), ("tag_r",))
  label = da.TextAnnotation(box(ctx, "L"), "label", ctx.real("sizeL", 1, 50),
                            "label hover", ("tag_l",))
  notes = Notes(states, {"E1": note}, [region, label])
  r = Recorder()
  da.render_dag(gsd.CompleteStateDAG("A", [e], "F"), notes, r)
  ctx.check(notes.setups == 1, "the annotator's setup hook did not run once")
  ctx.check(len(r.containers) == 1 and len(r.boxes) == 3 and
            len(r.groups) == 1 and r.loose == 0, "number of items")
  ctx.cover("region")
  same_box(ctx, r.containers[0][0], region.bounds, "region")
  ctx.check("tag_r" in r.containers[0][1], "style of a region")
  for a in (states["A"], states["F"], label):
    found = [b for b in r.boxes if b[1] == a.display_text]
    ctx.check(len(found) == 1, "a box is missing or drawn twice")
    b = found[0]
    same_box(ctx, b[0], a.bounds, "box")
    ctx.check(b[2] == a.hover_text, "hover text of a box")
    ctx.check_eq(b[3], a.text_size, "text size of a box")
    ctx.check(a.style_tags[0] in b[4], "style of a box")
  check_edge(ctx, r.groups[0], note, states["A"].bounds, states["F"].bounds)


def check_edge(ctx, group, note, src, dst):
  """The group draws the elbow the annotation describes."""
  hover, style, items = group
  ctx.check(hover == note.hover_text, "hover text of an edge")
  for s in note.style_tags:
    ctx.check(s in style, "style of an edge")
  lines = [i for i in items if i[0] == "line"]
  dots = [i for i in items if i[0] == "dot"]
  labels = [i for i in items if i[0] == "label"]
  ctx.check(len(lines) == 1 and len(dots) == 1 and len(labels) == 1,
            "an edge is one line, one dot and one label")
  pts = lines[0][1]
  ctx.check(len(pts) == 4, "an elbow has four points")
  dot = dots[0][1]
  text = labels[0][1]
  if note.primary_axis == da.ElbowEdgeOrientation.HORIZONTAL:
    ctx.cover("horizontal")
    ends = ((src.left + src.width, src.top, src.height),
            (dst.left, dst.top, dst.height))
    xy = [(q.x, q.y) for q in pts]
    dot, text = (dot.x, dot.y), (text.x, text.y)
  else:
    ctx.cover("vertical")
    ends = ((src.top + src.height, src.left, src.width),
            (dst.top, dst.left, dst.width))
    xy = [(q.y, q.x) for q in pts]
    dot, text = (dot.y, dot.x), (text.y, text.x)
  start = (ends[0][0], ends[0][1] + note.start_alignment * ends[0][2])
  end = (ends[1][0], ends[1][1] + note.end_alignment * ends[1][2])
  bend = start[0] + note.elbow_distance * (end[0] - start[0])
  bend = bend + note.elbow_distance_adjust
  for got, want, msg in ((xy[0], start, "start of an edge"),
                         (xy[1], (bend, start[1]), "first bend"),
                         (xy[2], (bend, end[1]), "second bend"),
                         (xy[3], end, "end of an edge")):
    ctx.check_eq(got[0], want[0], msg)
    ctx.check_eq(got[1], want[1], msg)
  ctx.check_eq(dot[0], bend, "the dot is not on the edge")
  ctx.check_eq(text[0], bend, "the label is not at the edge")
  ctx.check_eq(text[1], dot[1] + note.text_alignment_adjust,
               "label and dot do not go together")
  mid = start[1] + note.text_alignment * (end[1] - start[1])
  d = end[1] - start[1]
  if ctx.any([d > note.text_size, d < -note.text_size]):
    ctx.cover("long")
    ctx.check_eq(dot[1], mid, "dot along the edge")
  else:
    ctx.cover("short")
    ctx.check(ctx.any([ctx.all([dot[1] >= start[1], dot[1] <= end[1]]),
                       ctx.all([dot[1] >= end[1], dot[1] <= start[1]]),
                       abs(dot[1] - start[1]) < 1e-6,
                       abs(dot[1] - end[1]) < 1e-6, abs(dot[1] - mid) < 1e-6]),
              "dot off a short edge")
  ctx.check(labels[0][2] == note.display_text, "text of an edge")
  ctx.check_eq(labels[0][3], note.text_size, "text size of an edge")


def tags(ctx):
  """Which states and edges are marked reachable and emphasised."""
  edges = []
  for i, (s, d) in enumerate(EDGES):
    c = ctx.choice("edge%d" % i, [None, 1.0, math.inf])
    if c is not None:
      edges.append(gsd.Edge(s, d, c, None if i % 3 == 0 else
                            gsd.SharedVariableAssignment("k", i % 2),
                            "E%d" % i))
  if not edges:
    ctx.stop()
  # Emphasised edges may carry other information than the diagram's.
  mode = ctx.choice("emphasis", ["none", "empty", "some"])
  chosen = []
  if mode == "some":
    chosen = [i for i in range(len(edges)) if ctx.choice("em%d" % i,
                                                         [False, True])]
  given = [gsd.Edge(edges[i].source, edges[i].dest, edges[i].cost,
                    edges[i].required_assignment,
                    None if i % 2 else "other") for i in chosen]
  states = {}
  for i, s in enumerate(STATES):
    states[s] = da.StateAnnotation(rendering.BoundingBox(i * 10, 0, 5, 5), s,
                                   10.0, "hover " + s)
  notes = Notes(states, {e.info: da.ElbowEdgeAnnotation(
      da.ElbowEdgeOrientation.HORIZONTAL, 0.5, 0.5, 0.5, 0.5, e.info, 10.0,
      e.info) for e in edges})
  r = Recorder()
  da.render_dag(gsd.CompleteStateDAG("A", edges, "F"), notes, r,
                emphasized_edges=None if mode == "none" else given)
  finite = [(e.source, e.dest) for e in edges if e.cost < math.inf]
  back = set(["F"])
  fwd = set(["A"])
  for _ in STATES:
    for s, d in finite:
      if s in fwd:
        fwd.add(d)
      if d in back:
        back.add(s)
  ok = set([s for s in STATES if s in fwd and s in back])
  used = sorted(set([e.source for e in edges] + [e.dest for e in edges]))
  ctx.check(sorted([b[1] for b in r.boxes]) == used,
            "every state is drawn exactly once")
  for b in r.boxes:
    good = "reachable-state" in b[4]
    ctx.check(good != ("unreachable-state" in b[4]), "both or neither")
    ctx.check(good == (b[1] in ok), "reachability of a state")
    if not good:
      ctx.cover("unreachable")
  ctx.check(sorted([g[0] for g in r.groups]) == sorted([e.info for e in edges]),
            "every edge is drawn exactly once")
  for i, e in enumerate(edges):
    style = [g[1] for g in r.groups if g[0] == e.info][0]
    if i in chosen:
      ctx.cover("highlight")
    elif chosen:
      ctx.cover("lowlight")
    ctx.check(("highlight" in style) == (i in chosen), "highlighted edges")
    ctx.check(("lowlight" in style) == (bool(chosen) and i not in chosen),
              "lowlighted edges")
    ctx.check(("reachable-edge" in style) != ("unreachable-edge" in style),
              "both or neither")
    if e.source not in ok or e.dest not in ok:
      ctx.check("unreachable-edge" in style, "an edge marked reachable")
    elif e.cost < math.inf:
      ctx.check("reachable-edge" in style, "an edge marked unreachable")


class Simple(simple_dag_annotator.SimpleDAGAnnotator):
  """Simple annotator over given boxes."""

  def __init__(self, bounds):
    self.bounds = bounds

  def bounds_for_state(self, state):
    return self.bounds[state]


def simple(ctx, info, value):
  b = {"A": box(ctx, "A"), "F": box(ctx, "F")}
  a = Simple(b)
  if ctx.choice("scaled", [False, True]):
    a.vertical_scale = ctx.real("vscale", 1, 1000)
    a.horizontal_scale = ctx.real("hscale", 1, 1000)
  color = {"none": None, "color": ctx.choice("color", ["red", "cyan"]) if
           info == "color" else None, "bad": "mauve"}[info]
  e = gsd.Edge("A", "F", 1.5,
               None if value is None else
               gsd.SharedVariableAssignment("key", value),
               None if color is None else {"color": color})
  s = a.annotate_state("A")
  ctx.check(s.display_text == "A", "text of a state")
  same_box(ctx, s.bounds, b["A"], "box of a state")
  try:
    n = a.annotate_edge(e)
  except ValueError:
    ctx.check(info == "bad", "a known color was rejected")
    ctx.cover("color")
    return
  ctx.check(info != "bad", "an unknown color was accepted")
  ctx.check(color is None or ("color_" + color) in n.style_tags,
            "color of an edge")
  ctx.check("1.5" in n.display_text, "the cost is not shown")
  if value is not None:
    ctx.check("key" in n.display_text and str(value) in n.display_text,
              "the condition is not shown")
  gap = b["F"].left - (b["A"].left + b["A"].width)
  across = n.primary_axis == da.ElbowEdgeOrientation.HORIZONTAL
  ctx.check((gap >= 0) == across, "orientation of an edge")
  for v in (n.start_alignment, n.end_alignment, n.elbow_distance,
            n.text_alignment):
    ctx.check(ctx.all([v >= 0, v <= 1]), "an alignment outside 0..1")
  if across:
    off = (b["F"].top + 0.5 * b["F"].height) - (
        b["A"].top + 0.5 * b["A"].height)
  else:
    off = (b["F"].left + 0.5 * b["F"].width) - (
        b["A"].left + 0.5 * b["A"].width)
  # An edge leaves towards its destination.
  if off == 0:
    ctx.cover("straight")
    ctx.check_eq(n.start_alignment, n.end_alignment, "a straight edge")
  elif off > 0:
    ctx.cover("bent")
    ctx.check(n.start_alignment > n.end_alignment, "an edge crosses over")
  else:
    ctx.check(n.start_alignment < n.end_alignment, "an edge crosses over")


def build(shape, texts):
  pos = [0]
  used = [0]

  def go():
    out = []
    while pos[0] < len(shape) and shape[pos[0]] != ")":
      c = shape[pos[0]]
      pos[0] += 1
      if c == "(":
        out.append(sn.GroupNode(go(), "g"))
        pos[0] += 1
      elif c == "T":
        out.append(sn.TextTokenNode(texts[used[0] % len(texts)], "x"))
        used[0] += 1
      elif c == "D":
        out.append(sn.TextDecorationNode(" "))
      else:
        out.append({"S": sn.RegionStartNode, "E": sn.RegionEndNode,
                    "X": sn.EarlyExitNode}[c]())
    return out

  return go()


def layout(ctx, what, p, t):
  ps = psn.pack(build(p, TEXTS))
  ts = psn.pack(build(t, TEXTS[::-1]))
  if (p, t) in LARGE or p in LARGE_C:
    sizes = ctx.choice("sizes", [[10, 90, 40, 30, 25, 70], [3, 2, 5, 7, 1, 4],
                                 [12.5, 1.25, 99, 1000, 2, 1]])
  else:
    sizes = [ctx.real(n, 1, 1000) for n in
             ("font", "width", "height", "gap_h", "gap_v", "sep")]
  groups = None
  if what == "edit":
    dag, data = ed.make_edit_dag_builder(with_numba=False)(
        ps, ts, urw.derive_uncertainty_region_costs(0.7, 1.0, 0.5))
    notes = ed.EditDagGraphAnnotator(ps, ts, data,
                                     ed.EditDagRenderConfig(*sizes))
    groups = data.subproblem_list
  elif what == "select":
    dag = psd.make_selection_dag_builder(
        psd.PartSelectionUtilityParameters(
            token_node_utility_fn=lambda n: psd.UtilitiesAndCostsForNode(
                1.0, 1.0)), with_numba=False)(ps, ts)
    notes = psd.PartSelectionGraphAnnotator(
        ps, ts, psd.PartSelectionDagRenderConfig(*sizes))
  else:
    dag = cd.make_constraint_dag_builder(with_numba=False)(ps)
    notes = cd.ConstraintDagGraphAnnotator(
        ps, cd.ConstraintDagRenderConfig(*sizes))
  r = Recorder()
  da.render_dag(dag, notes, r)
  states = []
  for e in dag.edges:
    for s in (e.source, e.dest):
      if s not in states:
        states.append(s)
  boxes = [b for b in r.boxes if "state-annotation" in b[4]]
  texts = [b for b in r.boxes if "state-annotation" not in b[4]]
  ctx.check(len(boxes) == len(states), "every state is drawn exactly once")
  where = {}
  for s in states:
    found = [b for b in boxes if b[2] == repr(s)]
    ctx.check(len(found) == 1, "a state is not identified")
    where[s] = found[0][0]
  apart(ctx, [b[0] for b in boxes] + [b[0] for b in texts])
  # Edges.
  ctx.check(len(r.groups) == len(dag.edges), "number of edges")
  left = list(r.groups)
  for e in dag.edges:
    at = 0
    while at < len(left) and left[at][0] != repr(e):
      at += 1
    ctx.check(at < len(left), "an edge is not drawn")
    g = left.pop(at)
    check_edge(ctx, g, notes.annotate_edge(e), where[e.source], where[e.dest])
    a, b = where[e.source], where[e.dest]
    note = notes.annotate_edge(e)
    if note.primary_axis == da.ElbowEdgeOrientation.HORIZONTAL:
      ctx.check(le(a.left + a.width, b.left), "an edge goes backwards")
    else:
      ctx.check(le(a.top + a.height, b.top), "an edge goes up")
    ctx.check(ctx.all([note.start_alignment > 0, note.start_alignment < 1,
                       note.end_alignment > 0, note.end_alignment < 1]),
              "an edge misses its state")
    label = [i for i in g[2] if i[0] == "label"][0]
    ctx.check(label[2].startswith("%s" % e.cost), "the cost is not shown")
    if e.required_assignment:
      ctx.check(e.required_assignment.value.shortname() in label[2] and
                e.required_assignment.key.category.shortname() in label[2],
                "the condition is not shown")
  # Containers hold the states of their part of the problem.
  if groups is not None:
    for s in states:
      if s == dag.final_state:
        continue
      b = where[s]
      ctx.check(ctx.any([
          ctx.all([le(c.left, b.left), le(c.top, b.top),
                   le(b.left + b.width, c.left + c.width),
                   le(b.top + b.height, c.top + c.height)])
          for c, _ in r.containers]), "a state outside all containers")
  # The texts, in order, along the axes.
  ctx.cover("texts")
  strip = what == "select"
  want = leaves(build(p, TEXTS), strip)
  got = [b for b in texts if known(ctx, b[0].left >= 0)]
  check_texts(ctx, got, want, lambda b: (b.left, b.left + b.width))
  if what != "constraint":
    want = leaves(build(t, TEXTS[::-1]), strip)
    got = [b for b in texts if not known(ctx, b[0].left >= 0)]
    check_texts(ctx, got, want, lambda b: (b.top, b.top + b.height))
  else:
    ctx.check(len(got) == len(texts), "unexpected texts")


def known(ctx, cond):
  return bool(cond)


def leaves(nodes, strip):
  """Texts to show: None where any will do."""
  out = []
  for n in nodes:
    k = lib.kind(n)
    if k == "G":
      out += ([None] if strip else []) + leaves(n.children, strip) + (
          [None] if strip else [])
    elif k == "D" and strip:
      continue
    else:
      out.append(n.text_contents if k in "TD" else None)
  return out


def check_texts(ctx, got, want, span):
  ctx.check(len(got) == len(want), "one text per node")
  for b, w in zip(got, want):
    ctx.check(w is None or b[1] == repr(w)[1:-1], "text of a node")
    ctx.check("unexpected_node" not in b[4], "a node was not recognised")
  for a, b in zip(got, got[1:]):
    ctx.check_le(span(a[0])[1], span(b[0])[0], "texts are out of order")


def le(a, b):
  """At most, up to the rounding of coordinates."""
  return a <= b + 1e-6


def apart(ctx, boxes):
  conds = []
  for i, a in enumerate(boxes):
    for b in boxes[:i]:
      conds.append(ctx.any([le(a.left + a.width, b.left),
                            le(b.left + b.width, a.left),
                            le(a.top + a.height, b.top),
                            le(b.top + b.height, a.top)]))
  ctx.check(ctx.all(conds), "two boxes overlap")
