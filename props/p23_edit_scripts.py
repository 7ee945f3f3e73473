"""P23: reported edit scripts and breakdowns describe the solution path."""
from props import editlib, lib, regionlib
from props import p22_region_output as p22
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.edit_distance_utility import part_selection_dags as psd
from r_u_sure.edit_distance_utility import region_decisions as rd

ID = "P23"
PAIRS = [("T", "T"), ("TT", "T"), ("DT", "DT"), ("TD", "TD"), ("STE", "T"),
         ("(T)", "(T)"), ("TX", "T"), ("STE", ""), ("(T)", "T"), ("SE", "T"),
         ("T", "(T)"), ("", "TDT"), ("TXT", ""), ("TDX", "D"), ("TT", "TT"), ("S(T)E", "(T)"), ("STXE", "T"),
         ("STDE", "T"), ("T(T)", "(T)"), ("TSDE", "T"), ("DTDT", "T"),
         ("TSDTE", "D")]
MORE = [("TDT", "TDT"), ("TXT", "TT"), ("STET", "TT"), ("(TD)", "(DT)"),
        ("STDE", "TD"), ("DTD", "DTD"), ("T(T)", "T(T)"), ("XTX", "TD")]
PARTS = [("STE", "T"), ("STTE", "TT"), ("STET", "TT"), ("S(T)E", "(T)"),
         ("TSTE", "T"), ("SDTE", "DT"), ("STESTE", "T")]
LARGE = [("TDTDSTDTEDT", "TDTTDTT"), ("T(STDE)XTDT", "T(TD)TT"),
         ("STESTESTEXT", "TTTT"), ("(T(T(TD)D)D)T", "(T(T(TD)))T"),
         ("TTTTTTTTXT", "TTTTTTT"), ("TSDTDETSDTEDT", "DTDTDTT")]
LARGE_PARTS = [("STTESTTESTE", "TTTTT"), ("(ST(T)E)TSDTE", "(T)TDT")]
BOUNDS = {
    "large diagrams": "%d longer pairs (up to 13 nodes, nesting to depth 3, "
                      "multi-character texts): paths that follow a fixed rule "
                      "(always first, always last, alternating) except for "
                      "a window of branching steps, which are all explored" %
                      len(LARGE + LARGE_PARTS),
    "diagrams": "quick: %d prototype/target pairs, thorough: %d; part "
                "selection: %d pairs" % (len(PAIRS), len(PAIRS + MORE),
                                         len(PARTS)),
    "paths": "every complete path of each diagram",
    "texts": "every token an arbitrary letter, '<' or '&'; decorations white "
             "space or a mark",
    "parameters": "all utility parameters arbitrary reals",
}
ASSUMPTIONS = ["paths are complete paths of the diagram",
               "costs are exact reals; float rounding is not modelled",
               "the plain-text script is checked with fixed numbers only"]
COVER = ["kept", "deleted", "inserted", "exit", "low", "groups", "escaped",
         "text", "started"]
A = ed.EditAction
FIXED = [1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0]


def cases(tier):
  q = tier == "quick"
  out = []
  for p, t in (PAIRS if q else PAIRS + MORE):
    n = "%s_%s" % (p.replace("(", "<").replace(")", ">"),
                   t.replace("(", "<").replace(")", ">"))
    out.append(("html_" + n, {"p": p, "t": t, "mode": "html"}))
    out.append(("metrics_" + n, {"p": p, "t": t, "mode": "metrics"}))
    if len(p) + len(t) < 4 or not q:
      out.append(("text_" + n, {"p": p, "t": t, "mode": "text"}))
  for p, t in LARGE + LARGE_PARTS:
    parts_only = (p, t) in LARGE_PARTS
    for rule in (0, 1, 2):
      for w in ((0, 5, 10) if q else range(0, 24, 3)):
        for mode in ("parts",) if parts_only else ("html", "metrics", "text"):
          if q and (rule + w + len(mode)) % 2:
            continue
          out.append(("large_%s_%s_%s_%d_%d" % (
              mode, p.replace("(", "<").replace(")", ">"),
              t.replace("(", "<").replace(")", ">"), rule, w),
                      {"p": p, "t": t, "mode": mode, "rule": rule, "w": w}))
  for p, t in PARTS:
    if q and len(p) > 5:
      continue
    out.append(("parts_%s_%s" % (p.replace("(", "<").replace(")", ">"),
                                 t.replace("(", "<").replace(")", ">")),
                {"p": p, "t": t, "mode": "parts"}))
  return out


def texts_for(ctx, shape, name, deco, alphabet, fixed):
  out = []
  for c in shape:
    if c == "T" and fixed:
      out.append(ctx.choice("%s%d" % (name, len(out)), list(alphabet)))
    elif c == "T":
      out.append(ctx.char("%s%d" % (name, len(out)), alphabet))
    elif c == "D":
      out.append(deco)
  return out


WORDS = ["foo", "(", "a<b", "&amp;x", "bar", "=", "'q'", "long_name_of_it",
         "foo", "+"]


def large_texts(ctx, shape, name, skew):
  """Several characters each; equal texts on both sides, up to the skew."""
  out = []
  k = 0
  for c in shape:
    if c == "T":
      out.append(WORDS[(k + skew * (k > 2)) % len(WORDS)])
      k += 1
    elif c == "D":
      out.append(decos(k)["pt".index(name)])
  return out


def decos(k):
  """Decorations of the prototype and the target: white space or marks."""
  return (" ", "\t") if k % 2 else ("~", "^")


def walk(ctx, dag, rule=None, w=0, width=3):
  """An arbitrary complete path (large: arbitrary within a window of steps)."""
  dag = gsd.prune_to_reachable(dag)
  path = []
  at = dag.initial_state
  branches = 0
  by_source = {}
  for e in dag.edges:
    by_source.setdefault(e.source, []).append(e)
  while at != dag.final_state:
    outgoing = by_source[at]
    k = 0
    branches += len(outgoing) > 1
    if rule is not None and not w <= branches - 1 < w + width:
      k = {0: 0, 1: len(outgoing) - 1,
           2: len(path) % len(outgoing)}[rule]
    elif len(outgoing) > 1:
      k = ctx.choice("step%d" % len(path), list(range(len(outgoing))))
    path.append(outgoing[k])
    at = outgoing[k].dest
  return path


def decisions(path):
  x = {}
  for e in path:
    a = e.required_assignment
    if a is not None:
      x[a.key] = a.value
  return x


def read_prototype(flat, x):
  """Text nodes before the exit: (text, is token, in region or None)."""
  out = []
  for n in flat:
    if n.kind == "X" and x.get(n.key) == rd.DecisionValue.TRUE:
      return out, True
    if n.kind == "T":
      out.append((n.node.text_contents, True,
                  x.get(n.key) == rd.DecisionValue.TRUE))
    elif n.kind == "D":
      out.append((n.node.text_contents, False, None))
  return out, False


def script_of(path, pflat, tflat):
  """(action, char) in path order; decorations follow the edit before them."""
  out = []
  last = None
  for e in path:
    if e.info is None:
      continue
    a = e.info.edit_action
    if a in (A.KEEP, A.DELETE, A.PROTOTYPE_DECORATION):
      text = node_text(pflat, e.info.prototype_node_preorder_index)
    elif a in (A.INSERT, A.TARGET_DECORATION):
      text = node_text(tflat, e.info.target_node_preorder_index)
    else:
      continue
    if a == A.PROTOTYPE_DECORATION:
      a = A.DELETE if last == A.DELETE else A.KEEP
    elif a == A.TARGET_DECORATION:
      if last == A.KEEP:
        continue
      a = A.INSERT
    last = a
    for ch in text:
      out.append((a.name.lower(), ch))
  return out


def node_text(flat, index):
  for n in flat:
    if n.index == index:
      return n.node.text_contents
  return ""


def run(ctx, p, t, mode, rule=None, w=0):
  alphabet = "ab" if mode in ("text", "parts") else "a<&"
  if rule is not None and mode != "parts":
    pn = lib.build(p, large_texts(ctx, p, "p", 0))
    tn = lib.build(t, large_texts(ctx, t, "t", rule))
  else:
    fixed = mode == "text"
    if rule is not None:
      alphabet, fixed = ["ab"[rule == 1]], True
    pn = lib.build(p, texts_for(ctx, p, "p", decos(len(p))[0], alphabet, fixed))
    if rule is not None:
      alphabet = ["a"]
    tn = lib.build(t, texts_for(ctx, t, "t", decos(len(p))[1], alphabet, fixed))
  _, pflat = regionlib.index_nodes(pn)
  _, tflat = regionlib.index_nodes(tn)
  ps, ts = regionlib.pack_tree(pn, False), regionlib.pack_tree(tn, False)
  if mode == "parts":
    parts(ctx, ps, ts, pflat, tflat, rule, w)
    return
  if mode == "text":
    par = ed.TrustRegionUtilityParameters(**dict(zip(editlib.FIELDS, FIXED)))
  else:
    par = editlib.parameters(ctx)
  dag, _ = ed.make_edit_dag_builder(with_numba=False)(ps, ts, par)
  path = walk(ctx, dag, rule, w)
  x = decisions(path)
  proto, exited = read_prototype(pflat, x)
  target = "".join([n.node.text_contents for n in tflat if n.kind == "T"])
  if exited:
    ctx.cover("exit")
  total = 0
  for e in path:
    total = total + e.cost
  if mode == "metrics":
    m = ed.extract_edit_summary_metrics(path, ps, ts)
    cost = 0
    chars = {}
    for k in m:
      name, what = k.rsplit("_", 1)
      if what == "cost":
        cost = cost + m[k]
      elif what == "chars":
        for a in A:
          if name.startswith(a.name + "_"):
            chars[a] = chars.get(a, 0) + m[k]
            if a in (A.KEEP, A.DELETE):
              conf = name[len(a.name) + 1:]
              chars[conf] = chars.get(conf, 0) + m[k]
      else:
        ctx.check(what == "edges", "unknown metric")
    ctx.check_eq(cost, total, "the breakdown does not add up to the path cost")
    ctx.check(chars.get(A.KEEP, 0) + chars.get(A.DELETE, 0) ==
              sum([len(s[0]) for s in proto if s[1]]),
              "kept and deleted characters")
    low = sum([len(s[0]) for s in proto if s[1] and s[2]])
    ctx.check(chars.get("LOW_CONFIDENCE", 0) == low,
              "characters counted as low confidence")
    done = chars.get(A.KEEP, 0) + chars.get(A.INSERT, 0)
    ctx.check(done <= len(target) and (exited or done == len(target)),
              "kept and inserted characters")
    return
  if mode == "text":
    ctx.cover("text")
    lines = ed.extract_edit_sequence_text(path, ps, ts).split("\n")
    ctx.check(lines[-1].startswith("FINISH (total cost: ") and
              abs(float(lines[-1][20:-1]) - total) < 1e-9, "total cost")
    spans = []
    summed = 0.0
    for line in lines[:-1]:
      head, rest = line.split(": ", 1)
      content, cost = rest.rsplit(" => ", 1)
      action, conf = head.split(", ")
      summed += float(cost)
      spans.append((action.lower(), conf.lower(), eval(content)))
    ctx.check(abs(summed - total) < 1e-9, "costs of the steps")
    check_script(ctx, proto, exited, target,
                 [(a, c, ch) for a, c, s in spans for ch in s],
                 script_of(path, pflat, tflat))
    return
  page = ed.extract_edit_sequence_html(path, ps, ts, prefix="<&b")
  at = page.find('<span class="edit_sequence_root">')
  ctx.check(at >= 0, "no root")
  out = []
  starts = 0
  prefix = ""
  for ch, span in p22.read_html(ctx, page[at:]):
    names = span.split('"')[1].split(" ")
    if "prefix" in names:
      prefix = prefix + ch
      continue
    if "start_editing" in names:
      starts += 1
      ctx.cover("started")
      continue
    action = [a for a in ("keep", "delete", "insert") if a in names]
    ctx.check(len(action) == 1, "one action per span")
    conf = [c for c in ("high_confidence", "low_confidence") if c in names]
    out.append((action[0], conf[0] if conf else None, ch))
  ctx.check(prefix == "<&b", "prefix")
  # adjacent starts with nothing between them share one marker
  n = len([e for e in path if e.info is not None and
           e.info.edit_action == A.START_EDITING])
  ctx.check(starts <= n and (starts > 0) == (n > 0),
            "markers where editing starts")
  check_script(ctx, proto, exited, target, out, script_of(path, pflat, tflat))


def check_script(ctx, proto, exited, target, out, script):
  """The script's characters (action, confidence, char) fit both texts."""
  ctx.check(len(out) == len(script), "the script is not the path's edits")
  for (a, _, ch), (b, w) in zip(out, script):
    ctx.check(a == b and ch == w, "the script is not the path's edits")
  for a, c, _ in out:
    if a == "insert":
      ctx.check(c is None or c == "not_applicable",
                "inserted text is shown with a confidence")
  old = [(c, ch) for a, c, ch in out if a in ("keep", "delete")]
  for a, cov in (("keep", "kept"), ("delete", "deleted"),
                 ("insert", "inserted")):
    if [1 for o in out if o[0] == a]:
      ctx.cover(cov)
  want = []
  for s, token, low in proto:
    for ch in s:
      want.append((ch, token, low))
  ctx.check(len(old) == len(want), "kept and deleted text is not the suggestion")
  for (conf, ch), (w, token, low) in zip(old, want):
    ctx.check(ch == w, "kept and deleted text is not the suggestion")
    if token:
      if low:
        ctx.cover("low")
      ctx.check(conf == ("low_confidence" if low else "high_confidence"),
                "confidence of a token")
  new = "".join([ch for a, _, ch in out
                 if a in ("keep", "insert") and not any(
                     [bool(ch == d) for d in "~^ \t"])])
  ctx.check(len(new) <= len(target) and (exited or len(new) == len(target)),
            "kept and inserted text is not the target")
  ctx.check(new == target[:len(new)],
            "kept and inserted text is not the target")


def parts(ctx, ps, ts, pflat, tflat, rule=None, w=0):
  words = "ab"
  match = {w: ctx.real("match_" + w, -10, 10) for w in words}
  delete = {w: ctx.real("delete_" + w, -10, 10) for w in words}

  def utility(node):
    for w in words:
      if node.text_contents == w:
        return psd.UtilitiesAndCostsForNode(match[w], delete[w])
    return None

  dag = psd.make_selection_dag_builder(
      psd.PartSelectionUtilityParameters(token_node_utility_fn=utility))(ps, ts)
  path = walk(ctx, dag, rule, w)
  x = decisions(path)
  got = list(psd.extract_match_groups(path, ps, ts))
  ctx.cover("groups")
  total = 0
  for e in path:
    total = total + e.cost
  cost = 0
  shown = []
  C = psd.DagStateCategory
  for g in got:
    cost = cost + g.cost
    if g.category != C.SKIP_IN_TARGET:
      for s in g.content_tokens:
        shown.append((s, g.category))
  ctx.check_eq(cost, total, "group costs do not add up to the path cost")
  want = [n for n in pflat if n.kind == "T"]
  ctx.check(len(shown) == len(want), "groups lose prototype tokens")
  targets = [n.node.text_contents for n in tflat if n.kind == "T"]
  at = 0
  for (s, cat), n in zip(shown, want):
    ctx.check(s == n.node.text_contents, "groups reorder prototype tokens")
    inside = x[n.key] == rd.DecisionValue.TRUE
    ctx.check((cat in (C.SELECT_MATCHED, C.SELECT_UNMATCHED)) == inside,
              "selected tokens")
    if cat == C.SELECT_MATCHED:
      found = False
      while at < len(targets):
        at += 1
        if targets[at - 1] == s:
          found = True
          break
      ctx.check(found, "a matched token is not in the target")
