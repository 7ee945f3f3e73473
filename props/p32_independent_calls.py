"""P32: a call's result depends on its arguments only, and leaves them alone."""
from props import editlib, lib, programs, regionlib
from props import p22_region_output as p22
from r_u_sure.decision_diagrams import consistent_path_dual_solver as ds
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.parsing import sequence_from_pseudo_parse as sfp
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import token_prob_align
from r_u_sure.tree_structure import transforms
from r_u_sure.wrappers import call_sequence_wrapper as csw
from r_u_sure.wrappers import demo_runner
from r_u_sure.wrappers import edit_distance_wrapper_base as base
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import prefix_truncation_wrapper as ptw
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw

ID = "P32"
PARSE = [("raw_simple_tokens", "?a?", "a?"), ("python", "f(?)\n", "?\n"),
         ("python", "if a:\n ?", "if ?:\n  b\n"), ("python", "'?'", "(?]"),
         ("java", "f(?);", "{?"), ("javascript", "/*?*/", "?;"),
         ("cpp", "#if ?\n", "//?\n"), ("python", "\t?\n", "\t\t?\n")]
MORE_P = [("python", "?(?", "?)"), ("java", "{?;?", "?}"),
          ("raw_simple_tokens", "???", "??"), ("python", "#?\n ?", "?")]
TREES = [("TT", "T"), ("(T)T", "(TT)"), ("T(DT)", "DT"), ("", "T")]
MORE_T = [("(T)T", "T(T)"), ("(T(T))", "(T)"), ("TDT", "TDTT")]
SYSTEMS = [("STE", ["T", "TT"], "TXT", ["T"]), ("TX", ["T"], "(STE)", ["(T)"]),
           ("TT", ["TT", "T"], "T", [""]), ("(STE)", ["T"], "()STE", ["T"]),
           ("(T)", ["T"], "T()", ["T"])]
MORE_S = [("S(T)E", ["(T)", "T"], "STE", ["T"])]
COMBINE = [("raw_simple_tokens", "a", ["?", "b?"], ["b", "?"]),
           ("python", "a = ", ["f(?)\n", "b\n"], ["?\n"])]
LARGE = [("T(DT(TT)D)TD(T)TDT", "(T(DT)T)"), ("TTTTTTTTTTTT", "D(TT)(TT)")]
LARGE_S = [("STETXSTE", ["TTTT", "TT", "", "TTT"], "T(STXE)T", ["T(T)", "TT"]),
           ("TTTTTT", ["TTTTT", "TT"], "(ST(T)E)", ["(T(T))", "T", "()"])]
REPORTS = [("STE", ["T", "TT"], "TXT", ["T"]),
           ("TSTE", ["TT"], "S(T)E", ["(T)", "T", ""])]
BOUNDS = {
    "large cases": "realistic programs with one arbitrary character, trees "
                   "of up to 12 tokens, systems of up to 4 targets",
    "reports": "%d pairs of systems, every well-formed choice for the first" %
               len(REPORTS),
    "history": "calls A, B, A, A, A of one entry point on the same objects, the "
               "results of B and of the third A spoiled in between, compared "
               "with A and B on new objects",
    "parsing": "%d pairs of templates in 5 languages (thorough %d), every '?' "
               "any character of a small alphabet" % (
                   len(PARSE), len(PARSE + MORE_P)),
    "trees": "%d pairs of trees (thorough %d), symbolic texts, every "
             "prediction location" % (len(TREES), len(TREES + MORE_T)),
    "systems": "%d pairs (thorough %d) with arbitrary real parameters; the "
               "first system is also solved and constrained in between" % (
                   len(SYSTEMS), len(SYSTEMS + MORE_S)),
}
ASSUMPTIONS = ["one thread", "the clock does not run out (timeouts are P17)",
               "numba's compiled code behaves as its Python source"]
COVER = ["parse", "wrap", "calls", "system", "combine", "transform", "align",
         "same_text", "report", "baselines"]


def cases(tier):
  q = tier == "quick"
  out = []
  for i, (lang, a, b) in enumerate(PARSE if q else PARSE + MORE_P):
    out.append(("parse%d_%s" % (i, lang),
                {"mode": "parse", "lang": lang, "a": a, "b": b}))
  for lang in programs.PROGRAMS:
    name = "raw_simple_tokens" if lang == "simple" else lang
    for i, prog in enumerate(programs.PROGRAMS[lang]):
      if q and i > 2:
        continue
      out.append(("large_parse_%s%d" % (lang, i),
                  {"mode": "large_parse", "lang": name, "prog": lang,
                   "i": i}))
  for i, (a, ta, b, tb) in enumerate(REPORTS):
    out.append(("report%d" % i, {"mode": "report", "a": (a, ta),
                                 "b": (b, tb)}))
  for a, b in (("STE", "STET"), ("S(STE)E", "STESTE")):
    out.append(("base_regions_%s" % lib.esc(a),
                {"mode": "baselines", "which": "regions", "a": a, "b": b}))
  for a, b in (("XTXTX", "TX"), ("X(TX)TX", "TXDTX")):
    out.append(("base_prefix_%s" % lib.esc(a),
                {"mode": "baselines", "which": "prefix", "a": a, "b": b}))
  for i, (a, ta, b, tb) in enumerate(LARGE_S):
    out.append(("large_system%d" % i,
                {"mode": "system", "a": (a, ta), "b": (b, tb),
                 "large": True}))
  for a, b in (TREES + LARGE if q else TREES + MORE_T + LARGE):
    n = (a + "_" + b).replace("(", "<").replace(")", ">")
    for w in ("regions", "prefix", "both"):
      out.append(("wrap_%s_%s" % (w, n),
                  {"mode": "wrap", "which": w, "a": a, "b": b}))
    out.append(("transform_" + n, {"mode": "transform", "a": a, "b": b}))
    out.append(("align_" + n, {"mode": "align", "a": a, "b": b}))
  for a, b in (("f(?)\n?()", "g(?)"), ("?(1)", "?.h(2)\n")):
    out.append(("calls_%s" % lib.esc(a), {"mode": "calls", "a": a, "b": b}))
  for i, (a, ta, b, tb) in enumerate(SYSTEMS if q else SYSTEMS + MORE_S):
    out.append(("system%d" % i, {"mode": "system", "a": (a, ta),
                                 "b": (b, tb)}))
  for i, (lang, c, a, b) in enumerate(COMBINE):
    for w in ("regions", "prefix", "both", "calls"):
      if w == "calls" and lang != "python":
        continue
      out.append(("combine%d_%s" % (i, w),
                  {"mode": "combine", "which": w, "lang": lang, "context": c,
                   "a": a, "b": b}))
  return out


def run(ctx, mode, **kw):
  ctx.set_clock(lambda: 0.0)
  {"parse": parse, "large_parse": large_parse, "report": report,
   "baselines": baselines, "wrap": wrap, "transform": transform, "align": align,
   "calls": calls, "system": system, "combine": combine}[mode](ctx, **kw)
  ctx.set_clock(None)


def thrice(ctx, call, fresh, a, b, view, empty, what):
  """call(a), call(b), call(a) and fresh(a) with the same view of the result."""
  first = view(call(a))
  other = call(b)
  seen = view(other)
  ctx.check(view(call(a)) == first, what + " depends on an earlier call")
  ctx.check(view(other) == seen, what + ": a later call changed a result")
  empty(other)
  last = call(a)
  ctx.check(view(last) == first, what + " depends on an earlier call")
  empty(last)
  spoiled = " depends on what was done with an earlier result"
  ctx.check(view(call(a)) == first, what + spoiled)
  ctx.check(view(fresh()(a)) == first, what + spoiled)
  ctx.check(view(fresh()(b)) == seen, what + " depends on an earlier call")


def clear(nodes):
  for n in nodes:
    if lib.kind(n) == "G":
      clear(n.children)
  if isinstance(nodes, list):
    nodes.clear()


def parse(ctx, lang, a, b):
  ctx.cover("parse")
  alphabet = "ab( " if lang != "raw_simple_tokens" else "aB_ "
  ta = lib.fill(ctx, a, alphabet, prefix="a")
  tb = lib.fill(ctx, b, alphabet, prefix="b")
  helper = parser_tools.ParserHelper(lang)
  if lang == "raw_simple_tokens":
    thrice(ctx, sfp.subtokenize_token, lambda: sfp.subtokenize_token, ta, tb,
           lib.snapshot, clear, "subtokenizing")
  thrice(ctx, helper.parse_to_nodes,
         lambda: parser_tools.ParserHelper(lang).parse_to_nodes, ta, tb,
         lib.snapshot, clear, "parsing")


def large_parse(ctx, lang, prog, i):
  ctx.cover("parse")
  progs = programs.PROGRAMS[prog]
  ta = programs.fill(ctx, progs[i], 0)
  tb = programs.fill(ctx, progs[(i + 1) % len(progs)], -1)
  if i % 2:
    tb = tb[:len(tb) // 2]
  helper = parser_tools.ParserHelper(lang)
  call = lambda x: helper.parse_to_nodes(x)
  first = lib.snapshot(call(ta))
  clear(call(tb))
  last = call(ta)
  ctx.check(lib.snapshot(last) == first, "parsing depends on an earlier call")
  clear(last)
  ctx.check(lib.snapshot(parser_tools.ParserHelper(lang).parse_to_nodes(ta)) ==
            first, "parsing depends on what was done with an earlier result")


def baselines(ctx, which, a, b):
  """Baselines of one suggestion do not depend on those of another."""
  ctx.cover("baselines")
  w = make(which)

  def prepare(shape):
    texts = ["word"[:1 + i % 4] if c == "T" else "\n"
             for i, c in enumerate([c for c in shape if c in "TD"])]
    plain = [c for c in shape if c not in "SEX"]
    model = [(t, -0.125 * (1 + i)) for i, t in enumerate(texts)]
    return (psn.pack(lib.build(shape, texts)),
            psn.pack(lib.build("".join(plain), texts)), model)

  pa, pb = prepare(a), prepare(b)
  k = ctx.choice("low", list(range(len(pa[2]) + 1)))
  if k < len(pa[2]):
    pa[2][k] = (pa[2][k][0], -3.0)
  copy = list(pa[2])
  call_with = lambda wr: lambda x: wr.build_baseline_assignments(
      x[0], x[1], {}, x[2])

  def view(r):
    return {n: {key: int(r[n][key]) for key in r[n]} for n in r}

  def empty(r):
    for n in r:
      r[n].clear()
    r.clear()

  thrice(ctx, call_with(w), lambda: call_with(make(which)), pa, pb, view,
         empty, "a baseline")
  ctx.check(pa[2] == copy, "the model's tokens were modified")


def report(ctx, a, b):
  """Reports on a solution do not depend on earlier ones or change anything."""
  ctx.cover("report")
  par = editlib.fixed_parameters([1.0, 0.75, 0.5, 0.625, 0.375, 0.25, 1.5,
                                  0.125])
  w = base.EditDistanceWrapperBase(par, use_numba=False)

  def prepare(x, decide):
    p, ts = x
    nodes = lib.build(p, ["ab"[:1 + i % 2] for i in range(p.count("T"))])
    tree, flat = regionlib.index_nodes(nodes)
    proto = psn.pack(nodes)
    targets = [psn.pack(lib.build(t, ["a" * (1 + (i + j) % 2)
                                      for j in range(t.count("T"))]))
               for i, t in enumerate(ts)]
    xs = p22.decide(decide, tree)[0] if decide else {
        n.key: p22.V.NOT_APPLICABLE for n in flat if n.key is not None}
    if not decide:
      for n in flat:
        if n.kind in "TSXG":
          xs[n.key] = p22.V.FALSE
    else:
      ok = regionlib.well_formed(ctx, tree, {k: int(xs[k]) for k in xs})[0]
      if not ok:
        ctx.stop()
    return (proto, targets, w.build_system(proto, {}, targets[:1]),
            w.build_system(proto, {}, targets), xs)

  xa, xb = prepare(a, ctx), prepare(b, None)

  def call_with(wr):
    def go(x):
      proto, targets, one, every, xs = x
      info = wr.solution_info(proto, targets[0], {}, one, xs,
                              sample_system=every)
      return (info, rd.render_regions_to_html(proto, xs),
              wr.render_pairwise_matching_html(
                  prototype=proto, targets=targets,
                  context_info={"context_prefix_contents": "k<"},
                  system=every, assignments=xs))
    return go

  def view(r):
    info = {k: (list(v) if isinstance(v, (list, tuple)) else v)
            for k, v in r[0].items()}
    return sorted((k, str(info[k])) for k in info), r[1], r[2]

  def empty(r):
    r[0].clear()

  before = ({k: int(xa[4][k]) for k in xa[4]}, storage_view(xa[0]),
            [storage_view(t) for t in xa[1]])
  thrice(ctx, call_with(w), lambda: call_with(
      base.EditDistanceWrapperBase(par, use_numba=False)), xa, xb, view, empty,
         "a report")
  ctx.check(({k: int(xa[4][k]) for k in xa[4]}, storage_view(xa[0]),
             [storage_view(t) for t in xa[1]]) == before,
            "a report modified what it reports on")


def tree_texts(ctx, shape, name, large=False):
  out = []
  large = large or shape.count("T") > 4
  for c in shape:
    if c == "T" and large and (len(out) % 4 or name not in ("a", "p", "pt0")):
      out.append(["foo", "a", "bc", "long_identifier"][len(out) % 4])
    elif c == "T":
      out.append(ctx.char("%s%d" % (name, len(out)), "ab"))
    elif c == "D":
      out.append(" ")
  return out


def trees(ctx, a, b):
  return (lib.build(a, tree_texts(ctx, a, "a")),
          lib.build(b, tree_texts(ctx, b, "b")))


def storage_view(st):
  return lib.snapshot(psn.unpack(st))


def clear_storage(st):
  st.root_sequence.clear()
  st.text_token_nodes.clear()
  st.preorder_traversal.clear()


def make(which):
  if which == "regions":
    return urw.UncertaintyRegionsWrapper(use_numba=False)
  if which == "calls":
    return csw.ApiCallSequenceWrapper(use_numba=False)
  return ptw.PrefixByEditDistanceWrapper(
      start_editing_cost=1.0, use_numba=False,
      also_insert_uncertainty_regions=which == "both")


def process(ctx, which, na, nb, at_a, at_b):
  w = make(which)

  def call_with(wr):
    def go(x):
      p, c = wr.process_prototype_and_context(x[0], x[1])
      return p, c, wr.process_target(x[0], x[1])
    return go

  def view(r):
    return (storage_view(r[0]), {k: r[1][k] for k in r[1]},
            storage_view(r[2]))

  def empty(r):
    clear_storage(r[0])
    clear_storage(r[2])

  before = lib.snapshot(na), lib.snapshot(nb)
  thrice(ctx, call_with(w), lambda: call_with(make(which)), (na, at_a),
         (nb, at_b), view, empty, "processing")
  ctx.check((lib.snapshot(na), lib.snapshot(nb)) == before,
            "processing modified the parsed nodes")


def wrap(ctx, which, a, b):
  ctx.cover("wrap")
  na, nb = trees(ctx, a, b)
  size = len(lib.text_of(na))
  process(ctx, which, na, nb,
          ctx.choice("at", list(range(0, size + 1, 1 + size // 9))), 0)


def calls(ctx, a, b):
  ctx.cover("calls")
  helper = parser_tools.ParserHelper("python")
  ta = lib.fill(ctx, a, "fg", prefix="a")
  na = helper.parse_to_nodes(ta)
  nb = helper.parse_to_nodes(lib.fill(ctx, b, "fg", prefix="b"))
  at = ctx.choice("at", list(range(len(ta) + 1)))
  process(ctx, "calls", na, nb, at, 1)


def transform(ctx, a, b):
  ctx.cover("transform")
  na, nb = trees(ctx, a, b)
  before = lib.snapshot(na), lib.snapshot(nb)
  size = len(lib.text_of(na))
  at = ctx.choice("at", list(range(0, size + 1, 1 + size // 9)))
  fns = [transforms.flatten_groups, transforms.flatten_singleton_groups,
         transforms.insert_early_exit, transforms.strip_decision_nodes,
         lambda n: transforms.insert_early_exit(
             n, allowed_within_group=False, allowed_at_start=False),
         transforms.insert_region_options_around_subsequences,
         transforms.insert_region_options_around_single_nodes,
         lambda n: transforms.truncate_prefix_at_offset(
             n, at if n is na else 0)]
  f = fns[ctx.choice("fn", list(range(len(fns))))]
  first = lib.snapshot(f(na))
  f(nb)
  ctx.check(lib.snapshot(f(na)) == first, "a transform depends on earlier "
            "calls")
  ctx.check((lib.snapshot(na), lib.snapshot(nb)) == before,
            "a transform modified its input")


def align(ctx, a, b):
  ctx.cover("align")
  na, nb = trees(ctx, a, b)
  sa, sb = psn.pack(na), psn.pack(nb)
  ta, tb = lib.text_of(na), lib.text_of(nb)
  ma = [(c, ctx.real("lp%d" % i, -9, 0)) for i, c in enumerate(ta)]
  mb = [(tb, -1.0)]
  call = lambda x: token_prob_align.align_token_log_probs(x[0], x[1])
  copies = list(ma), list(mb)
  thrice(ctx, call, lambda: call, (ma, sa), (mb, sb),
         lambda r: sorted(r.items()), lambda r: r.clear(), "alignment")
  ctx.check(ma == copies[0] and mb == copies[1],
            "alignment modified the model's tokens")


def system(ctx, a, b, large=False):
  ctx.cover("system")
  par = editlib.parameters(ctx)
  w = base.EditDistanceWrapperBase(par, use_numba=False)

  def make_input(x, name):
    p, ts = x
    proto = psn.pack(lib.build(p, tree_texts(ctx, p, name, large)))
    targets = [psn.pack(lib.build(t, tree_texts(ctx, t, name + "t%d" % i, large)))
               for i, t in enumerate(ts)]
    return proto, targets

  xa, xb = make_input(a, "p"), make_input(b, "q")
  if ctx.bool("weights"):
    scale = [0.5, 0.25, 2.0, 1.0]
  else:
    scale = None

  def call_with(wr):
    return lambda x: wr.build_system(
        x[0], {}, x[1],
        target_utility_scale_factors=scale and scale[:len(x[1])])

  def view(s):
    out = []
    for table, data in zip(s.data.dag_tables, s.conversion_data):
      for e in regionlib.edge_table(table.dag, data):
        out.append(tuple(e))
      out.append([[table.penalties[i, v]
                   for v in range(s.data.num_variable_values)]
                  for i in range(len(data.variable_keys))])
    return list(s.variable_keys), out

  def spoil(s):
    ds.constrain_system(s, {s.variable_keys[0]: s.variable_values[0]}, 3.0)
    s.data.extra_unary_costs[:] = 7.0

  views = [storage_view(s) for s in [xa[0], xb[0]] + xa[1] + xb[1]]
  thrice(ctx, call_with(w),
         lambda: call_with(base.EditDistanceWrapperBase(par, use_numba=False)),
         xa, xb, view, spoil, "building a system")
  ctx.check([storage_view(s) for s in [xa[0], xb[0]] + xa[1] + xb[1]] == views,
            "building a system modified the trees")


def combine(ctx, which, lang, context, a, b):
  ctx.cover("combine")
  ta = [lib.fill(ctx, s, "ab", prefix="a%d_" % i) for i, s in enumerate(a)]
  tb = [lib.fill(ctx, s, "ab", prefix="b%d_" % i) for i, s in enumerate(b)]
  runner = demo_runner.DemoRunner(make(which), language=lang)
  call_with = lambda r: lambda x: r.combine(context, x)

  def view(r):
    if r.assignment_map is None:
      return None
    return ({k: int(r.assignment_map[k]) for k in r.assignment_map},
            round(r.solution_utility, 9), round(r.utility_dual_bound, 9),
            list(runner.get_extracted_parts(r)),
            storage_view(r.packed_prototype))

  def empty(r):
    if r.assignment_map is not None:
      r.assignment_map.clear()
      clear_storage(r.packed_prototype)

  copies = list(ta), list(tb)
  if ta[0] == tb[0]:
    ctx.cover("same_text")
  thrice(ctx, call_with(runner), lambda: call_with(
      demo_runner.DemoRunner(make(which), language=lang)), ta, tb, view, empty,
         "combining")
  ctx.check(ta == copies[0] and tb == copies[1],
            "combining modified the samples")
