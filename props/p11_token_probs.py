"""P11: model token log-probabilities are aligned to parsed tokens exactly."""
from props import lib
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.tree_structure import token_prob_align

ID = "P11"
BOUNDS = {
    "model tokens": "0..3 (quick) / 0..4 (thorough) tokens of 0..2 arbitrary "
                    "characters (symbolic), log-probs arbitrary reals <= 0",
    "parsed nodes": "1..3 tokens / decorations of 0..2 characters, also inside "
                    "groups, texts equal to or different from the model's",
    "long sequences": "%d fixed layouts of up to 11 model tokens and 10 parsed "
                      "texts of up to 9 characters with 1..2 symbolic lengths"
                      % 6,
}
ASSUMPTIONS = ["log-probabilities are exact reals"]
COVER = ["partial", "empty_token", "empty_node", "mismatch", "leftover",
         "exhausted"]
# Lengths of the model tokens, shape and lengths of the parsed texts; "?" is
# any length 0..3.
LONG = [
    ("3041725", "T(DT)TD((T)T)", "2?51?36"),
    ("9", "TDTDTTTD", "11?11111"),
    ("111111?1111", "T(T)D", "4?5"),
    ("00000300004", "TTDT(D)T", "0102?2"),
    ("47?", "((T)(D(T)))T", "92?1"),
    ("1234", "(" * 14 + "TD" + ")" * 14 + "T", "12?"),
    ("12345", "T(T(T(T(T(T)D)T)T)T)", "1011?23121"),
]


def cases(tier):
  q = tier == "quick"
  out = []
  for nt in range(0, (3 if q else 4) + 1):
    for shape in ("T", "TT", "TDT", "(T)D", "D(TT)"):
      out.append(("align%d_%s" % (nt, shape), {"nt": nt, "shape": shape,
                                               "wrong": False}))
  for nt in (1, 2):
    for shape in ("T", "TD", "(T)T"):
      out.append(("wrong%d_%s" % (nt, shape), {"nt": nt, "shape": shape,
                                               "wrong": True}))
  for nt in (1, 2, 3):
    out.append(("span%d" % nt, {"nt": nt, "shape": "", "wrong": False}))
  for i in range(len(LONG)):
    out.append(("long%d" % i, {"nt": len(LONG[i][0]), "shape": LONG[i][1],
                               "wrong": False, "long": i}))
  out.reverse()
  return out


def pick(ctx, name, given):
  if given == "?":
    return ctx.choice(name, (1, 2, 0, 3))
  return int(given) if given else ctx.choice(name, (1, 2, 0))


def run(ctx, nt, shape, wrong, long=None):
  given = LONG[long] if long is not None else None
  toks = []
  for i in range(nt):
    k = pick(ctx, "tl%d" % i, given[0][i] if given else "")
    toks.append((ctx.text("m%d" % i, k), ctx.real("lp%d" % i, -50, 0)))
  whole = ""
  spans = []
  for t, _ in toks:
    spans.append((len(whole), len(whole) + len(t)))
    whole = whole + t
  if not shape:
    return run_spans(ctx, toks, spans, whole)
  texts = []
  pos = 0
  match = True
  for i in range(shape.count("T") + shape.count("D")):
    k = pick(ctx, "nl%d" % i, given[2][i] if given else "")
    if wrong:
      w = ctx.text("w%d" % i, k)
      match = ctx.all([match, w == whole[pos:pos + k]])
    else:
      w = whole[pos:pos + k]
      if len(w) < k:
        w = w + "z" * (k - len(w))
        match = False
    texts.append(w)
    pos += k
  if match:
    match = True
  else:
    match = False
  nodes = lib.build(shape, texts)
  st = psn.pack(nodes)
  all_used = bool(ctx.bool("all"))
  arg = list(toks)
  # Reference: which model tokens does each node touch?
  want = {}
  ref = Reader(ctx, toks, spans)
  for nid in st.preorder_traversal:
    if nid.category == psn.PackedSequenceNodeCategory.TEXT_TOKEN_NODE:
      want[nid.preorder_index] = ref.take(
          len(st.text_token_nodes[nid.index_in_category].text_contents))
    elif nid.category == psn.PackedSequenceNodeCategory.TEXT_DECORATION_NODE:
      ref.take(
          len(st.text_decoration_nodes[nid.index_in_category].text_contents))
  leftover = pos < len(whole)
  try:
    got = token_prob_align.align_token_log_probs(
        arg, st, must_consume_all_model_tokens=all_used)
  except ValueError:
    if match:
      ctx.cover("leftover")
    else:
      ctx.cover("mismatch")
    ctx.check(not match or (all_used and leftover),
              "alignment of the same text was refused")
    return
  ctx.check(match, "texts differ but were aligned")
  ctx.check(not (all_used and leftover), "unconsumed model text not reported")
  ctx.check(len(arg) == len(toks) and all(
      a is b for a, b in zip(arg, toks)), "the token list was modified")
  ctx.check(sorted(got) == sorted(want), "aligned nodes are not the tokens")
  for j in want:
    ctx.check_eq(got[j], want[j], "log-probability of a parsed token")
  pairs = list(token_prob_align.flatten_token_log_probs_from_parsed(st, got))
  ctx.check("".join([t for t, _ in pairs]) == lib.text_of(nodes),
            "flattened text differs")
  total = ctx.sum([p for _, p in pairs])
  ctx.check_eq(total, ctx.sum(want.values()), "flattened log-probs differ")


class Reader:
  """Reference: a cursor over the model tokens."""

  def __init__(self, ctx, toks, spans):
    self.ctx, self.toks, self.spans = ctx, toks, spans
    self.pos = 0
    self.next = 0

  def take(self, k):
    total = 0
    n = len(self.toks)
    if k == 0:
      self.ctx.cover("empty_node")
      if self.next < n:
        total = self.toks[self.next][1]
        a, b = self.spans[self.next]
        if a == b:
          self.next += 1
      return total
    end = self.pos + k
    i = self.next
    while i < n and self.spans[i][0] < end:
      a, b = self.spans[i]
      total = total + self.toks[i][1]
      if a == b:
        self.ctx.cover("empty_token")
      if b > end:
        self.ctx.cover("partial")
        break
      i += 1
    if i == n:
      self.ctx.cover("exhausted")
    self.next = i
    self.pos = end
    return total


def run_spans(ctx, toks, spans, whole):
  """Consecutive spans of any lengths."""
  helper = token_prob_align.SpanProbHelper.build(list(toks))
  ref = Reader(ctx, toks, spans)
  pos = 0
  for j in range(3):
    k = ctx.choice("k%d" % j, (1, 0, 2, 3))
    text, lp = helper.advance_by_length(k)
    ctx.check(text == whole[pos:pos + k], "span text")
    ctx.check_eq(lp, ref.take(k), "span log-probability")
    pos += k
