"""P03: bracket correction and matching are faithful for every token sequence."""
from props import lib
from props import programs
from r_u_sure.parsing.pseudo_parser import stack_parser

ID = "P03"
BOUNDS = {
    "tokens": "sequences of 0..5 (quick) / 0..7 (thorough) tokens over 2 "
              "bracket pairs and plain tokens, 0..4 / 0..5 over 3 pairs, 7 "
              "over one pair",
    "splitters": "each token also ranges over one splitter; unsplittable pairs: "
                 "none, first, both",
    "long sequences": "fixed sequences of 13..60 tokens (nesting to 24) with "
                      "1..3 arbitrary tokens in them",
    "languages": "cpp, java, javascript and simple: texts with 1..2 arbitrary "
                 "characters, and realistic programs with one",
}
C_TEXTS = [
    "a;?b", "f(a;?b)c;", "//?\n?a", "a/*?*/?b", '"?";a', "'?' a;", "#if?\na;b",
    "{?;[a;?]}", "f(/*a*/?,b)", "[//a\n?;b]", '"a;b"?c;', "x #define A ?\n;",
    "#?a;b", "a;b;c;?;d", "/?*a;*/b",
]
SIMPLE_TEXTS = [
    "a;?b", "(a;?b)c;d", "[a;?b]c", "{a;?b}c", "([;a]?)", "{[a;{b;?}];c}",
    "[{a;b}?;c];d", "(a;b?c", "?;)a;b", "//?;a", '"?;"b',
]
# '.' plain, ';' splitter, '?' any token of the alphabet.
LONG = [
    "((((((((((((((((((((((((?))))))))))))))))))))))))",
    "(((([[[[(((([[[[?]]]]))))]]]]?))))",
    "))))]]]]))))?((((",
    ".(.;[.;.];(..;(.;.);.);?).;..[;?;];",
    "(]([)](]?)[)(]))",
    "[.;(.;[.;(.;[.;?;.];.);.];.);.];.",
    ".........................?.(............................)",
    "?()()()()()()()()()()()()()()()?",
    ";;;;(;;;)?;;;;[?]",
    "{[(?)]}{[(.)]}?}])",
]
SIGN = "()[]{}"

ASSUMPTIONS = ["bracket pairs are distinct tokens (as in every preset)"]
COVER = ["prefix", "suffix", "mismatch", "nested", "split", "comment",
         "preprocessor", "frozen"]


def cases(tier):
  q = tier == "quick"
  out = []
  out.append(("match1_7", {"n": 7, "pairs": 1, "mode": "match"}))
  for n in range(0, (5 if q else 7) + 1):
    out.append(("match2_%d" % n, {"n": n, "pairs": 2, "mode": "match"}))
  for n in range(0, (4 if q else 5) + 1):
    out.append(("match3_%d" % n, {"n": n, "pairs": 3, "mode": "match"}))
  for n in range(0, (4 if q else 5) + 1):
    for uns in ((), (0,), (0, 1)):
      out.append(("split2_%d_%s" % (n, "".join(map(str, uns))),
                  {"n": n, "pairs": 2, "mode": "split", "uns": list(uns)}))
  for n in (5,) if q else (5, 6, 7):
    out.append(("split1_%d" % n, {"n": n, "pairs": 1, "mode": "split",
                                  "uns": []}))
  for i in range(len(LONG)):
    for uns in ((), (0,)) if q else ((), (0,), (0, 1)):
      out.append(("long%d_%s" % (i, "".join(map(str, uns))),
                  {"n": 0, "pairs": 3 if "{" in LONG[i] else 2,
                   "mode": "split", "uns": list(uns), "long": i}))
  for lang in ("cpp", "java", "javascript", "simple"):
    for t in SIMPLE_TEXTS if lang == "simple" else C_TEXTS:
      out.append(("%s:%s" % (lang, lib.esc(t)),
                  {"n": 0, "pairs": 0, "mode": "preset", "lang": lang,
                   "text": t}))
    for i in range(len(programs.PROGRAMS[lang])):
      out.append(("%s:program%d" % (lang, i),
                  {"n": i, "pairs": 0, "mode": "preset", "lang": lang}))
  out.reverse()
  return out


PLAIN, SPLIT = 100, 200


def reference(tokens, pairs):
  """Independent stack machine: (prefix, suffix, matches, plain positions)."""
  openers = [a for a, _ in pairs]
  closers = [b for _, b in pairs]
  stack = []
  prefix = []
  match = {}
  plain = []
  kinds = []
  for i in range(len(tokens)):
    t = tokens[i]
    j = None
    for k in range(len(pairs)):
      if t == openers[k]:
        j = ("o", k)
      elif t == closers[k]:
        j = ("c", k)
      if j is not None:
        break
    if j is None:
      plain.append(i)
    elif j[0] == "o":
      stack.append((j[1], i))
    elif not stack:
      prefix.insert(0, j[1])
      match[i] = -len(prefix)
    elif stack[-1][0] == j[1]:
      match[i] = stack.pop()[1]
    else:
      plain.append(i)
  suffix = [k for k, _ in reversed(stack)]
  n = len(tokens)
  for d in range(len(stack)):
    match[n + d] = stack[len(stack) - 1 - d][1]
  return prefix, suffix, match, plain


MACROS = ("#include", "#define", "#undef", "#ifdef", "#ifndef", "#line", "#if",
          "#endif", "#error")


def splits(ctx, lang, token):
  """Whether a token of this language ends a statement."""
  if len(token) == 1:
    return bool(token == ";")
  if lang == "simple":
    return False
  if token[:2] == "//" or (token[:2] == "/*" and token[-2:] == "*/"):
    ctx.cover("comment")
    return True
  if lang == "cpp" and token[:1] == "#":
    for m in MACROS:
      if token[:len(m)] == m:
        ctx.cover("preprocessor")
        return True
  return False


def preset(ctx, lang, code):
  root, tokens, _, raw, _ = (
      stack_parser.PseudoParser.parse_and_maybe_preprocess(
          lang, code, spaces_per_indent=1))
  ctx.check("".join(raw) == code, "raw tokens joined differ from the input")
  sep = [splits(ctx, lang, t) for t in tokens]
  unspl = [("(", ")"), ("[", "]")] if lang == "simple" else []
  check_split(ctx, root, tokens, None, None, unspl, sep)


def run(ctx, n, pairs, mode, uns=(), long=None, lang=None, text=None):
  if mode == "preset":
    preset(ctx, lang, lib.fill(ctx, text) if text is not None else
           programs.fill(ctx, programs.PROGRAMS[lang][n], 0))
    return
  prs = [(2 * k + 1, 2 * k + 2) for k in range(pairs)]
  alphabet = [x for p in prs for x in p] + [PLAIN]
  if mode == "split":
    alphabet.append(SPLIT)
  tokens = []
  if long is not None:
    for i, c in enumerate(LONG[long]):
      if c == "?":
        v = ctx.int("t%d" % i, 1, SPLIT)
        ctx.assume(ctx.any([v == a for a in alphabet]))
        tokens.append(v)
      else:
        tokens.append(PLAIN if c == "." else SPLIT if c == ";"
                      else SIGN.index(c) + 1)
  for i in range(n):
    v = ctx.int("t%d" % i, 1, SPLIT)
    ctx.assume(ctx.any([v == a for a in alphabet]))
    tokens.append(v)
  prefix, suffix = stack_parser.error_correcting_prefix_and_suffix(
      list(tokens), prs)
  wp, ws, match, plain = reference(tokens, prs)
  ctx.check(len(prefix) == len(wp) and len(suffix) == len(ws),
            "number of correction tokens is not minimal")
  for a, k in zip(prefix, wp):
    ctx.check(a == prs[k][0], "wrong correcting opener")
  for a, k in zip(suffix, ws):
    ctx.check(a == prs[k][1], "wrong correcting closer")
  fixed = list(prefix) + list(tokens) + list(suffix)
  off = len(prefix)
  root = stack_parser.stack_based_bracket_match(fixed, prs, error_tolerant=True)
  want_match = {}
  for close, open_ in match.items():
    want_match[open_ + off] = close + off
  want_plain = [i + off for i in plain]
  if prefix:
    ctx.cover("prefix")
  if suffix:
    ctx.cover("suffix")
  check_tree(ctx, root, fixed, want_match, want_plain)
  if mode == "split":
    unspl = [prs[k] for k in uns]
    before = shape(root)
    root2 = stack_parser.split_parse(root, fixed, [SPLIT], unspl, None)
    ctx.check(shape(root) == before, "splitting modified its input")
    check_split(ctx, root2, fixed, want_match, want_plain, unspl,
                [bool(t == SPLIT) for t in fixed])


def shape(node):
  return (node.lo, node.hi, node.annotation,
          tuple(shape(c) for c in node.children))


def check_tree(ctx, root, tokens, want_match, want_plain):
  got_match = {}
  got_plain = []
  depth = [0]

  def walk(node, d):
    depth[0] = max(depth[0], d)
    ctx.check(node.hi is not None, "unclosed range")
    if node.annotation == "sibling":
      ctx.check(not node.children and node.hi == node.lo + 1,
                "leaf does not span one token")
      got_plain.append(node.lo)
      return
    pos = node.lo
    for c in node.children:
      ctx.check(c.parent is node, "wrong parent link")
      ctx.check(c.lo == pos, "children do not subdivide the range")
      pos = c.hi
    if node.annotation == "paired":
      ctx.check(len(node.children) == 3, "pair without three children")
      a, m, b = node.children
      ctx.check(a.annotation == "left" and m.annotation == "middle" and
                b.annotation == "right", "pair children have wrong roles")
      ctx.check(a.hi == a.lo + 1 and b.hi == b.lo + 1,
                "bracket spans more than one token")
      got_match[a.lo] = b.lo
      ctx.check(b.hi == node.hi, "pair range does not end at its closer")
      walk(m, d + 1)
    else:
      if node.children:
        ctx.check(pos == node.hi, "children stop before the end of the range")
      elif node.annotation in ("root", "middle"):
        ctx.check(node.lo == node.hi, "non-empty range without children")
      for c in node.children:
        walk(c, d + 1)

  ctx.check(root.lo == 0 and root.hi == len(tokens), "root range")
  walk(root, 0)
  ctx.check(got_match == want_match, "matched bracket pairs differ")
  ctx.check(got_plain == want_plain, "plain tokens differ or are reordered")
  if depth[0] >= 4:
    ctx.cover("nested")
  if want_match and want_plain:
    ctx.cover("mismatch")


def check_split(ctx, root, tokens, want_match, want_plain, unspl, sep):
  """Splitting only groups siblings: each group ends at a splitter."""
  flat = []

  def strip(node, frozen):
    """Removes split groups, checking them; returns the original children."""
    if node.annotation == "paired":
      left, right = tokens[node.lo], tokens[node.hi - 1]
      for o, c in unspl:
        if left == o and right == c:
          frozen = True
          ctx.cover("frozen")
    kids = []
    has_split = len([c for c in node.children if c.annotation == "split"]) > 0
    if has_split:
      ctx.cover("split")
      ctx.check(not frozen, "split inside an unsplittable pair")
      ctx.check(node.annotation in ("root", "middle"),
                "split groups under a bracket pair")
      for gi, g in enumerate(node.children):
        ctx.check(g.annotation == "split" and len(g.children) > 0,
                  "mixed or empty split group")
        ctx.check(g.lo == g.children[0].lo and g.hi == g.children[-1].hi,
                  "split group range")
        for ci, c in enumerate(g.children):
          ctx.check(c.parent is g, "wrong parent link in split group")
          is_sp = c.hi == c.lo + 1 and sep[c.lo]
          last = ci == len(g.children) - 1
          ctx.check((is_sp and last) or not is_sp,
                    "splitter inside a split group")
          if last and gi < len(node.children) - 1:
            ctx.check(is_sp, "split group does not end at a splitter")
          kids.append(c)
    else:
      kids = list(node.children)
      # (A pair enclosing a lone splitter is already its own group.)
      if not frozen and node.annotation in ("root", "middle") and (
          node.hi - node.lo > 1):
        # No splitter may remain ungrouped.
        for c in kids:
          ctx.check(not (c.hi == c.lo + 1 and sep[c.lo]),
                    "splitter did not split its siblings")
    new = stack_parser.Node(lo=node.lo, hi=node.hi, annotation=node.annotation)
    new.children = [strip(c, frozen) for c in kids]
    for c in new.children:
      c.parent = new
    return new

  bare = strip(root, False)
  if want_match is not None:
    check_tree(ctx, bare, tokens, want_match, want_plain)
