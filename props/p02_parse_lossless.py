"""P02: pseudo-parsing any text, in any language, loses nothing."""
from props import programs
from r_u_sure.parsing.pseudo_parser import stack_parser

ID = "P02"
LANGS = ("python", "cpp", "java", "javascript", "simple")
# Fragments that make multi-character lexical structure reachable.
FRAGMENTS = [
    "?", "??", "???",
    '"?', "'?'?", '"""?"""?', "'''?", '"\\?"', "#?\n?", "//?\n?", "/*?*/?",
    "/*?", "#if?\n", "#define?\\\n?", "1?2", "1.?", "(?)", "[?", "{?}?", "?)",
    "  ?\n  ?", "a\n ?", " ?\n?\n", "?\n ?\n", "\\\n?", "({?", "]?}", "a?b;?",
    "if a:\n  b?\n?", "//?", "\"a\\\"?", "x = [?\n  ]\n?", "  a\n?)\n",
    "'''a'?''", "#?\n  a\n",
]
BOUNDS = {
    "languages": list(LANGS),
    "text": "every string of 0..3 characters (quick) / 0..4 (thorough), and "
            "every instance of %d templates with 1..3 arbitrary characters"
            % len(FRAGMENTS),
    "programs": "%d realistic multi-line programs with 1..2 arbitrary "
                "characters in each" % sum(
                    map(len, programs.PROGRAMS.values())),
    "characters": "all of ASCII and representatives of every non-ASCII class",
    "spaces_per_indent": "1..4",
}
ASSUMPTIONS = []
COVER = ["prefix", "suffix", "indent"]


def cases(tier):
  out = []
  for lang in LANGS:
    for f in FRAGMENTS + (["????"] if tier != "quick" else []):
      if lang != "python" and tier == "quick" and f.count("?") > 2:
        continue
      spis = (1, 2, 3) if (lang == "python" and "\n " in f) else (1,)
      if tier != "quick" and lang == "python":
        spis = (1, 2, 3, 4)
      for spi in spis:
        out.append(("%s:%s:%d" % (lang, f.encode("unicode_escape").decode(),
                                  spi),
                    {"lang": lang, "template": f, "spi": spi}))
    for i, prog in enumerate(programs.PROGRAMS[lang]):
      for spi in ((2, 4) if lang == "python" else (1,)):
        # One hole at a time; both at once in the thorough tier.
        holes = prog.count(programs.HOLE)
        for h in range(holes):
          out.append(("%s:program%d:%d:%d" % (lang, i, h, spi), {
              "lang": lang, "spi": spi, "program": i, "hole": h,
              "template": ""}))
        if holes > 1 and tier != "quick":
          out.append(("%s:program%d:all:%d" % (lang, i, spi), {
              "lang": lang, "spi": spi, "program": i, "hole": None,
              "template": ""}))
    out.append(("%s:empty" % lang, {"lang": lang, "template": "", "spi": 1}))
  out.sort(key=lambda c: ("program" not in c[1],
                          -c[1]["template"].count("?"), c[1]["lang"] != "python"))
  return out


def leaves(node, out):
  if node.children:
    for c in node.children:
      leaves(c, out)
  else:
    out.append(node)


def run(ctx, lang, template, spi, program=None, hole=None):
  code = ""
  k = 0
  if program is not None:
    code = programs.fill(ctx, programs.PROGRAMS[lang][program], hole)
  for ch in template:
    if ch == "?":
      code = code + ctx.char("c%d" % k)
      k += 1
    else:
      code = code + ch
  root, tokens, types, raw, (n_pre, n_post) = (
      stack_parser.PseudoParser.parse_and_maybe_preprocess(
          lang, code, spaces_per_indent=spi))
  n = len(tokens)
  ctx.check(len(raw) == n and len(types) == n,
            "token, raw and type lists differ in length")
  ctx.check("".join(raw) == code, "raw tokens joined differ from the input")
  # The tree covers every token exactly once, in order.
  ctx.check(root.lo == 0 and root.hi == n, "root range is not the whole input")
  lv = []
  leaves(root, lv)
  pos = 0
  text = ""
  for leaf in lv:
    ctx.check(leaf.lo == pos and leaf.hi is not None and leaf.hi >= leaf.lo,
              "leaf ranges leave a gap or overlap")
    pos = leaf.hi
    text = text + "".join(raw[leaf.lo:leaf.hi])
  ctx.check(pos == n, "leaves stop before the end")
  ctx.check(text == code, "leaves in order do not spell the input")
  ctx.check(n_pre >= 0 and n_post >= 0 and n_pre + n_post <= n,
            "correction counts out of range")
  # Corrections are invisible in the raw text and only brackets / newline.
  if lang != "python":
    for i in range(n):
      if i < n_pre or i >= n - n_post:
        ctx.check(raw[i] == "", "correction token has raw text")
      else:
        ctx.check(raw[i] == tokens[i], "raw token differs from the token")
  for i in range(n):
    t = types[i]
    if t in (stack_parser.TokenType.PYTHON_INDENT,
             stack_parser.TokenType.PYTHON_DEDENT):
      ctx.cover("indent")
      ctx.check(raw[i] == "" and tokens[i] == "", "indent token has text")
    elif raw[i] == "":
      ctx.check(ctx.any([tokens[i] == b for b in
                         ("(", ")", "[", "]", "{", "}", "\n")]),
                "inserted token is neither a bracket nor a newline")
    else:
      ctx.check(raw[i] == tokens[i], "token text differs from the input text")
  if n_pre:
    ctx.cover("prefix")
  if n_post:
    ctx.cover("suffix")
