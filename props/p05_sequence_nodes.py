"""P05: parsed code becomes a node tree that mirrors the parse, losslessly."""
from props import lib
from props import programs
from r_u_sure.parsing import subtokenizer
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.parsing.pseudo_parser import utilities
from r_u_sure.wrappers import parser_tools

ID = "P05"
LANGS = ("python", "cpp", "java", "javascript")
TEMPLATES = [
    "?", "??", '"?"', "'?a'?", '"""?"""', "(?)?", "a ?b", " ?\n ?", "a?\n",
    "[? ,?]", "{?;?}", "#?\n?", "//?\n?", ")?", "(?", '("?",?)', "a:\n  ?\n?",
    "'aB?_c'", '"" ?', 'f("a?",?b)', "'\\\\??'", "/*?*/?", "a:\n    ?",
]
BOUNDS = {
    "text": "every string of 0..2 characters and every instance of %d "
            "templates with 1..2 arbitrary characters" % len(TEMPLATES),
    "programs": "realistic multi-line programs in every language, with an "
                "arbitrary character",
    "languages": list(LANGS) + ["raw_simple_tokens"],
    "flatten": "both",
}
ASSUMPTIONS = ["the pseudo-parse itself is the subject of P02-P04"]
COVER = ["string", "decoration", "bracket", "flat", "raw", "quoted"]
ROLE = {"root": "ROOT", "paired": "MATCH", "left": "MATCH_LEFT",
        "right": "MATCH_RIGHT", "middle": "MATCH_INNER",
        "split": "SPLIT_GROUP"}


def cases(tier):
  out = []
  for lang in LANGS + ("raw_simple_tokens",):
    for t in TEMPLATES + [""] + (["???"] if tier != "quick" else []):
      out.append(("%s:%s" % (lang, lib.esc(t)), {"lang": lang, "template": t}))
    for i, prog in enumerate(
        programs.PROGRAMS["simple" if lang[:3] == "raw" else lang]):
      for h in range(1 if tier == "quick" else prog.count(programs.HOLE)):
        out.append(("%s:program%d:%d" % (lang, i, h), {
            "lang": lang, "template": "", "program": i, "hole": h}))
  out.sort(key=lambda c: -c[1]["template"].count("?"))
  return out


def blank(s):
  """Whether a text is white space only (True for '')."""
  for c in s:
    if not c.isspace():
      return False
  return True


def run(ctx, lang, template, program=None, hole=None):
  if program is not None:
    code = programs.fill(ctx, programs.PROGRAMS[
        "simple" if lang[:3] == "raw" else lang][program], hole)
  else:
    code = lib.fill(ctx, template)
  nodes = parser_tools.ParserHelper(lang).parse_to_nodes(code)
  ctx.check(lib.text_of(nodes) == code, "node text differs from the code")
  if lang == "raw_simple_tokens":
    ctx.cover("raw")
    want = subtokenizer.code_to_tokens_simple_lossless(code)
    ctx.check(len(want) == len(nodes), "raw subtokens differ")
    for n, w in zip(nodes, want):
      ctx.check(lib.kind(n) == "T" and n.text_contents == w,
                "raw subtokens differ")
    return
  spi = utilities.infer_python_spaces_per_indent(code) if (
      lang == "python") else 1
  root, _, types, raw, _ = (
      stack_parser.PseudoParser.parse_and_maybe_preprocess(
          lang, code, spaces_per_indent=spi))
  ctx.check(len(nodes) == 1, "more than one top-level node")
  mirror(ctx, nodes[0], root, raw, types)
  flat = parser_tools.ParserHelper(lang, flatten=True).parse_to_nodes(code)
  want = []
  leaves(nodes, want)
  ctx.cover("flat")
  ctx.check(lib.same_nodes(ctx, flat, want),
            "flattened nodes are not the leaves of the tree in order")


def leaves(nodes, out):
  for n in nodes:
    if lib.kind(n) == "G":
      leaves(n.children, out)
    else:
      out.append(n)


def mirror(ctx, node, p, raw, types):
  k = lib.kind(node)
  text = "".join(raw[p.lo:p.hi])
  if p.annotation == "sibling":
    if p.hi == p.lo + 1 and len(text) >= 2 and text[0] in "\"'":
      # A token of several characters that opens with a quote is a literal.
      ctx.cover("quoted")
      ctx.check(k == "G" and node.match_type == "STRING_LITERAL",
                "quoted literal is not a string group")
    elif k == "G":
      ctx.check(False, "something other than a literal is a string group")
    if blank(text):
      ctx.cover("decoration")
      ctx.check(k == "D" and node.text_contents == text,
                "white space is not a decoration")
    elif len([t for t in types[p.lo:p.hi]
              if t != stack_parser.TokenType.STRING]) == 0:
      ctx.cover("string")
      ctx.check(k == "G" and node.match_type == "STRING_LITERAL",
                "string literal is not a group")
      for c in node.children:
        ctx.check(lib.kind(c) == "T" and c.match_type == "subtoken",
                  "string literal holds something other than subtokens")
      ctx.check(lib.text_of([node]) == text, "string literal text changed")
      want = subtokenizer.code_to_tokens_simple_lossless(text)
      ctx.check(len(want) == len(node.children), "string not subtokenized")
    else:
      ctx.check(k == "T" and node.match_type == "CONTENT_LEAF" and
                node.text_contents == text, "content token changed")
    return
  role = ROLE[p.annotation]
  if not p.children:
    # A bracket, or an empty interior.
    if p.annotation in ("left", "right"):
      ctx.cover("bracket")
    ctx.check(k == "T" and node.match_type == role and
              node.text_contents == text, "bracket token changed")
    return
  ctx.check(k == "G" and node.match_type == role, "group has the wrong type")
  ctx.check(len(node.children) == len(p.children),
            "group has the wrong number of children")
  for c, pc in zip(node.children, p.children):
    mirror(ctx, c, pc, raw, types)
