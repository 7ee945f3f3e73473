"""P06: truncation points lie after the cursor, on token boundaries."""
from props import lib
from props import programs
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.parsing.pseudo_parser import utilities

ID = "P06"
TT = stack_parser.TokenType
BOUNDS = {
    "code": "every string of 0..4 (quick) / 0..6 (thorough) characters over "
            "{ } ; a ( ) space for java/cpp/javascript and over newline space "
            "a ( ) for python, python programs of up to 3 (quick) / 4 lines with "
            "indentation 0..2 (quick) / 0..4, fixed templates with arbitrary characters",
    "programs": "realistic multi-line programs in every language",
    "cursor": "symbolic, every position 0..len(code)",
    "spaces_per_indent": "inferred, or symbolic 1..3",
    "docstrings": "code of up to 8 (quick) / 10 (thorough) characters over "
                  "both quotes and a",
}
ASSUMPTIONS = ["the cursor is within the code",
               "for docstring truncation the cursor follows a triple quote"]
COVER = ["block", "statement", "end", "none", "docstring"]
TEMPLATES = ["{a?b}", "a;?;", "{a;{?};}b;", "{a;?", "?}a;"]
PYLINES = ["a", "", "b:", ")"]


def cases(tier):
  q = tier == "quick"
  out = []
  for lang in ("java", "cpp", "javascript"):
    for n in range(0, (4 if q else 6) + 1):
      if q and lang != "java" and n == 4:
        continue
      out.append(("%s%d" % (lang, n), {"lang": lang, "n": n}))
  for t in TEMPLATES:
    out.append(("java:" + t, {"lang": "java", "template": t}))
  for n in range(0, (4 if q else 6) + 1):
    out.append(("python%d" % n, {"lang": "python", "n": n}))
  for n, maxind, nb in ((2, 2, 3), (3, 2, 1), (3, 1, 2)) if q else (
      (2, 4, 3), (3, 3, 3), (4, 2, 2)):
    for given in (False, True):
      out.append(("pylines%d_%d_%d_%d" % (n, maxind, nb, given),
                  {"lang": "python", "lines": n, "maxind": maxind, "nb": nb,
                   "given": given}))
  for lang in ("python", "java", "cpp", "javascript"):
    for i in range(len(programs.PROGRAMS[lang])):
      if q and lang == "python" and i not in (0, 1):
        continue
      out.append(("%s:program%d" % (lang, i), {"lang": lang, "program": i}))
  for n in range(3, (8 if q else 10) + 1):
    out.append(("docstring%d" % n, {"lang": "doc", "n": n}))
  out.reverse()
  return out


def run(ctx, lang, n=None, template=None, lines=None, maxind=0,
        nb=0, given=False, program=None):
  if lang == "doc":
    return run_doc(ctx, n)
  spi = None
  if program is not None:
    code = programs.fill(ctx, programs.PROGRAMS[lang][program], -1)
  elif template is not None:
    code = lib.fill(ctx, template)
  elif lines is not None:
    code = ""
    for i in range(lines):
      ind = ctx.choice("ind%d" % i, range(maxind + 1))
      code = code + " " * ind + ctx.choice("b%d" % i, PYLINES[:nb]) + "\n"
    if given:
      spi = ctx.int("spi", 1, 3)
  else:
    code = ctx.text("c", n, alphabet="{};a( " if lang != "python"
                    else "\n a()")
  size = len(code)
  cur = ctx.int("cursor", 0, size)
  got = utilities.infer_truncation_with_fallbacks(
      code, cur, lang, spaces_per_indent=spi)
  ctx.check(got is not None, "no truncation point")
  if cur == size:
    ctx.cover("end")
    ctx.check(got == size, "cursor at the end must not truncate")
    return
  ctx.check(ctx.all([got > cur, got <= size]),
            "truncation point outside (cursor, end]")
  # reference, from the leaves of the parse
  if lang == "python" and spi is None:
    spi = utilities.infer_python_spaces_per_indent(code)
  root, _, types, raw, _ = (
      stack_parser.PseudoParser.parse_and_maybe_preprocess(
          lang, code, spaces_per_indent=spi))
  leaves = []
  pos = [0]

  def walk(node, depth, last_of_split):
    if not node.children:
      start = pos[0]
      text = "".join(raw[node.lo:node.hi])
      pos[0] += len(text)
      leaves.append((start, pos[0], depth, text, last_of_split))
      return
    inner = depth
    if node.annotation == "paired":
      left, right = node.lo, node.hi - 1
      if lang == "python":
        if types[left] == TT.PYTHON_INDENT:
          inner = depth + 1
      elif raw[left] == "{" or raw[right] == "}":
        inner = depth + 1
    for i, c in enumerate(node.children):
      walk(c, inner if c.annotation == "middle" else depth,
           node.annotation == "split" and i == len(node.children) - 1)

  walk(root, 0, False)
  ctx.check(ctx.any([got == e for _, e, _, _, _ in leaves]),
            "truncation point splits a token")
  after = [k for k in range(len(leaves)) if leaves[k][0] > cur]
  if after:
    f = after[0]
    d = leaves[f][2]
    if d > 0:
      # the block around the cursor: just past the token after its end
      for k in range(f, len(leaves) - 1):
        if leaves[k][2] == d - 1:
          ctx.cover("block")
          ctx.check(got == leaves[k + 1][1],
                    "does not truncate at the end of the enclosing block")
          return
  for k in after:
    s, e, _, text, last = leaves[k]
    if last and text == ("\n" if lang == "python" else ";"):
      ctx.cover("statement")
      ctx.check(got == e, "does not truncate at the end of the statement")
      return
  ctx.cover("none")
  ctx.check(got == size, "no block or statement end: must keep all the code")


def run_doc(ctx, n):
  code = ctx.text("c", n, alphabet="\"'a")
  cur = ctx.choice("cursor", range(3, n + 1))
  q = code[cur - 3:cur]
  ctx.assume(ctx.any([q == '"""', q == "'''"]))
  got = utilities.infer_truncation_pydocstring(code, cur)
  want = None
  for i in range(cur, n - 2):
    if code[i:i + 3] == q:
      want = i + 3
      break
  if want is None:
    ctx.check(got is None, "truncation without a closing quote")
  else:
    ctx.cover("docstring")
    ctx.check(got is not None and got == want,
              "not directly after the next matching triple quote")
