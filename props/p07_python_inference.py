"""P07: docstring positions and indentation width are inferred correctly."""
from props import lib
from r_u_sure.parsing.pseudo_parser import utilities

ID = "P07"
# '?' is an arbitrary letter, digit or underscore.
BODIES = ["?", "def ?():", '"""?"""', "'''?'''", "", "class A:",
          'x="""?"""', "def g(\n  ?):", "define?"]
WORD = "aZ_0"
# (indentation, index into BODIES); None is arbitrary.
LONG = [
    [(0, 5), (4, 1), (8, 2), (8, 0), (4, 1), (8, 0), (8, 1), (12, None),
     (None, 0), (0, 1), (4, 2), (4, 0)],
    [(0, 0), (0, 1), (None, None), (3, 0), (3, 7), (6, 3), (6, 0), (0, 8)],
    [(0, 1), (2, 2), (2, 1), (4, 2), (4, 1), (None, 2), (0, 4), (None, 1),
     (8, 3), (0, 6)],
    [(4, 1), (8, 2), (0, 5), (4, 4), (4, 1), (0, 4), (8, 2), (8, None),
     (12, 3), (None, 0)],
    [(0, 5), (4, 1), (8, 2), (8, 0), (4, 1), (8, 0), (12, 1), (8, 0), (4, 0),
     (8, 4), (8, 0), (0, 1), (4, 0), (8, 1), (12, 2), (12, 0), (4, 0), (8, 0),
     (0, 5), (4, 1), (8, 3), (12, 0), (8, 0), (None, 1), (None, 2), (0, 0)],
]
BOUNDS = {
    "programs": "every program of 1..3 (quick) / 1..4 (thorough) lines, with "
                "indentation 0..4 (quick) / 0..6, bodies from a list of %d "
                "(function headers, docstrings of both quotes, multi-line "
                "headers, blank lines, look-alikes)" % len(BODIES),
    "long programs": "8..26 lines, with two lines of arbitrary indentation "
                     "0..8 and arbitrary body",
    "text": "every string of 0..4 / 0..5 characters over space newline a",
}
ASSUMPTIONS = ["indentation is made of spaces"]
COVER = ["docstring", "two", "not_deeper", "indent4", "indent3"]


def cases(tier):
  q = tier == "quick"
  out = []
  for n in range(0, (4 if q else 5) + 1):
    out.append(("text%d" % n, {"n": n}))
  for n in (1, 2):
    out.append(("lines%d" % n, {"lines": n, "bodies": list(range(len(BODIES))),
                                "maxind": 4 if q else 6}))
    out.append(("words%d" % n, {"lines": n, "bodies": [0, 1, 2, 3, 6, 7, 8],
                                "maxind": 2, "sym": n - 1}))
  out.append(("docs3", {"lines": 3, "bodies": [0, 1, 2], "maxind": 2}))
  out.append(("nested4", {"lines": 4, "bodies": [1, 2], "maxind": 2}))
  out.append(("plain3", {"lines": 3, "bodies": [0], "maxind": 8}))
  for i in range(len(LONG)):
    out.append(("long%d" % i, {"long": i, "maxind": 8}))
  if not q:
    out.append(("docs4", {"lines": 4, "bodies": [0, 1, 2, 4], "maxind": 2}))
    out.append(("docs3w", {"lines": 3, "bodies": list(range(len(BODIES))),
                           "maxind": 3}))
    out.append(("plain4", {"lines": 4, "bodies": [0], "maxind": 8}))
  out.reverse()
  return out


def run(ctx, n=None, lines=None, bodies=None, maxind=None,
        sym=None, long=None):
  prog = []
  if n is not None:
    code = ctx.text("c", n, alphabet=" \na")
    line = ""
    at = 0
    i = 0
    start = 0
    for i in range(n + 1):
      if i == n or code[i] == "\n":
        k = start
        while k < i and code[k] == " ":
          k += 1
        prog.append((k - start, "a" if k < i else "", k))
        start = i + 1
  else:
    code = ""
    for i in range(lines if long is None else len(LONG[long])):
      ind, b = (None, None) if long is None else LONG[long][i]
      if ind is None:
        ind = ctx.choice("ind%d" % i, range(maxind + 1))
      if b is None:
        b = ctx.choice("body%d" % i, bodies or range(len(BODIES)))
      b = BODIES[b]
      b = lib.fill(ctx, b, WORD if i == sym else "k", prefix="w%d." % i)
      prog.append((ind, b, len(code) + ind))
      code = code + " " * ind + b + "\n"
  every = prog
  prog = [p for p in prog if p[1] != ""]
  # indentation width: largest of 1..4 dividing every change of indentation
  widths = []
  prev = 0
  for ind, _, _ in prog:
    if ind != prev and ind > 0:
      widths.append(ind)
    prev = ind
  want = 1
  for c in (2, 3, 4):
    if widths and len([w for w in widths if w % c]) == 0:
      want = c
  got = utilities.infer_python_spaces_per_indent(code)
  ctx.check(got == want, "inferred indentation width")
  if want >= 3:
    ctx.cover("indent%d" % want)
  offs = []
  for (i1, b1, _), (i2, b2, at2) in zip(every, every[1:]):
    # (A blank line after the header: no longer directly below it.)
    if b1[:4] == "def " and b2[:3] in ('"""', "'''"):
      if i2 // want == i1 // want + 1:
        offs.append(at2 + 3)
      else:
        ctx.cover("not_deeper")
  res = list(utilities.find_python_function_docstrings(code))
  if offs:
    ctx.cover("docstring")
  if len(offs) > 1:
    ctx.cover("two")
  ctx.check(sorted(res) == offs, "docstring positions differ")
