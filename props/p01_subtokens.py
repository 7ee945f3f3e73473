"""P01: sub-tokenizer is lossless and splits exactly where documented."""
from r_u_sure.parsing import subtokenizer

ID = "P01"
BOUNDS = {
    "text length": "0..4 (quick) / 0..6 (thorough), each character any "
                   "ASCII code point or a representative of a non-ASCII class",
    "whitespace runs": "one ' ' / '\\t' run of length 18..42 (quick: a "
                       "selection) with symbolic characters on both sides",
    "long inputs": "runs of 24..70 (thorough: ..300) equal characters of "
                   "every class, long identifiers and a realistic program, "
                   "each with 1..2 arbitrary characters inside",
}
ASSUMPTIONS = [
    "non-ASCII code points are represented by two members of every class that "
    "str predicates and regex categories distinguish"]
COVER = ["multi", "upper_lower"]
HOLE = "\x00"
LONG = [
    "getHTTPResponseCode2XXFor%sUserABCd" % HOLE,
    "ABCDEFGHIJKLMNOPQRSTUVWXYZ%sabcdefghijklmnopqrstuvwxyz0123456789" % HOLE,
    "__init_subclass__%s__ == <<=>>= != ...%s)]};" % (HOLE, HOLE),
    ("def load_XMLFile2(self, path='a/b c'):\n" + " " * 24 +
     "return self.cacheOf[path]%s+1.5e-3 # TODO(me): FIXME%s\n\n\t\t\tX = Y\r\n"
     % (HOLE, HOLE)),
    "x" + " " * 20 + HOLE + " " * 20 + "y",
    "\t" * 20 + HOLE + "\t" * 21,
    " \t" * 12 + HOLE + "\t " * 12,
    "\n" * 21 + HOLE + "\r\n" * 11,
    "caf\u00e9\u00c9t\u00e9 \u4e2d\u6587%s\u0663\u00b2\u2167 \u01c5ab\u2003x" % HOLE,
    "aB" * 40 + HOLE + "Ba1" * 30,
]
RUNS = ["a", "A", "7", "_", "-", "=", "\n", "\r", "\x0b", "\u00e9", "\u4e2d"]


def cases(tier):
  n = 4 if tier == "quick" else 6
  out = [("len%d" % k, {"n": k}) for k in range(n, -1, -1)]
  runs = [19, 20, 21, 40, 41] if tier == "quick" else list(range(17, 43)) + [60, 61]
  for r in runs:
    for ws in " \t":
      out.append(("run%d_%d" % (ord(ws), r), {"n": 1, "run": r, "ws": ws}))
  for ws in RUNS:
    for r in ((24, 70) if tier == "quick" else (24, 70, 130, 300)):
      out.append(("long%d_%d" % (ord(ws), r), {"n": 1, "run": r, "ws": ws}))
  for i, template in enumerate(LONG):
    out.append(("text%d" % i, {"n": 1, "template": template}))
  return out


def kind(c):
  if c.isupper():
    return "U"
  if c.islower():
    return "L"
  if c.isdigit():
    return "N"
  return "S"


def split_before(code, kinds, i, runlen):
  """Documented boundary between code[i-1] and code[i] (reference)."""
  a, b = kinds[i - 1], kinds[i]
  if a == "U" and b == "L":
    return False
  if a != b:
    return True
  if a == "U" and i + 1 < len(kinds) and kinds[i + 1] == "L":
    return True      # upper | upper lower
  if a == "S":
    p, c = code[i - 1], code[i]
    if c == p and (c == " " or c == "\t"):
      return runlen[i] % 20 == 0
    if c.isspace() or p.isspace():
      return True
  return False


def run(ctx, n, run=None, ws=None, template=None):
  if template is not None:
    code = ""
    for i, part in enumerate(template.split(HOLE)):
      code = code + (ctx.char("h%d" % i) if i else "") + part
  elif run is None:
    code = ctx.text("c", n)
  else:
    code = ctx.text("a", n) + ws * run + ctx.text("b", n)
  tokens = subtokenizer.code_to_tokens_simple_lossless(code)
  # Reference segmentation, from the documented rules only.
  kinds = [kind(c) for c in code]
  runlen = []
  for i in range(len(code)):
    same = i > 0 and code[i] == code[i - 1] and (
        code[i] == " " or code[i] == "\t")
    runlen.append(runlen[-1] + 1 if same else 0)
  want = []
  cur = 0
  for i in range(1, len(code)):
    if split_before(code, kinds, i, runlen):
      want.append((cur, i))
      cur = i
  if len(code):
    want.append((cur, len(code)))
  joined = "".join(tokens)
  ctx.check(joined == code, "tokens joined differ from the input")
  ctx.check(len(tokens) == len(want), "number of tokens differs from the rules")
  for t, (lo, hi) in zip(tokens, want):
    ctx.check(t == code[lo:hi], "token boundary differs from the rules")
    ctx.check(len(t) > 0, "empty token")
  if len(tokens) > 1:
    ctx.cover("multi")
  if n >= 2 and kinds[:2] == ["U", "L"]:
    ctx.cover("upper_lower")
