"""Realistic programs; "\\x00" marks a place for an arbitrary character."""

HOLE = "\x00"
PROGRAMS = {
    "python": [
        """class Foo(Base[int], metaclass=M):
    \'\'\'Doc (unbalanced [ text.

      More text.
    \'\'\'
    X = {"a": [1, 2.5e-3, (3, 4)], \'b\': "it\'s"}  # comment )

    def method(self, x,
            y=(1,
               2)):\x00
        if x:
            for i in range(10):
                while True:
                    yield x[i]\x00
            return f"{x!r:>{10}}" \\
                + r\'\\d+\'

    async def other(self): pass
print(Foo.X)
""",
        """        deep = 1
            deeper = 2)
                deepest = 3
    back = [\x00
  odd = 4
#!comment
\x00
if a:
\tb
\tif c:
\t\td
e
""",
        "x = \"\"\"a\n  b\n\x00\"\"\"\n  y\r\n\r\n\x0c\nz = '\\\n'\n" * 2,
        "((((((((((a\x00b))))]))))\n        c\n    d\n",
        "if a:\n if b:\n  if c:\n   if d:\n    if e:\n     f\x00\n   g\nh\n",
        "if a:\n    \n        \n  # c\n    b\n\x00\n    \n\n",
    ],
    "cpp": [
        """#include <vector>
#define MAX(a, b) ((a) > (b) ? \\
    (a) : (b))
/* block { comment
 * more */
template <typename T> class Foo : public Bar<T> {
 public:
  explicit Foo(int x) : x_{x}, s_("a\\"b{") {}  // trailing (
  int operator[](size_t i) const { return v_[i]\x00; }
 private:
  char c = \'\\\'\'; std::vector<std::vector<int>> v_ = {{1}, {0x1F}};
};
\x00
""",
        "}}}])) a(b[c{\x00 //x\n\"unterminated\n/* open",
    ],
    "java": [
        """package a.b;
@Override public final class Foo<T extends Comparable<T>> implements Bar {
  /** Javadoc {@link Foo}. */
  private static final int[] A = {1, 2, 3};
  int f(String s) throws E { if (s == null) { return A[0]; } // x }
    char q = \'"\'; s = "\\u0041 \\" {"\x00;
    return s.length() > 0 ? 1L : 0;
  }
}\x00
""",
        "for (int i = 0; i < n; i++) { x[i]++; } } ) ]\x00 /* open ( \n",
    ],
    "javascript": [
        """import {a} from "b";
const f = async (x, {y, ...z}) => {
  const re = /[(]\\/x/g; // comment {
  return `t ${x[y]} ${`n ${z}`}`;\x00
};
/* c */ export default function* g() { yield* f(1, {y: \'s\'}); }\x00
""",
        "if (a) { b([c, {d: `x\x00 } ) ] // {\n /re",
    ],
    "simple": [
        "BEGIN [x ( y { z } ) ] \"quoted ( text\" 'c'\x00 end;\n  # $%^ ) ] }\n\n\x00",
    ],
}


def fill(ctx, prog, hole=None, alphabet=None):
  """The program with the hole-th place (default: every place) arbitrary."""
  code = ""
  for i, part in enumerate(prog.split(HOLE)):
    if i and (hole is None or hole == i - 1):
      code = code + (ctx.char("h%d" % i) if alphabet is None else
                     ctx.char("h%d" % i, alphabet))
    code = code + part
  return code
