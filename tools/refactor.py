"""Behaviour-preserving rewrites of the whole source, to test for alarms.

refactor.py OUT STYLE: copies /repo to OUT and rewrites every non-test module.
Run the checks with SX_REPO=OUT; all must exit 0.
"""
import ast
import os
import shutil
import subprocess
import sys

N = [0]


def fresh(p="tmp"):
  N[0] += 1
  return "_%s_%d" % (p, N[0])


def name(n, ctx=None):
  return ast.Name(id=n, ctx=ctx or ast.Load())


def store(n):
  return ast.Name(id=n, ctx=ast.Store())


def call(f, *a):
  return ast.Call(func=name(f) if isinstance(f, str) else f, args=list(a),
                  keywords=[])


class Invert(ast.NodeTransformer):
  """if/else branches swapped, conditions held in variables, De Morgan."""

  def visit_If(self, n):
    self.generic_visit(n)
    if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
      return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test),
                    body=n.orelse, orelse=n.body)
    return n

  def visit_BoolOp(self, n):
    self.generic_visit(n)
    if all(isinstance(v, (ast.Compare, ast.UnaryOp)) and
           (not isinstance(v, ast.UnaryOp) or isinstance(v.op, ast.Not))
           for v in n.values):
      other = ast.Or() if isinstance(n.op, ast.And) else ast.And()
      return ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=other, values=[
          ast.UnaryOp(op=ast.Not(), operand=v) for v in n.values]))
    return n

  def visit_IfExp(self, n):
    self.generic_visit(n)
    return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=n.test),
                     body=n.orelse, orelse=n.body)

  def visit_FunctionDef(self, n):
    n.body = [self.visit(b) for b in n.body]
    return n


class Loops(ast.NodeTransformer):
  """for loops become while loops over iterators; enumerate by hand."""

  def visit_For(self, n):
    self.generic_visit(n)
    if n.orelse:
      return n
    it, item = fresh("it"), fresh("item")
    stop = fresh("end")
    # item = next(it, stop)
    return [
        ast.Assign(targets=[store(it)], value=call("iter", n.iter)),
        ast.Assign(targets=[store(stop)], value=call("object")),
        ast.While(
            test=ast.Constant(True),
            body=[
                ast.Assign(targets=[store(item)],
                           value=call("next", name(it), name(stop))),
                ast.If(test=ast.Compare(left=name(item), ops=[ast.Is()],
                                        comparators=[name(stop)]),
                       body=[ast.Break()], orelse=[]),
                ast.Assign(targets=[n.target], value=name(item)),
            ] + n.body, orelse=[]),
    ]

  def visit_AugAssign(self, n):
    self.generic_visit(n)
    if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)):
      # (lists: += mutates; only rewrite numbers, i.e. constant right sides)
      if isinstance(n.value, ast.Constant):
        return ast.Assign(targets=[store(n.target.id)], value=ast.BinOp(
            left=name(n.target.id), op=n.op, right=n.value))
    return n


class Helpers(ast.NodeTransformer):
  """Every comprehension and conditional expression moves to a helper."""

  def visit_ListComp(self, n):
    self.generic_visit(n)
    return call("list", ast.GeneratorExp(elt=n.elt, generators=n.generators))

  def visit_DictComp(self, n):
    self.generic_visit(n)
    return call("dict", ast.GeneratorExp(
        elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()),
        generators=n.generators))

  def visit_SetComp(self, n):
    self.generic_visit(n)
    return call("set", ast.GeneratorExp(elt=n.elt, generators=n.generators))

  def visit_JoinedStr(self, n):
    # f"a{x}b" -> "a{}b".format(x), where every field is plain
    args, fmt = [], ""
    for v in n.values:
      if isinstance(v, ast.Constant):
        fmt += v.value.replace("{", "{{").replace("}", "}}")
      else:
        fmt += "{"
        if v.conversion != -1:
          fmt += "!" + chr(v.conversion)
        if v.format_spec is not None:
          if not all(isinstance(x, ast.Constant)
                     for x in v.format_spec.values):
            return n
          fmt += ":" + "".join(x.value for x in v.format_spec.values)
        fmt += "}"
        args.append(v.value)
    return ast.Call(func=ast.Attribute(value=ast.Constant(fmt), attr="format",
                                       ctx=ast.Load()), args=args, keywords=[])

  def visit_Compare(self, n):
    self.generic_visit(n)
    if len(n.ops) == 1:
      flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
              ast.GtE: ast.LtE}
      t = type(n.ops[0])
      if t in flip:
        return ast.Compare(left=n.comparators[0], ops=[flip[t]()],
                           comparators=[n.left])
    return n


class Nest(ast.NodeTransformer):
  """Every function body moves into an inner function."""

  def visit_FunctionDef(self, n):
    has_yield = False
    scoped = False
    for x in ast.walk(n):
      if isinstance(x, (ast.Yield, ast.YieldFrom)):
        has_yield = True
      if isinstance(x, (ast.Global, ast.Nonlocal)):
        scoped = True
      if isinstance(x, ast.Name) and x.id == "super":
        scoped = True
    n.body = [self.visit(b) for b in n.body]
    params = [a.arg for a in n.args.posonlyargs + n.args.args +
              n.args.kwonlyargs]
    if n.args.vararg or n.args.kwarg or scoped:
      return n
    doc = []
    body = n.body
    if body and isinstance(body[0], ast.Expr) and isinstance(
        body[0].value, ast.Constant):
      doc, body = body[:1], body[1:]
    if not body:
      return n
    inner = fresh("body")
    f = ast.FunctionDef(
        name=inner, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=p) for p in params],
            kwonlyargs=[], kw_defaults=[], defaults=[]),
        body=body, decorator_list=[], returns=None)
    f.type_params = []
    c = call(inner, *[name(p) for p in params])
    n.body = doc + [f, ast.Return(c)]
    return n


STYLES = {"invert": [Invert], "loops": [Loops], "helpers": [Helpers],
          "nest": [Nest], "all": [Invert, Loops, Helpers, Nest]}


def main(out, style):
  shutil.rmtree(out, ignore_errors=True)
  subprocess.run(["cp", "-a", "/repo", out], check=True)
  for dp, _, fs in os.walk(os.path.join(out, "r_u_sure")):
    for f in fs:
      if not f.endswith(".py") or f.endswith("_test.py") or "numba_helpers" in dp:
        continue
      p = os.path.join(dp, f)
      t = ast.parse(open(p).read())
      for s in STYLES[style]:
        t = s().visit(t)
      ast.fix_missing_locations(t)
      open(p, "w").write(ast.unparse(t) + "\n")
  r = subprocess.run(
      ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
       "no:cacheprovider", "--continue-on-collection-errors"] +
      ["--ignore=r_u_sure/" + x for x in (
          "decision_diagrams", "numba_helpers", "wrappers",
          "tree_structure/token_prob_align_test.py")] + ["r_u_sure"],
      cwd=out, capture_output=True, text=True)
  print(r.stdout[-300:])


if __name__ == "__main__":
  main(*sys.argv[1:])
