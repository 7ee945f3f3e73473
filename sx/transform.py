"""Import hook: loads r_u_sure.* from /repo and rewrites it for sx.

Semantics-preserving rewrite of the *current* source text, on every run:
calls go through runtime.call (so that C-implemented builtins, str / re /
numpy methods see symbolic values), `in` through runtime.contains, f-strings,
dict / set displays through runtime constructors; `numpy` is bound to the shim.
Nothing else of the program changes.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

SYMBOLIC = False
REPO = os.environ.get("SX_REPO", "/repo")
NO_WRAP = {"super", "locals", "globals", "vars", "dir", "eval", "exec",
           "__import__", "enumerate", "zip", "range", "getattr", "hasattr",
           "setattr", "iter", "next", "list", "tuple", "reversed", "id",
           "slice", "object", "property", "classmethod", "staticmethod",
           "ValueError", "TypeError", "KeyError", "NotImplementedError",
           "AssertionError", "RuntimeError", "Exception"}


def _name(n):
  return ast.Name(id=n, ctx=ast.Load())


class Rewriter(ast.NodeTransformer):

  def __init__(self, modname):
    self.modname = modname
    self.stack = []

  # -- functions: record what was executed; leave annotations alone ------------
  def _func(self, node):
    self.stack.append(node.name)
    qual = self.modname + ":" + ".".join(self.stack)
    node.decorator_list = [self.visit(d) for d in node.decorator_list]
    a = node.args
    a.defaults = [self.visit(d) for d in a.defaults]
    a.kw_defaults = [None if d is None else self.visit(d)
                     for d in a.kw_defaults]
    body = [self.visit(b) for b in node.body]
    flat = []
    for b in body:
      flat.extend(b if isinstance(b, list) else [b])
    i = 1 if (flat and isinstance(flat[0], ast.Expr) and isinstance(
        flat[0].value, ast.Constant) and isinstance(
            flat[0].value.value, str)) else 0
    probe = ast.Expr(value=ast.Call(
        func=ast.Attribute(value=_name("_sx"), attr="enter", ctx=ast.Load()),
        args=[ast.Constant(qual)], keywords=[]))
    flat.insert(i, probe)
    node.body = flat
    self.stack.pop()
    return node

  def visit_FunctionDef(self, node):
    return self._func(node)

  def visit_AsyncFunctionDef(self, node):
    return self._func(node)

  def visit_ClassDef(self, node):
    self.stack.append(node.name)
    flat = []
    for b in node.body:
      b = self.visit(b)
      flat.extend(b if isinstance(b, list) else [b])
    node.body = flat
    node.decorator_list = [self.visit(d) for d in node.decorator_list]
    self.stack.pop()
    return node

  def visit_AnnAssign(self, node):
    if node.value is not None:
      node.value = self.visit(node.value)
    return node

  def visit_Import(self, node):
    out = []
    for al in node.names:
      if al.name == "numpy":
        out.append(ast.ImportFrom(
            module="sx.npshim",
            names=[ast.alias(name="NP", asname=al.asname or "numpy")],
            level=0))
      else:
        out.append(ast.Import(names=[al]))
    return out

  def visit_Call(self, node):
    self.generic_visit(node)
    f = node.func
    if isinstance(f, ast.Name) and (f.id in NO_WRAP or f.id.startswith("_sx")):
      return node
    if isinstance(f, ast.Attribute) and isinstance(
        f.value, ast.Name) and f.value.id == "_sx":
      return node
    return ast.Call(
        func=ast.Attribute(value=_name("_sx"), attr="call", ctx=ast.Load()),
        args=[f] + node.args, keywords=node.keywords)

  def visit_Compare(self, node):
    self.generic_visit(node)
    if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
      c = ast.Call(
          func=ast.Attribute(value=_name("_sx"), attr="contains",
                             ctx=ast.Load()),
          args=[node.comparators[0], node.left], keywords=[])
      if isinstance(node.ops[0], ast.NotIn):
        return ast.UnaryOp(op=ast.Not(), operand=c)
      return c
    return node

  def visit_BinOp(self, node):
    self.generic_visit(node)
    if isinstance(node.op, ast.Mod):
      return ast.Call(
          func=ast.Attribute(value=_name("_sx"), attr="mod", ctx=ast.Load()),
          args=[node.left, node.right], keywords=[])
    return node

  def visit_JoinedStr(self, node):
    parts = []
    for v in node.values:
      if isinstance(v, ast.Constant):
        parts.append(v)
      else:
        val = self.visit(v.value)
        conv = None if v.conversion == -1 else chr(v.conversion)
        spec = (ast.Constant("") if v.format_spec is None
                else self.visit(v.format_spec))
        parts.append(ast.Tuple(
            elts=[val, ast.Constant(conv), spec], ctx=ast.Load()))
    return ast.Call(
        func=ast.Attribute(value=_name("_sx"), attr="fstr", ctx=ast.Load()),
        args=[ast.List(elts=parts, ctx=ast.Load())], keywords=[])

  def visit_Dict(self, node):
    self.generic_visit(node)
    elts = []
    for k, v in zip(node.keys, node.values):
      star = k is None
      elts.append(ast.Tuple(
          elts=[ast.Constant(star), ast.Constant(None) if star else k, v],
          ctx=ast.Load()))
    return ast.Call(
        func=ast.Attribute(value=_name("_sx"), attr="mkdict", ctx=ast.Load()),
        args=[ast.List(elts=elts, ctx=ast.Load())], keywords=[])

  def visit_DictComp(self, node):
    self.generic_visit(node)
    gen = ast.GeneratorExp(
        elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
        generators=node.generators)
    return ast.Call(
        func=ast.Attribute(value=_name("_sx"), attr="SDict", ctx=ast.Load()),
        args=[gen], keywords=[])

  def visit_Set(self, node):
    self.generic_visit(node)
    return ast.Call(
        func=ast.Attribute(value=_name("_sx"), attr="b_set", ctx=ast.Load()),
        args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[])

  def visit_SetComp(self, node):
    self.generic_visit(node)
    return ast.Call(
        func=ast.Attribute(value=_name("_sx"), attr="b_set", ctx=ast.Load()),
        args=[ast.GeneratorExp(elt=node.elt, generators=node.generators)],
        keywords=[])


def rewrite(source, modname, filename):
  tree = ast.parse(source, filename)
  new = Rewriter(modname).visit(tree)
  # imports: expand lists
  imp = ast.ImportFrom(module="sx",
                       names=[ast.alias(name="runtime", asname="_sx")], level=0)
  i = 0
  body = new.body
  if body and isinstance(body[0], ast.Expr) and isinstance(
      body[0].value, ast.Constant):
    i = 1
  while i < len(body) and isinstance(
      body[i], ast.ImportFrom) and body[i].module == "__future__":
    i += 1
  body.insert(i, imp)
  ast.fix_missing_locations(new)
  return compile(new, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):

  def __init__(self, path, transform):
    self.path, self.transform = path, transform

  def create_module(self, spec):
    return None

  def exec_module(self, module):
    with open(self.path, encoding="utf-8") as f:
      src = f.read()
    if self.transform:
      code = rewrite(src, module.__name__, self.path)
    else:
      code = compile(src, self.path, "exec", dont_inherit=True)
    module.__file__ = self.path
    exec(code, module.__dict__)  # pylint: disable=exec-used


class Finder(importlib.abc.MetaPathFinder):
  """Finds r_u_sure.* under REPO and harness modules under /verif/props."""

  def __init__(self, transform, extra=()):
    self.transform = transform
    self.extra = dict(extra)  # package prefix -> directory

  def find_spec(self, fullname, path=None, target=None):
    top = fullname.split(".")[0]
    if top == "r_u_sure":
      base = os.path.join(REPO, *fullname.split("."))
    elif top in self.extra:
      base = os.path.join(self.extra[top], *fullname.split("."))
    else:
      return None
    init = os.path.join(base, "__init__.py")
    if os.path.isfile(init):
      return importlib.util.spec_from_file_location(
          fullname, init, loader=Loader(init, self.transform),
          submodule_search_locations=[base])
    f = base + ".py"
    if os.path.isfile(f):
      return importlib.util.spec_from_file_location(
          fullname, f, loader=Loader(f, self.transform))
    return None


def install(symbolic):
  """Makes `import r_u_sure...` load /repo's current source."""
  global SYMBOLIC
  SYMBOLIC = symbolic
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  sys.path.insert(0, os.path.join(here, "stubs"))
  for m in list(sys.modules):
    if m.split(".")[0] in ("r_u_sure", "props", "numba"):
      del sys.modules[m]
  sys.dont_write_bytecode = True
  sys.meta_path.insert(0, Finder(symbolic, {"props": here}))
  if "/opt/venv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
