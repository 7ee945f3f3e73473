"""Mutation testing of the checks, in scratch copies under /tmp/mut.

mutate.py N SEED [module ...]: for every module, N random small changes that
keep the stable tests passing; prints which checks report them. Survivors are
for reading: equivalent change, or a hole in the checks.
"""
import ast
import concurrent.futures
import copy
import json
import os
import random
import shutil
import subprocess
import sys

MODULES = {
    "parsing/subtokenizer.py": ["P01"],
    "parsing/pseudo_parser/stack_parser.py": ["P02", "P03", "P04", "P06", "P07"],
    "parsing/pseudo_parser/utilities.py": ["P07", "P02", "P06"],
    "tree_structure/transforms.py": ["P08", "P09", "P05"],
    "tree_structure/packed_sequence_nodes.py": ["P10"],
    "tree_structure/token_prob_align.py": ["P11", "P22"],
    "tree_structure/sequence_node_helpers.py": ["P10", "P08", "P05"],
    "tree_structure/sequence_nodes.py": ["P10", "P08", "P09"],
    "decision_diagrams/gated_state_dag.py": ["P12"],
    "decision_diagrams/packed_dags.py": ["P13", "P14", "P15"],
    "decision_diagrams/consistent_path_dual_solver.py": ["P16", "P17", "P18"],
    "edit_distance_utility/constraint_dags.py": ["P19", "P30"],
    "edit_distance_utility/edit_dags.py": ["P20", "P23", "P30"],
    "edit_distance_utility/part_selection_dags.py": ["P21", "P23", "P30"],
    "edit_distance_utility/region_decisions.py": ["P22"],
    "wrappers/uncertainty_regions_wrapper.py": ["P24", "P26", "P27", "P29"],
    "wrappers/prefix_truncation_wrapper.py": ["P25", "P24", "P27", "P29"],
    "wrappers/edit_distance_wrapper_base.py": ["P27", "P29"],
    "wrappers/wrapper_base.py": ["P27", "P29"],
    "wrappers/call_sequence_wrapper.py": ["P28"],
    "wrappers/parser_tools.py": ["P05", "P29"],
    "wrappers/demo_runner.py": ["P29"],
    "rendering/rendering.py": ["P31", "P30"],
    "rendering/svg_renderer.py": ["P31"],
    "rendering/dag_annotator.py": ["P30", "P31"],
    "rendering/simple_dag_annotator.py": ["P30", "P31"],
    "rendering/render_in_notebook.py": ["P31"],
}
WORK = "/tmp/mut"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Add, ast.Mod: ast.Add}


def sites(tree):
  """(path to node, kind) of every place that can be changed."""
  out = []
  skip = set()
  for n in ast.walk(tree):
    # Leave docstrings, annotations, raises and asserts alone.
    if isinstance(n, (ast.Raise, ast.Assert)):
      for k in ast.walk(n):
        skip.add(id(k))
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
      b = n.body
      if b and isinstance(b[0], ast.Expr) and isinstance(
          b[0].value, ast.Constant):
        skip.add(id(b[0]))
        skip.add(id(b[0].value))
    if isinstance(n, (ast.AnnAssign,)):
      for k in ast.walk(n.annotation):
        skip.add(id(k))
    if isinstance(n, ast.FunctionDef):
      for a in n.args.args + n.args.kwonlyargs:
        if a.annotation:
          for k in ast.walk(a.annotation):
            skip.add(id(k))
      if n.returns:
        for k in ast.walk(n.returns):
          skip.add(id(k))
      for d in n.decorator_list:
        for k in ast.walk(d):
          skip.add(id(k))
    if isinstance(n, ast.JoinedStr):
      for k in ast.walk(n):
        skip.add(id(k))
  infn = set()
  for n in ast.walk(tree):
    if isinstance(n, ast.FunctionDef):
      for k in ast.walk(n):
        infn.add(id(k))
  for i, n in enumerate(ast.walk(tree)):
    if id(n) in skip or id(n) not in infn:
      continue
    if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
      out.append((i, "cmp"))
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
      out.append((i, "bin"))
    if isinstance(n, ast.BoolOp):
      out += [(i, "bool"), (i, "dropop")]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
      out.append((i, "unary"))
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
      out.append((i, "const"))
    if isinstance(n, ast.If):
      out += [(i, "iftrue"), (i, "iffalse")]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and (
        n.func.id in ("min", "max")):
      out.append((i, "minmax"))
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue,
                      ast.Break)):
      out.append((i, "drop"))
    if isinstance(n, ast.Attribute) and n.attr in ("TRUE", "FALSE",
                                                   "NOT_APPLICABLE"):
      out.append((i, "decision"))
  return out


def apply(src, site, rng):
  tree = ast.parse(src)
  i, kind = site
  node = list(ast.walk(tree))[i]
  line = node.lineno
  before = ast.get_source_segment(src, node)
  if kind == "cmp":
    node.ops[0] = CMP[type(node.ops[0])]()
  elif kind == "bin":
    node.op = BIN[type(node.op)]()
  elif kind == "bool":
    node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
  elif kind == "dropop":
    node.values.pop(rng.randrange(len(node.values)))
    if len(node.values) == 1:
      node.values.append(copy.deepcopy(node.values[0]))
  elif kind == "unary":
    node.op = ast.UAdd() if isinstance(node.op, ast.USub) else node.op
    if isinstance(node.op, ast.Not):
      node.operand = ast.UnaryOp(ast.Not(), node.operand)
  elif kind == "const":
    v = node.value
    node.value = (not v) if isinstance(v, bool) else v + rng.choice([1, -1])
  elif kind == "iftrue":
    node.test = ast.BoolOp(ast.Or(), [node.test, ast.Constant(True)])
  elif kind == "iffalse":
    node.test = ast.BoolOp(ast.And(), [node.test, ast.Constant(False)])
  elif kind == "minmax":
    node.func.id = {"min": "max", "max": "min"}[node.func.id]
  elif kind == "decision":
    node.attr = rng.choice([x for x in ("TRUE", "FALSE", "NOT_APPLICABLE")
                            if x != node.attr])
  elif kind == "drop":
    class D(ast.NodeTransformer):
      def visit(self, n):
        if n is node:
          return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)
    tree = D().visit(tree)
  ast.fix_missing_locations(tree)
  after = ast.unparse(node) if kind != "drop" else "pass"
  return ast.unparse(tree), "%d %s: %s  =>  %s" % (
      line, kind, (before or "")[:110].replace("\n", " "),
      after[:110].replace("\n", " "))


def one(args):
  w, mod, site, seed, procs = args
  base = os.path.join(WORK, "w%d" % w)
  repo, ver = os.path.join(base, "repo"), os.path.join(base, "verif")
  if not os.path.exists(base):
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    subprocess.run(["git", "-C", "/verif", "worktree", "prune"], check=False)
    subprocess.run(["cp", "-a", "/verif", ver], check=True)
  f = os.path.join(repo, "r_u_sure", mod)
  orig = open(os.path.join("/repo/r_u_sure", mod)).read()
  try:
    new, desc = apply(orig, site, random.Random(seed))
    with open(f, "w") as fh:
      fh.write(new)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", SX_REPO=repo)
    t = subprocess.run(
        ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
         "no:cacheprovider", "r_u_sure/parsing", "r_u_sure/tree_structure",
         "--ignore=r_u_sure/tree_structure/token_prob_align_test.py"],
        cwd=repo, env=env, capture_output=True, text=True, timeout=120)
    if t.returncode:
      return None
    for p in MODULES[mod]:
      r = subprocess.run(["python3-vt", "check.py", p, "--procs", str(procs)],
                         cwd=ver, env=env, capture_output=True, text=True,
                         timeout=900)
      if r.returncode == 1 and "VIOLATION" in r.stdout:
        return "KILLED by %s" % p, desc
      if r.returncode not in (0, 1):
        return "NOANSWER %s rc=%d %s" % (p, r.returncode,
                                         r.stdout[-150:]), desc
      if "cases complete" in r.stdout:
        a = r.stdout.split(" quick: ")[1].split(" ")[0].split("/")
        if a[0] != a[1]:
          desc = desc + "   [%s incomplete %s]" % (p, "/".join(a))
    return "SURVIVED", desc
  except subprocess.TimeoutExpired:
    return "TIMEOUT", site
  finally:
    with open(f, "w") as fh:
      fh.write(orig)


def main():
  n, seed = int(sys.argv[1]), int(sys.argv[2])
  mods = sys.argv[3:] or list(MODULES)
  workers = int(os.environ.get("W", "2"))
  jobs = []
  for m in mods:
    src = open(os.path.join("/repo/r_u_sure", m)).read()
    s = sites(ast.parse(src))
    rng = random.Random("%s%d" % (m, seed))
    rng.shuffle(s)
    jobs.append((m, s[:3 * n]))
  shutil.rmtree(WORK, ignore_errors=True)
  os.makedirs(WORK)

  def run(w, m, todo):
    done = 0
    res = []
    for site in todo:
      if done >= n:
        break
      r = one((w, m, site, seed, 8 // workers))
      if r is None:
        continue
      done += 1
      print("%-9s %s:%s" % (r[0], m, r[1]), flush=True)
      res.append(r[0])
    print("== %s: %d of %d reported" % (
        m, sum(x.startswith("KILLED") for x in res), len(res)), flush=True)

  q = list(jobs)
  import threading
  lock = threading.Lock()

  def loop(w):
    while True:
      with lock:
        if not q:
          return
        m, s = q.pop(0)
      run(w, m, s)

  ts = [threading.Thread(target=loop, args=(w,)) for w in range(workers)]
  [t.start() for t in ts]
  [t.join() for t in ts]


main()
