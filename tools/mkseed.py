"""Builds /verif/seeded/<id>/ from tools/seeds.py and confirms each change.

For every spec: the patch applies to /repo's HEAD, compiles, keeps the stable
tests passing, and the demonstration passes without it and fails with it. All
of this happens in a scratch copy of /repo under /tmp.
"""
import importlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
WORK = "/tmp/seedwork"
PY = "/opt/venv/bin/python"
IGN = ["--ignore=r_u_sure/" + x for x in (
    "decision_diagrams", "numba_helpers", "wrappers",
    "tree_structure/token_prob_align_test.py")]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")

DEMO_SH = """#!/bin/bash
# Run in the repository's root. Exit 0: the property holds in this scenario.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$here:$PWD" exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True,
                        timeout=300, **kw)


def tests(repo):
  r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
          "--continue-on-collection-errors"] + IGN + ["r_u_sure"], repo)
  return r.stdout.strip().splitlines()[-1]


def main(only):
  sys.path.insert(0, HERE)
  specs = importlib.import_module("seeds").SEEDS
  repo = os.path.join(WORK, "repo")
  for s in specs:
    if only and s["id"] not in only:
      continue
    out = os.path.join(ROOT, "seeded", s["id"])
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    with open(os.path.join(out, "demo.py"), "w") as f:
      f.write(s["demo"].lstrip("\n"))
    with open(os.path.join(out, "demo.sh"), "w") as f:
      f.write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    if s.get("numba", True):
      for stub in ("numba", "IPython", "matplotlib"):
        if stub == "numba" or "demo_runner" in s["demo"]:
          shutil.copytree(os.path.join(ROOT, "stubs", stub),
                          os.path.join(out, stub),
                          ignore=shutil.ignore_patterns("__pycache__"))
    with open(os.path.join(out, "meta.json"), "w") as f:
      json.dump({"property": s["property"], "needs": s["needs"],
                 "what_it_breaks": s["breaks"]}, f, indent=1)
      f.write("\n")
    before = sh(["bash", os.path.join(out, "demo.sh")], repo)
    for path, old, new in s["edits"]:
      p = os.path.join(repo, "r_u_sure", path)
      src = open(p).read()
      if src.count(old) != 1:
        print(s["id"], "BAD EDIT: %d matches in %s" % (src.count(old), path))
        break
      open(p, "w").write(src.replace(old, new))
    else:
      d = sh(["git", "diff"], repo).stdout
      open(os.path.join(out, "patch.diff"), "w").write(d)
      t = tests(repo)
      after = sh(["bash", os.path.join(out, "demo.sh")], repo)
      ok = before.returncode == 0 and after.returncode != 0 and \
          "83 passed" in t and "failed" not in t
      print(s["id"], "ok" if ok else "NOT OK", "demo", before.returncode,
            after.returncode, t)
      if not ok:
        print(before.stderr[-800:], "\n----", after.stderr[-800:])
      else:
        print("   ", after.stderr.strip().splitlines()[-1][:150]
              if after.stderr.strip() else "")
    shutil.rmtree(WORK, ignore_errors=True)


if __name__ == "__main__":
  main(sys.argv[1:])
