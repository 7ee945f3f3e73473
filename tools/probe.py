"""Quick trials of ideas for planted bugs: tools/probe.py FILE [names...].

FILE defines PROBES = [(name, "P01 P02", module, old, new), ...]; every one is
applied to a scratch copy, the stable tests are run there, then the checks.
"""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
  space = {}
  exec(open(sys.argv[1]).read(), space)
  only = sys.argv[2:]
  for name, props, module, old, new in space["PROBES"]:
    if only and name not in only:
      continue
    d = "/tmp/probe_" + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    p = os.path.join(d, "r_u_sure", module)
    s = open(p).read()
    if s.count(old) < 1:
      print(name, "TEXT NOT FOUND")
      continue
    open(p, "w").write(s.replace(old, new, 1))
    t = subprocess.run(
        ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
         "no:cacheprovider", "r_u_sure/parsing", "r_u_sure/tree_structure",
         "--ignore=r_u_sure/tree_structure/token_prob_align_test.py"],
        cwd=d, capture_output=True, text=True,
        env={**os.environ, "PYTHONPATH": d})
    res = []
    for prop in props.split():
      r = subprocess.run(
          ["python3-vt", "check.py", prop], cwd=HERE, capture_output=True,
          text=True, env={**os.environ, "SX_REPO": d})
      res.append("%s=%d" % (prop, r.returncode))
      if r.returncode == 1:
        break
    print(name, "CAUGHT" if res[-1].endswith("=1") else "MISSED",
          "" if t.returncode == 0 else "tests fail: " + t.stdout[-200:],
          " ".join(res), flush=True)
    shutil.rmtree(d, ignore_errors=True)


main()
