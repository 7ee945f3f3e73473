"""Runs each seeded bug's quick check with the patch applied to /repo.

Always restores /repo (git checkout). Usage: runseeds.py [id ...]
"""
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")


def main(ids):
  for d in sorted(os.listdir(SEEDED)):
    if ids and d not in ids:
      continue
    prop = json.load(open(os.path.join(SEEDED, d, "meta.json")))["property"]
    patch = os.path.join(SEEDED, d, "patch.diff")
    t = time.time()
    subprocess.run(["git", "-C", "/repo", "apply", patch], check=True)
    try:
      r = subprocess.run(["python3-vt", "check.py", prop, "--tier", "quick"],
                         cwd=ROOT, capture_output=True, text=True)
    finally:
      subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-28s %s exit %d %s %.0fs" % (
        d, prop, r.returncode, "CAUGHT" if r.returncode == 1 and hit
        else "MISSED", time.time() - t), flush=True)
    if not hit:
      print((r.stdout + r.stderr)[-600:])


if __name__ == "__main__":
  main(sys.argv[1:])
