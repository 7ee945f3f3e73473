"""check.py ID [--tier quick|thorough]: decides one property."""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
  os.environ["PYTHONHASHSEED"] = "0"
  os.execv(sys.executable, [sys.executable] + sys.argv)

from sx import harness  # pylint: disable=wrong-import-position


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("id")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--budget", type=float, default=None)
  ap.add_argument("--procs", type=int, default=os.cpu_count() or 4)
  a = ap.parse_args()
  mods = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, "props")))
          if f.endswith(".py") and f.lower().startswith(a.id.lower() + "_")]
  if len(mods) != 1:
    print("no such property", a.id)
    return 2
  budget = a.budget or (240.0 if a.tier == "quick" else 3000.0)
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  return harness.check(mods[0], a.id, a.tier, seed, budget, a.procs)


if __name__ == "__main__":
  sys.exit(main())
