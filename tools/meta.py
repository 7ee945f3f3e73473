"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import properties  # pylint: disable=wrong-import-position

NOTE = ("Bounded, solver-decided: the functions under check are executed "
        "symbolically from /repo's current source and z3 decides every branch "
        "and assertion for all inputs within the bounds listed in the evidence "
        "file; each counterexample is replayed on the unmodified source "
        "before it is reported. Trusted: z3, the source rewriter and its "
        "models of str/re/dict/set/numpy (validated against the real ones and "
        "by replaying sampled paths), numba-compiled code behaving as its "
        "Python source. Exact reals stand for floats.")


def main():
  with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in properties.PROPERTIES:
      assert len(p["title"]) <= 80, p["title"]
      f.write(json.dumps(p) + "\n")
  na = {x["property"] for x in properties.NOT_APPLICABLE}
  checks = []
  for p in properties.PROPERTIES:
    if p["id"] in na:
      continue
    assert [x for x in os.listdir(os.path.join(ROOT, "props"))
            if x.startswith(p["id"].lower() + "_")], p["id"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
        "technique": "solver-based: bounded symbolic execution of the Python "
                     "source with z3, counterexamples replayed",
        "level": "other",
        "level_note": NOTE,
    })
  man = {
      "version": 1,
      "setup_cmd": "python3-vt -c \"import z3, numpy; print(z3.get_version_string())\"",
      "checks": checks,
      "not_applicable": properties.NOT_APPLICABLE,
      "notes": "See DESIGN.md. check.py <id> runs one check; evidence in "
               "evidence/<id>.json; replays/<id>_<n>.json holds a "
               "counterexample, python replay.py <file> re-runs it.",
  }
  with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")


if __name__ == "__main__":
  main()
