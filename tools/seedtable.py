"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | check | what it breaks | needs | result |", "|---|---|---|---|---|"]
missed = json.load(open(os.path.join(ROOT, "tools", "missed.json"))) if os.path.exists(os.path.join(ROOT, "tools", "missed.json")) else {}
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
  m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
  rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], missed.get(d, "caught")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
s = s.replace("SEEDTABLE", a + b)
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
