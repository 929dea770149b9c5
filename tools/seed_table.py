"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/seed_results.txt (id -> result)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(l.split(None, 1) for l in open(os.path.join(root, "tools", "seed_results.txt")) if l.strip())
rows = ["| id | property | what it breaks | caught by |", "|---|---|---|---|"]
key = lambda i: int(re.match(r"s(\d+)", i).group(1))
for i in sorted(os.listdir(os.path.join(root, "seeded")), key=key):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s (needs %s) | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "not run").strip()))
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
if a not in t:
    t = t.replace("(see the table at the end, kept up to date by hand)", a + "\n" + b)
t = t[:t.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + t[t.index(b):]
open(p, "w").write(t)
