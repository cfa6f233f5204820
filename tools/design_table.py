"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
rows = []
for d in glob.glob("/verif/seeded/*/meta.json"):
    m = json.load(open(d))
    rows.append((m["property"], os.path.basename(os.path.dirname(d)), m["what_it_breaks"], m["needs"]))
rows.sort()
esc = lambda s: s.replace("|", "\\|").replace("\n", " ")
t = ["| Caught by | Seed | What it breaks | Needs |", "|---|---|---|---|"]
t += ["| %s | `%s` | %s | %s |" % (p, i, esc(b), esc(n)) for p, i, b, n in rows]
s = open("/verif/DESIGN.md").read()
a, b = "<!-- table -->\n", "<!-- end -->\n"
i, j = s.index(a) + len(a), s.index(b)
open("/verif/DESIGN.md", "w").write(s[:i] + "\n".join(t) + "\n" + s[j:])
print(len(rows))
