"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MISSED = json.load(open(os.path.join(V, "tools", "missed_at_first.json")))
rows = ["| change | caught by | needs | breaks | |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    n, m = f.split("/")[-2], json.load(open(f))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {MISSED.get(n, '')} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(?s)<!-- table -->.*<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s)
open(p, "w").write(s)
