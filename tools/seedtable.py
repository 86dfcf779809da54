"""Rewrites the list of planted bugs at the end of DESIGN.md. Run by hand; no check uses it."""
import json, os
d = os.path.join(os.path.dirname(__file__), "..")
rows = []
for s in sorted(os.listdir(d + "/seeded")):
    m = json.load(open(f"{d}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks'].split(chr(10))[0].replace('|', '/')} |")
t = open(d + "/DESIGN.md").read()
t = t[:t.index("<!-- seeded -->")] + "<!-- seeded -->\n\n| planted bug | caught by the quick check of | what it does |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(d + "/DESIGN.md", "w").write(t)
