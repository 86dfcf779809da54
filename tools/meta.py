#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from tools/props/*.py.

Run after editing a property: python3 tools/meta.py
"""
import json, os, glob, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
PROPS, NA = [], []
FNS = "exported API only; the harness and /repo are compiled to go/ssa from the current tree on every run"
COMMON = [
  "go/ssa and the Go standard library source are the semantics executed; runtime intrinsics (maps, strings, append, interfaces) are modelled by the engine and validated by native replay",
  "logging (logrus) has no effect",
]

def prop(id, title, statement, over, text, why, files, mech, harnesses, bounds, outside, assumptions=(), state=(), observe=(), note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
        harnesses=harnesses, bounds=bounds, outside=outside, assumptions=list(assumptions), state=state, observe=observe, note=note))

def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason, state=(), observe=()))

for f in sorted(glob.glob(os.path.join(here, "props", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))

def where(m):
    n, w = m.split(" @ ")
    return {"name": n, "where": w}

with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for p in sorted(PROPS + NA, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [where(m) for m in p["mech"]], "hook_needed": None}
        if p["state"]:
            a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")

checks = []
for p in sorted(PROPS, key=lambda p: p["id"]):
    hs = []
    for h in p["harnesses"]:
        hs.append({"fn": h} if isinstance(h, str) else h)
    checks.append({"id": p["id"], "title": p["title"], "harnesses": hs, "bounds": p["bounds"], "outside": p["outside"], "assumptions": COMMON + p["assumptions"]})
json.dump(checks, open(os.path.join(root, "checks.json"), "w"), indent=1)

man = {"version": 1, "setup_cmd": "sh ./setup.sh",
  "checks": [{"property": p["id"], "quick_cmd": "sh ./check.sh " + p["id"] + " quick", "thorough_cmd": "sh ./check.sh " + p["id"] + " thorough",
     "evidence_file": "evidence/%s.json" % p["id"],
     "technique": "bounded symbolic execution of the real Go code (go/ssa to SMT bit-vectors, z3); counterexamples replayed natively",
     "level": "model_checking",
     "level_note": p["note"] or ("Holds for every input within: " + "; ".join(p["bounds"]) + ".")} for p in sorted(PROPS, key=lambda p: p["id"])],
  "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(NA, key=lambda p: p["id"])],
  "notes": "No hooks in /repo: harnesses use only its exported API. Known findings and repaired defects: known_findings.txt. Engine: engine/, harnesses: harness/props/."}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

# the per-property section of DESIGN.md
src = "".join(open(f).read() for f in sorted(glob.glob(os.path.join(root, "harness/props/*.go"))))
import re
docs = {}
for m in re.finditer(r"((?:^//.*\n)*)^func (H\w+)\(\) \{", src, re.M):
    docs[m.group(2)] = re.sub(r"\s+", " ", re.sub(r"^// ?", "", m.group(1), flags=re.M)).strip()
out = []
for p in sorted(PROPS, key=lambda p: p["id"]):
    out.append("### %s %s\n" % (p["id"], p["title"]))
    for h in p["harnesses"]:
        h = h if isinstance(h, str) else h["fn"]
        d = docs.get(h, "")
        out.append("- `%s`: %s" % (h, d.split(": ", 1)[-1]))
    out.append("- Bounds: " + "; ".join(p["bounds"]) + ".")
    if p["outside"]:
        out.append("- Outside: " + "; ".join(p["outside"]) + ".")
    out.append("- Beyond the tests: " + p["why"] + "\n")
dp = os.path.join(root, "DESIGN.md")
if os.path.exists(dp):
    t = open(dp).read()
    a, b = "<!-- properties: generated by tools/meta.py -->\n", "<!-- end of properties -->\n"
    t = t[:t.index(a) + len(a)] + "\n".join(out) + t[t.index(b):]
    open(dp, "w").write(t)

# every harness function is used by some property
import re
src = "".join(open(f).read() for f in glob.glob(os.path.join(root, "harness/props/*.go")))
have = set(re.findall(r"^func (H\w+)\(\) \{", src, re.M))
used = {h["fn"] for c in checks for h in c["harnesses"]}
if have - used: print("unused harnesses:", sorted(have - used))
if used - have: print("MISSING harnesses:", sorted(used - have)); sys.exit(1)
print(len(PROPS), "claimed,", len(NA), "not applicable,", len(used), "harnesses")
