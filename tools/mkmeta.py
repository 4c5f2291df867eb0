"""Writes properties.jsonl, MANIFEST.json and the per property part of DESIGN.md from props.py."""
import glob
import json
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import props  # noqa

R = "/repo/"
claimed, na = [], []
lines = []
for p in props.P:
    files = [f for f in p["files"]]
    for f in files + [w for _, w in p["mech"]]:
        if not (os.path.exists(R + f.rstrip("/")) or glob.glob(R + f)):
            print("no such file: %s %s" % (p["id"], f))
    assert len(p["title"]) <= 80, p["id"]
    assert len(re.findall(r"[.]( |$)", p["statement"])) <= 3, (p["id"], "too many sentences")
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    if p["observe"]:
        a["observe_at"] = list(p["observe"])
    lines.append({"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
                  "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"], "anchors": a})
    if os.path.exists("%s/checks/%s.py" % (V, p["id"])) and not p["na"]:
        claimed.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py quick" % p["id"],
                        "thorough_cmd": "python3 checks/%s.py thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                        "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "not built yet"})
with open(V + "/properties.jsonl", "w") as f:
    for l in lines:
        f.write(json.dumps(l) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": claimed, "not_applicable": na,
     "notes": "No hooks were needed in /repo: all monitors observe through generated code, runtimes and sanitizers. "
              "All repairs in /repo are 'fix:' commits, listed in known_findings.txt."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
d = open(V + "/tools/design_head.md").read()
for p in props.P:
    d += "\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], " ".join(p["statement"].split()))
    d += "*Decided by:* %s. %s\n\n*Assurance:* %s\n" % (p["technique"], p["design"], p["note"])
# the planted bugs
d += "\n## Planted bugs and the checks which catch them\n\n"
d += "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
res = {}
if os.path.exists(V + "/tools/caught.json"):
    res = json.load(open(V + "/tools/caught.json"))
for q in sorted(glob.glob(V + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(q))
    x = json.load(open(q))
    d += "| %s | %s | %s | %s |\n" % (b, x["property"], x["what_it_breaks"].replace("|", "/"), res.get(b, "?"))
d += "\n" + open(V + "/tools/design_tail.md").read()
with open(V + "/DESIGN.md", "w") as f:
    f.write(d)
try:
    import jsonschema
    for s, objs in (("PROPERTIES", lines), ("MANIFEST", [m])):
        sc = json.load(open("/root/.vp/%s.schema.json" % s))
        for o in objs:
            jsonschema.validate(o, sc)
    print("valid:", len(lines), "properties,", len(claimed), "claimed")
except ImportError:
    print("not validated")
