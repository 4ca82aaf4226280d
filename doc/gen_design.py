#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from doc/*.json, known_findings.json and seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = json.load(open(V + "/doc/design.json")); NA = json.load(open(V + "/doc/not_applicable.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
K = json.load(open(V + "/known_findings.json"))
caught = json.load(open(V + "/doc/caught.json")) if os.path.exists(V + "/doc/caught.json") else {}
t = open(V + "/doc/DESIGN.tmpl.md").read()
t = t.replace("@@PROPS@@", "\n".join("### %s %s\n%s\n" % (p["id"], p["title"], D.get(p["id"], "(planned)")) for p in props if p["id"] not in NA))
t = t.replace("@@NA@@", "\n".join("* %s %s: %s" % (p["id"], p["title"], NA[p["id"]]) for p in props if p["id"] in NA) + "\n")
f = []
for e in K.get("known", []):
    f.append("* known, not repaired (%s): %s" % (e.get("property"), e.get("what", e.get("key"))))
for e in K.get("fixed", []):
    f.append("* " + (e if isinstance(e, str) else json.dumps(e)))
t = t.replace("@@FINDINGS@@", "\n".join(f) + "\n")
s = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    s.append("* `%s` (%s): %s. Needs: %s. %s" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "")))
t = t.replace("@@SEEDS@@", "\n".join(s) + "\n")
open(V + "/DESIGN.md", "w").write(t)
