#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and the rule registry."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [ROOT, HERE]
import props
from vg.rules.registry import RULES
with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for pid, (title, st, over, q, why, files, mech) in props.PROPS.items():
        assert len(title) <= 80, (pid, len(title))
        f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
checks, na = [], []
for pid in props.PROPS:
    if pid in RULES:
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "technique": props.TECH.get(pid, props.DEFAULT_TECH), "level": "other", "level_note": RULES[pid][2] + " " + props.NOTE.get(pid, props.DEFAULT_NOTE)})
    else:
        na.append({"property": pid, "reason": props.NOT_APPLICABLE.get(pid, "Static decision planned but no sound check is built yet; not claimed.")})
doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. Every check parses /repo's current source; nothing of it is executed."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
# DESIGN.md: the per-property section is generated between the markers
dp = os.path.join(ROOT, "DESIGN.md")
d = open(dp, encoding="utf-8").read()
A, B = "<!-- properties: begin -->", "<!-- properties: end -->"
sec = [A, "## 2. Properties and how each is decided", ""]
for pid, (title, st, over, q, why, files, mech) in props.PROPS.items():
    sec.append("**%s %s.** " % (pid, title) + ("%s  Minimum obligations: %d." % (RULES[pid][2], RULES[pid][1]) + (" " + props.NOTE[pid] if pid in props.NOTE else "")
               if pid in RULES else "*Not claimed*: " + [x["reason"] for x in na if x["property"] == pid][0]))
    sec.append("")
sec.append(B)
sec = "\n".join(sec)
if A in d:
    d = d[:d.index(A)] + sec + d[d.index(B) + len(B):]
else:
    d = d.replace("@@PROPERTIES@@", sec)
open(dp, "w", encoding="utf-8").write(d)
