#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(HERE)


def entry(pid, p):
    d = {"id": pid, "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["qtext"]},
         "why_tests_cant": p["why"],
         "anchors": {"files": list(dict.fromkeys(p["files"])),
                     "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                     "hook_needed": None}}
    if p["state"]:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
    if p["observe"]:
        d["anchors"]["observe_at"] = list(p["observe"])
    assert len(p["title"]) <= 80, pid
    return d


allp = {**PROPS, **NOT_APPLICABLE}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid in sorted(allp):
        f.write(json.dumps(entry(pid, allp[pid])) + "\n")
man = {"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": [], "not_applicable": [],
       "notes": "All checks are static: they type-check /repo's sources with clang and analyse the resulting trees; no hpsint code is executed."}
for pid in sorted(PROPS):
    p = PROPS[pid]
    man["checks"].append({"property": pid, "quick_cmd": f"python3 sa/check.py {pid}",
                          "thorough_cmd": f"python3 sa/check.py {pid} --tier thorough",
                          "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
for pid in sorted(NOT_APPLICABLE):
    man["not_applicable"].append({"property": pid, "reason": NOT_APPLICABLE[pid]["reason"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
for p in allp.values():
    for x in p["files"]:
        if not os.path.exists("/repo/" + x):
            print("missing anchor file", x)
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(V, "design", "head.md")).read())
    for pid in sorted(PROPS):
        p = PROPS[pid]
        f.write(f"\n### {pid} {p['title']}\n\n{p['statement']}\n\n"
                f"*Decided by* {p['technique']}: {p['explanation']}\n\n"
                f"*Bounds.* {p['level_note']}\n\n"
                f"*Ranges over* {p['qtext']}. *Beyond the tests:* {p['why']}\n")
    f.write("\n## Not applicable\n\n")
    for pid in sorted(NOT_APPLICABLE):
        p = NOT_APPLICABLE[pid]
        f.write(f"* **{pid} {p['title']}.** {p['reason']}\n")
    f.write("\n" + open(os.path.join(V, "design", "tail.md")).read())
