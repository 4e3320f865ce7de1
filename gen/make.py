#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from gen/props.py and the checks present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from gen.props import PROPS
def main():
    checks, na, lines = [], [], []
    for p in PROPS:
        have = os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))
        if not have and not p["na"]:
            continue
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"].replace("  ", " "),
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                        "observe_at": [], "hook_needed": None}}))
        if have:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"].replace("  ", " ")})
        else:
            na.append({"property": p["id"], "reason": p["na"]})
    open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
    json.dump({"version": 1, "setup_cmd": "python3 -m sa.extract", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: every check reads /repo's current source through the compiler. Known findings: KNOWN_FINDINGS.txt."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(lines), "properties,", len(checks), "checks,", len(na), "not applicable")
main()
