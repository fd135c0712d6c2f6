#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=(), technique="", note="", state=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=why, files=files,
                      mech=mech, observe=list(observe), technique=technique, note=note, state=list(state), na=na))


exec(open(os.path.join(HERE, "tools", "propdefs.py")).read())

lines, checks, na = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], "more than three sentences")
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": list(dict.fromkeys(p["over"])), "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "state": p["state"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}}))
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                   "technique": "property-based testing (Hypothesis): " + p["technique"],
                   "level": "exploration", "level_note": p["note"]})
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": na,
           "notes": "All checks run /opt/venv/bin/python on /repo's working tree (pure Python: nothing to build); "
                    "Hypothesis comes from the installed verification venv. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(lines), "properties,", len(checks), "checks")
