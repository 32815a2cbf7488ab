#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None,
         technique=None, note=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
        mech=mech, state=state, observe=observe, hook=hook, technique=technique, note=note, level=level))

exec(open(os.path.join(V, "tools", "props_data.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                    "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}) + "\n")
    checks, na = [], []
    built = set(open(os.path.join(V, "tools", "built.txt")).read().split()) if os.path.exists(os.path.join(V, "tools", "built.txt")) else set()
    for p in P:
        if p["id"] in built:
            checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick",
                "thorough_cmd": f"./check.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "No check built yet.")})
    hooks = {"guard": "pmcp_mc (rustc --cfg)", "enable": "build.sh passes RUSTFLAGS=--cfg pmcp_mc",
        "source_commits": HOOKS}
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "hooks": hooks, "checks": checks, "not_applicable": na,
        "notes": NOTES}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "n/a")
main()
