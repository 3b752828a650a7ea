"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"].strip(),
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"] or ["return values of the public API"], hook_needed=None))) + "\n")
        i = p["id"]
        assert len(p["title"]) <= 80, p["title"]
        if os.path.exists(f"{V}/checks/{i.lower()}.py"):
            checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} --tier quick",
                               thorough_cmd=f"bash run.sh {i} --tier thorough",
                               evidence_file=f"evidence/{i}.json", technique=p["technique"],
                               level="exploration", level_note=p["level_note"]))
        else:
            na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: every monitor observes the public API."),
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
