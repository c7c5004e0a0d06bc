"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (run from anywhere)."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import NOT_APPLICABLE, PROPS  # noqa: E402

PY = "/opt/venv/bin/python"
lines, checks = [], []
for p in PROPS:
    have = os.path.exists(os.path.join(root, "checks", p["id"] + ".py"))
    if not have and p["id"] not in NOT_APPLICABLE:
        print("no check yet:", p["id"])
        continue
    assert len(p["title"]) <= 80, p["id"]
    lines.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": sorted({m[1].split(":")[0] for m in p["anchors"]}),
                    "mechanism": [{"name": n, "where": w} for n, w in p["anchors"]]},
    })
    if have:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"{PY} run_check.py {p['id']} --tier quick",
            "thorough_cmd": f"{PY} run_check.py {p['id']} --tier thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        })
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for l in lines:
        f.write(json.dumps(l, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": f"{PY} run_check.py --selftest",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(lines), "properties,", len(checks), "checks")
