#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from monitor/catalog.py.  gen.py --calibrate rewrites monitor/required.json from evidence/."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from monitor.catalog import CATALOG  # noqa: E402

PY = "/opt/venv/bin/python"


def properties():
    for c in CATALOG:
        yield {
            "id": c["id"], "title": c["title"], "statement": c["statement"], "quantifier": {"over": c["over"], "text": c["otext"]},
            "why_tests_cant": c["why"],
            "anchors": {"files": c["files"], "mechanism": [{"name": n, "where": w} for n, w in c["mechanism"]], "observe_at": c["observe"], "hook_needed": None}
        }


def manifest():
    return {
        "version": 1,
        "setup_cmd": f"{PY} -c \"import numpy, scipy, jax, pint, pydantic\"",
        "checks": [{
            "property": c["id"],
            "quick_cmd": f"{PY} monitor/run.py --property {c['id']}",
            "thorough_cmd": f"{PY} monitor/run.py --property {c['id']} --tier thorough",
            "evidence_file": f"evidence/{c['id']}.json",
            "technique": "runtime monitoring: " + c["technique"],
            "level": "exploration",
            "level_note": c["note"] + " Held on the executions observed, nothing more; trusts NumPy, SciPy and the independently written oracle.",
        } for c in CATALOG],
        "not_applicable": [],
        "notes": "No hooks in /repo: the code is pure Python, and monitors attach through its public API, user-defined subclasses and sys.settrace. "
                 "/repo's extra commits are fixes, listed in known_findings.jsonl and DESIGN.md.",
    }


def calibrate():
    out = {}
    for c in CATALOG:
        with open(os.path.join(HERE, "evidence", c["id"] + ".json"), encoding="utf-8") as f:
            ev = json.load(f)["coverage"]
        need = {k: max(1, n // 10) for k, n in ev["monitor_events"].items() if n >= 60 and k not in ("assertions", "comparisons", "refusals")}
        out[c["id"]] = {
            "rule": f"Seeded random cases over {c['otext']} (monitor/props/{c['module']}.py make()); non-trivial when the case drove the real code and the "
                    "deciding monitor evaluated its oracle on it; distinct by digest of the whole case.",
            "min": need}
    with open(os.path.join(HERE, "monitor", "required.json"), "w", encoding="utf-8") as f:
        json.dump(out, f, indent=1, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    if "--calibrate" in sys.argv:
        calibrate()
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in properties():
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")
