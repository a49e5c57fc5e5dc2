#!/opt/veriftools/pyvenv/bin/python
"""Writes properties.jsonl and MANIFEST.json from obligations.py."""
import json
import os

from obligations import PROPS, NOT_APPLICABLE

H = os.path.dirname(os.path.abspath(__file__))
NOTE = (
    "Decides equality of the value graph of the code with that of a reference for all inputs at once, over real/complex arithmetic, "
    "relative to the library models in engine/. PROVED obligations hold for every input; an obligation the engine cannot normalise "
    "is reported as undecided in the evidence, never as an alarm; an alarm needs two points at which the two graphs provably differ. "
    "Trusted: engine, library models, reference in spec/. ")


def line(pid, p):
    return {
        "id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} if isinstance(b, str) else {"name": a} for a, b in [
            (m if len(m) == 2 else (m[0], p["files"][0])) for m in p["mech"]]], "observe_at": p["observe"], "hook_needed": None},
    }


with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for pid in sorted(PROPS):
        f.write(json.dumps(line(pid, PROPS[pid])) + "\n")
    for pid in sorted(NOT_APPLICABLE):
        f.write(json.dumps(line(pid, NOT_APPLICABLE[pid])) + "\n")

man = {
    "version": 1,
    "setup_cmd": "/opt/veriftools/pyvenv/bin/python -m compileall -q check.py obligations.py engine spec rules",
    "checks": [{
        "property": pid,
        "quick_cmd": f"./check.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": p.get("technique", "abstract interpretation of the source to gated value graphs, compared with a reference by global value numbering"),
        "level": "translation_validation",
        "level_note": NOTE + "Rule: " + p["rule"] + ".",
    } for pid, p in sorted(PROPS.items())],
    "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(NOT_APPLICABLE.items())],
    "notes": "No hooks in /repo. See DESIGN.md.",
}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
