"""Adds or replaces one property in properties.jsonl: props.add(id, title, statement, over, qtext, why, files, mechanism)."""
import json
from pathlib import Path
F = Path(__file__).resolve().parent.parent / "properties.jsonl"
def add(id, title, statement, over, qtext, why, files, mech):
    ps = {}
    for l in F.read_text().splitlines():
        if l.strip():
            p = json.loads(l); ps[p["id"]] = p
    assert len(title) <= 80, title
    ps[id] = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": [], "hook_needed": None}}
    F.write_text("".join(json.dumps(ps[k]) + "\n" for k in sorted(ps)))
