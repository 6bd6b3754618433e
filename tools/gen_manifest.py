"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import json, ast
from pathlib import Path
V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
NA = json.loads((V / "tools" / "not_applicable.json").read_text())
checks, na = [], []
for p in props:
    m = V / "checks" / (p["id"].lower() + ".py")
    if not m.exists():
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    mod = ast.parse(m.read_text())
    names = {t.id: n.value for n in mod.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    tech = ast.literal_eval(names["TECHNIQUE"]) if "TECHNIQUE" in names else "runtime monitoring of the real code under seeded workloads, reference-model oracle"
    note = ast.literal_eval(names["LEVEL_NOTE"]) if "LEVEL_NOTE" in names else (
        "Holds on every monitored execution of seeded, hostile and stress workloads; not a proof. The compiled extension is replaced by numpy stand-ins (its crates are not available offline).")
    checks.append({
        "property": p["id"], "quick_cmd": f"./run.sh {m.stem} quick", "thorough_cmd": f"./run.sh {m.stem} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": tech, "level": "exploration", "level_note": note,
    })
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: monitors wrap public methods of live objects from /verif. /repo carries only fix: commits, listed in known_findings.json."}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
