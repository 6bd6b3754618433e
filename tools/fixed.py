"""Records a fix commit: python3 tools/fixed.py PROP HASH"""
import json, sys, subprocess
from pathlib import Path
F = Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(F.read_text())
p, h = sys.argv[1:3]
h = subprocess.check_output(["git","-C","/repo","rev-parse","--short",h],text=True).strip()
s = subprocess.check_output(["git","-C","/repo","log","-1","--format=%s",h],text=True).strip().removeprefix("fix: ")
if not any(x["key"] == f"{p}-{h}" for x in d["findings"]):
    d["findings"].append({"property": p, "status": "fixed", "key": f"{p}-{h}", "commit": h, "what": f"fixed: property={p} {h} {s}"})
F.write_text(json.dumps(d, indent=1) + "\n")
