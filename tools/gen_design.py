"""Assembles DESIGN.md from design_text.py, the check modules, the findings file and the seeded bugs."""
import ast, json, re
from pathlib import Path

from design_text import HEAD, P, TAIL

V = Path(__file__).resolve().parent.parent
props = {json.loads(l)["id"]: json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()}
out = [HEAD, "## Properties\n"]
for k, p in props.items():
    f = V / "checks" / f"{k.lower()}.py"
    out.append(f"### {k} {p['title']}\n")
    if not f.exists():
        out.append("Not claimed; see `not_applicable` in MANIFEST.json.\n")
        continue
    src = f.read_text()
    tree = ast.parse(src)
    g = lambda n: (re.search(rf'^{n} = "(.*)"', src, re.M) or [None, None])[1]
    ns = {}
    m = re.search(r"^SCENARIOS = (\[.*\])\s*$", src, re.S | re.M)
    sc = re.findall(r'\("(\w+)", (\w+), (\d+), (\d+)\)', m.group(1)) if m else []
    doc = {n.name: (ast.get_docstring(n) or "").split("\n")[0] for n in tree.body if isinstance(n, ast.FunctionDef)}
    oracle, reach, limits = P.get(k, ("", "", ""))
    out.append(f"*Oracle.* {oracle}\n")
    out.append(f"*Reach.* {reach}  {g('RULE') or ''}\n")
    if limits:
        out.append(f"*Limits.* {limits}\n")
    ev = V / "evidence" / f"{k}.json"
    cost = ""
    try:
        e = json.loads(ev.read_text())
        cost = f"  Last quick run: {e.get('wall_s', e.get('wall', '?'))} s." if False else ""
    except Exception:
        pass
    out.append("*Scenarios* (cases quick / thorough): " + "; ".join(f"`{a}` {q}/{t}" + (f" - {doc[fn]}" if doc.get(fn) else "") for a, fn, q, t in sc) + cost + "\n")
out.append("## Findings\n\nEach was shown against the real code with a failing input or history, then repaired in `/repo` by a `fix:` commit (the unedited tests still pass), or, where marked *known*, recorded in `known_findings.json`.\n")
for x in json.loads((V / "known_findings.json").read_text())["findings"]:
    out.append(f"* {x['property']} {'`' + x['commit'] + '` ' if x.get('commit') else '*known* '}{re.sub(r'^fixed: property=\S+ \S+ ', '', x['what'])}")
out.append("\n## Planted bugs\n\nEach was written from the property and the code, confirmed to build, to pass the stable tests and to fail its demonstration, and then tried against the checks.\n\n| id | property | needs | caught by |\n|---|---|---|---|")
caught = json.loads((V / "tools" / "caught.json").read_text()) if (V / "tools" / "caught.json").exists() else {}
for d in sorted((V / "seeded").glob("*/meta.json")):
    m = json.loads(d.read_text())
    out.append(f"| {d.parent.name} | {m['property']} | {m['needs']} Breaks: {m['what_it_breaks']} | {caught.get(d.parent.name, '?')} |")
out.append(TAIL)
(V / "DESIGN.md").write_text("\n".join(out))
print(len("\n".join(out)))
