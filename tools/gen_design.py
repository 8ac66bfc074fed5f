#!/opt/venv/bin/python
"""Development helper: writes /verif/DESIGN.md from tools/design_*.md, the property table, the checks' own families
and assumptions, known_findings.txt, and the recorded results of the planted bugs (tools/plant_results.json)."""
import importlib, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path[:0] = [ROOT, "/repo/python"]
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
claimed = json.load(open(HERE + "/claimed.json"))
notes = {}
for part in re.split(r"(?m)^## (?=C\d\d)", open(HERE + "/design_props.md").read())[1:]:
    id, text = part.split("\n", 1); notes[id.strip()] = text.strip()
known = [l for l in open(ROOT + "/known_findings.txt").read().splitlines() if l.startswith("known:")]
fixed = [l for l in open(ROOT + "/known_findings.txt").read().splitlines() if l.startswith("fixed:")]
from mon.core import QUICK
out = [open(HERE + "/design_head.md").read().rstrip(), "\n\n## Properties and how each is decided\n"]
for p in props:
    id = p["id"]
    if id not in claimed: continue
    m = importlib.import_module("mon.props." + id.lower())
    out.append(f"\n### {id} — {p['title']}\n\n{p['statement']}\n\n{notes.get(id, 'TODO')}\n")
    fam = "; ".join(f"`{f.name}` {min(f.quick * QUICK, f.thorough)}/{f.thorough}" for f in m.FAMILIES)
    out.append(f"\n* Cases (quick/thorough): {fam}. Must be observed for a verdict: {', '.join(sorted({e for f in m.FAMILIES for e in f.need})) or '-'}.")
    out.append("\n* Assumptions: " + "; ".join(getattr(m, "ASSUMPTIONS", [])) + ".")
    k = [re.match(r"known: property=\S+ key=(\S+)", l)[1] for l in known if f"property={id} " in l]
    n = sum(f"property={id} " in l for l in fixed)
    if k or n:
        out.append(f"\n* Findings: {n} repaired; known: {', '.join(k) or 'none'}.")
    out.append("\n")
out.append("\n## Known findings\n\nGenuine defects that are recorded and not repaired (`known_findings.txt`):\n\n")
out += [f"* {re.sub(r'^known: property=(\S+) key=(\S+) ', r'**\1 \2**: ', l)}\n" for l in known]
out.append(f"\n{len(fixed)} defects were repaired, each in its own `fix:` commit; they are the `fixed:` lines of the same file.\n")
out.append("\n" + open(HERE + "/design_tail.md").read().strip() + "\n")
f = HERE + "/plant_results.json"
if os.path.exists(f):
    r = json.load(open(f))
    out.append("\n## Planted bugs\n\n`seeded/<id>`; result of the quick tier of the property's own check with seed 1.\n\n| bug | property | needs | result |\n|---|---|---|---|\n")
    for id in sorted(os.listdir(ROOT + "/seeded")):
        m = json.load(open(f"{ROOT}/seeded/{id}/meta.json"))
        out.append(f"| {id} | {m['property']} | {m['needs'].replace('|', '/')} | {r.get(id, '?')} |\n")
open(ROOT + "/DESIGN.md", "w").write("".join(out))
