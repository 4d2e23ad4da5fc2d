"""Regenerates DESIGN.md from tools/DESIGN.in.md, the property modules and seeded/*/meta.json."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
import importlib
rows = []
for p in sorted((V / "vf/props").glob("c*.py")):
    if p.stem == "common": continue
    m = importlib.import_module("vf.props." + p.stem).P
    rows.append(f"### {m.id} {m.title}\n- **Decided by**: {m.technique}.\n- **How**: {m.explanation}\n- **Scope**: {m.quant}\n- **Why not tests**: {m.why}\n"
                + (f"- **Jobs**: {', '.join(j.name + ('' if len(j.tiers) > 1 else ' (' + j.tiers[0] + ')') for j in m.jobs)}\n" if m.jobs else ""))
na = json.loads((V / "vf/props/not_applicable.json").read_text())
nas = "\n".join(f"- **{e['line']['id']} {e['line']['title']}**: {e['reason']}" for e in na) or "None."
k = json.loads((V / "known_findings.json").read_text())["findings"]
fs = "\n".join(f"- {f['property']} `{f['key']}`: {f['what']}" for f in k) or "none."
res = {}
rp = V / "tools/seeded_results.json"
if rp.exists(): res = json.loads(rp.read_text())
sd = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").glob("*/meta.json")):
    m = json.loads(d.read_text())
    sd.append(f"| {d.parent.name} | {m['property']} | {m['needs']} | {res.get(d.parent.name, '?')} |")
t = (V / "tools/DESIGN.in.md").read_text()
for a, b in (("@@TABLE@@", "\n".join(rows)), ("@@NA@@", nas), ("@@FINDINGS@@", fs), ("@@SEEDED@@", "\n".join(sd))):
    t = t.replace(a, b)
(V / "DESIGN.md").write_text(t)
