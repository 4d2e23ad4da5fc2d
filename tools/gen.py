#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from vf/props and vf/props/not_applicable.json."""
import importlib, json, sys
from pathlib import Path
sys.dont_write_bytecode = True
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
ps = [importlib.import_module(f"vf.props.{p.stem}").P for p in sorted((V / "vf/props").glob("c[0-9]*.py"))]
na = json.loads((V / "vf/props/not_applicable.json").read_text())
lines = [p.property_line() for p in ps] + [n["line"] for n in na]
lines.sort(key=lambda x: x["id"])
(V / "properties.jsonl").write_text("".join(json.dumps(x) + "\n" for x in lines))
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [p.manifest_line() for p in ps],
     "not_applicable": [{"property": n["line"]["id"], "reason": n["reason"]} for n in na],
     "notes": "No hooks: the checks analyse /repo's sources unmodified. Every check exits 2 (no verdict) when its analysis cannot be carried out."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
for x in lines:
    assert len(x["title"]) <= 80, x["title"]
    s = x["statement"]
    assert s.count(". ") <= 2, (x["id"], s.count(". "))
print(len(ps), "claimed", len(na), "not applicable")
