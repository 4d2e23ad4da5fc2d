"""Regenerates the 'fixed' list of known_findings.json from the fix: commits in /repo."""
import json, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
PROPS = {"list": "C10", "intmap": "C11", "hashmap": "C13", "strmap": "C12", "event manager": "C14", "event processing": "C14",
 "log level": "C30", "EMBC_LOG": "C30", "pattern_32a": "C26", "cli": "C27", "async sink": "C19", "async source": "C20",
 "mblock": "C18", "cstr_to": "C29", "cstr to": "C29", "fsm": "C15", "buffer allocator": "C22", "buffer string": "C21",
 "static buffer": "C21", "time conversions": "C32", "EMBC_ROUND": "C33", "converting a negative": "C32", "EMBC_BBUF": "C23",
 "EMBC_INTMAP": "C11"}
SPECIAL = json.loads((V / "tools/fix_props.json").read_text())
def main():
    p = V / "known_findings.json"
    k = json.loads(p.read_text()) if p.exists() else {"findings": [], "fixed": []}
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "a6131a6..HEAD"], text=True, capture_output=True).stdout
    out = []
    for l in log.strip().split("\n"):
        h, s = l.split(" ", 1)
        if not s.startswith("fix: "): continue
        s = s[5:]
        pr = SPECIAL.get(h) or next((v for n, v in PROPS.items() if n in s), None)
        assert pr, l
        out.append(f"fixed: property={pr} {h} {s}")
    k["fixed"] = out
    p.write_text(json.dumps(k, indent=1) + "\n")
main()
