"""Shared machinery: build configuration, evidence, verdicts, known findings."""
import json, os, re, subprocess, sys, time, shutil, tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VF_REPO", "/repo"))
EVID = VERIF / "evidence"
KNOWN = VERIF / "known_findings.json"


class AnalysisError(Exception):
    """The analysis could not be carried out (exit 2): never a verdict."""


class Finding:
    def __init__(self, rule, where, what, detail="", job=""):
        self.rule, self.where, self.what, self.detail, self.job = rule, where, what, detail, job

    @property
    def key(self):
        return f"{self.job}:{self.rule}" if self.job else self.rule

    def as_dict(self):
        return {"rule": self.rule, "job": self.job, "construct": self.where,
                "what": self.what, "detail": self.detail}

    def text(self):
        return f"[{self.job}] {self.rule} at {self.where}: {self.what}" + (f" ({self.detail})" if self.detail else "")


class Result:
    """What one analysis job covered and what it found."""
    def __init__(self, job):
        self.job = job
        self.findings = []
        self.obligations = 0
        self.discharged = 0
        self.functions = set()
        self.samples = []
        self.stats = {}
        self.rule = ""


def jobs_n():
    return max(1, min(8, os.cpu_count() or 1))


def gen_config(dest):
    """Generate embc/config.h from the current config.h.in and CMakeLists.txt."""
    cm = (REPO / "CMakeLists.txt").read_text()
    m = re.search(r"project\s*\(\s*EMBC\b[^)]*VERSION\s+(\d+)\.(\d+)\.(\d+)", cm)
    if not m:
        raise AnalysisError("cannot find the project version in CMakeLists.txt")
    t = (REPO / "src/config.h.in").read_text()
    for k, v in {"EMBC_PLATFORM": "STDLIB", "PROJECT_PREFIX": "EMBC",
                 "PROJECT_VERSION_MAJOR": m[1], "PROJECT_VERSION_MINOR": m[2],
                 "PROJECT_VERSION_PATCH": m[3]}.items():
        t = t.replace(f"@{k}@", v)
    d = Path(dest) / "embc"
    d.mkdir(parents=True, exist_ok=True)
    (d / "config.h").write_text(t)
    return Path(dest)


def repo_function_names(files):
    """Names of functions defined in the given repo files (ctags-free, via gcc -E is overkill)."""
    return files


def load_known():
    if KNOWN.exists():
        return json.loads(KNOWN.read_text())
    return {"findings": [], "fixed": []}


def finish(prop, level, results, t0, tier, assumptions, trusted, explanation, extra=None,
           checker_cmd=None, rule=None):
    """Write evidence, print the verdict, return the exit code."""
    known = [k for k in load_known()["findings"] if k["property"] == prop]
    viol, knownhits = [], []
    for r in results:
        for f in r.findings:
            hit = next((k for k in known if k["key"] == f.key and
                        (not k.get("where") or re.search(k["where"], f.where + " " + f.what))), None)
            (knownhits if hit else viol).append((f, hit))
    ob = sum(r.obligations for r in results)
    di = sum(r.discharged for r in results)
    if ob == 0:
        raise AnalysisError("no obligation was generated: the rule matches nothing")
    samples = []
    for r in results:
        samples += r.samples[:4]
    cov = {"explanation": explanation, "obligations": ob, "discharged": di,
           "checker_cmd": checker_cmd or f"python3 /verif/run.py {prop}",
           "trusted_base": trusted,
           "rule": rule or "",
           "jobs": [{"job": r.job, "obligations": r.obligations, "discharged": r.discharged,
                     "functions_analysed": sorted(r.functions), **r.stats} for r in results],
           "samples": samples[:12],
           "known_findings_hit": [f.as_dict() for f, _ in knownhits]}
    if extra:
        cov.update(extra)
    EVID.mkdir(exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1, sort_keys=False) + "\n")
    replay = EVID / f"{prop}.replay.json"
    if replay.exists():
        replay.unlink()
    seen = set()
    for f, k in knownhits:
        if k["key"] not in seen:
            seen.add(k["key"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if viol:
        replay.write_text(json.dumps({"property": prop, "repo": str(REPO),
                                      "how_to_replay": f"cd {VERIF} && python3 run.py {prop}",
                                      "violations": [f.as_dict() for f, _ in viol]}, indent=1) + "\n")
        for f, _ in viol[:20]:
            print("  " + f.text())
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    print(f"OK property={prop} obligations={ob} discharged={di} wall={ev['wall_s']}s")
    return 0
