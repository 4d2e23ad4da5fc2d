"""Engine 1: sound abstract interpretation (Frama-C/EVA) of /repo sources under a harness."""
import csv, os, re, resource, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from . import core
from .core import AnalysisError, Finding, Result, VERIF

IGNORE_KINDS = ("assigns clause", "from clause", "allocates clause")
BAD_LOG = re.compile(
    r"(Neither code nor (?:explicit )?specification for function (\w+))|(for recursive calls)|(thus incomplete)|(Aborting)|(stopping at)"
    r"|(degenerat)|(User Error)|(no 'assigns' specified|No code nor )|(not yet supported)|(ignoring unsupported)", re.I)


class Eva:
    def __init__(self, name, src, define=(), slevel=2000, opts=(), timeout=600, functions=(),
                 allow_unreached=(), tiers=("quick", "thorough"), domains=None, note="", extra=(), soft=False, machdep="gcc_x86_64", skip32=False, ticks=0):
        self.machdep, self.skip32 = machdep, skip32     # data model; harness values that need 64-bit sizes
        self.ticks = ticks or 400    # loop iterations between two obligations or case splits taken for a hang
        self.soft = soft                      # an extra-depth job: running out of time is reported, not an error
        self.extra = list(extra)              # further translation units, relative to the repository
        self.name, self.src, self.define = name, src, list(define)
        self.slevel, self.opts, self.timeout = slevel, list(opts), timeout
        self.functions = list(functions)      # anchors: must be analysed
        self.allow_unreached = set(allow_unreached)
        self.tiers, self.domains, self.note = tiers, domains, note


def _rel(p):
    p = str(p)
    for a, b in ((str(core.REPO) + "/", ""), (str(VERIF) + "/", "verif:")):
        if p.startswith(a):
            return b + p[len(a):]
    return p


def _hangs(log, job, res):
    for m in re.finditer(r"^\[eva\] (\S+?):(\d+):\s*Frama_C_show_each_TICKS:\s*\{(\d+)\}\s*$", re.sub(r"\n  +", " ", log), re.M):
        where = f"{_rel(m[1])}:{m[2]}"
        if not any(x.key == "hang" and x.where == where for x in res.findings):
            res.findings.append(Finding("hang", where, f"the loop does not end: {m[3]} iterations without a way out", "", job.name))


def run_one(job, cfgdir, work):
    t0 = time.time()
    res = Result(job.name)
    src = VERIF / "harness" / job.src
    cdefs = [f"-D{d}" for d in job.define]
    incs = [f"-I{VERIF}/harness", f"-I{core.REPO}", f"-I{core.REPO}/include", f"-I{cfgdir}",
            f"-I{core.REPO}/third-party/uthash/include", f"-I{core.REPO}/third-party/uthash/src",
            f"-I{core.REPO}/third-party/uthash"]
    # 1. the obligations, enumerated from the preprocessed harness
    pp = subprocess.run(["gcc", "-E", "-P", "-std=gnu99", *cdefs, *incs, f"-I{VERIF}/harness/fc", str(src)],
                        capture_output=True, text=True)
    if pp.returncode:
        raise AnalysisError(f"{job.name}: preprocessing failed\n{pp.stderr[-3000:]}")
    fails = re.findall(r"Frama_C_show_each_FAIL_(\w+)\s*\(", pp.stdout)
    reach = set(re.findall(r"Frama_C_show_each_REACH_(\w+)\s*\(", pp.stdout)) - {"fatal"} - job.allow_unreached
    out = work / f"{job.name}.csv"
    cmd = ["frama-c", "-eva", "-machdep", job.machdep,
           "-cpp-extra-args=" + " ".join(cdefs + incs + [f"-DVF_TICK_LIMIT={job.ticks}", "-include", f"{VERIF}/harness/vf_tick.h"] + (["-include", f"{VERIF}/harness/vf.h"] if job.extra else [])),
           "-eva-slevel", str(job.slevel), "-eva-msg-key=-initial-state,-final-states",
           "-eva-warn-key", "builtins:missing-spec=active",
           "-warn-signed-overflow", "-eva-split-limit", "300", "-eva-split-return", "full",
           "-eva-interprocedural-splits"]
    if job.domains:
        cmd += ["-eva-domains", job.domains]
    cmd += job.opts + [str(src), *[str(core.REPO / x) for x in job.extra], "-then", "-report-csv", str(out), "-report-no-proven"]
    try:
        p = subprocess.run(["timeout", "-k", "5", str(job.timeout), *cmd], capture_output=True, text=True,
                           cwd=work, preexec_fn=_deep_stack)
    except OSError as e:
        raise AnalysisError(str(e))
    log = p.stdout + p.stderr
    (work / f"{job.name}.log").write_text(log)
    if p.returncode == 124 or p.returncode == 137:
        # obligations already seen to fail stay failed: their failing branch was reached
        for m in re.finditer(r"^\[eva\] (\S+?):(\d+):\s*Frama_C_show_each_FAIL_(\w+):?(.*)$", re.sub(r"\n  +", " ", log), re.M):
            if not any(f.key == m[3] for f in res.findings):
                res.findings.append(Finding(m[3], f"{_rel(m[1])}:{m[2]}", "obligation not provable: the failing branch is reachable",
                                            f"abstract values {m[4].strip()}; the analysis was stopped after {job.timeout}s", job.name))
        _hangs(log, job, res)
        if not res.findings and not job.soft:
            raise AnalysisError(f"{job.name}: abstract interpretation did not finish in {job.timeout}s")
        res.obligations = len(res.findings)
        res.stats = {"engine": "frama-c/eva", "incomplete": f"stopped after {job.timeout}s; nothing is claimed from this job",
                     "wall_s": round(time.time() - t0, 2), "slevel": job.slevel, "note": job.note}
        return res
    if p.returncode or not out.exists() or "done for function" not in log:
        raise AnalysisError(f"{job.name}: frama-c failed ({p.returncode})\n{failure_text(log)}")
    flat = re.sub(r"\n  +", " ", log)
    for line in flat.splitlines():
        m = BAD_LOG.search(line)
        if m:
            raise AnalysisError(f"{job.name}: analysis incomplete: {line}")
    # 2. failing obligations
    seen = {}
    for m in re.finditer(r"^\[eva\] (\S+?):(\d+):\s*Frama_C_show_each_(FAIL|REACH)_(\w+):?(.*)$", flat, re.M):
        f, ln, kind, name, vals = m.groups()
        if kind == "REACH":
            reach.discard(name)
            continue
        k = (name, f, ln)
        if k not in seen:
            seen[k] = vals.strip()
    for (name, f, ln), vals in seen.items():
        res.findings.append(Finding(name, f"{_rel(f)}:{ln}", "obligation not provable: the failing branch is reachable",
                                    f"abstract values {vals}" if vals else "", job.name))
    for name in sorted(reach):
        res.findings.append(Finding("dead_" + name, f"verif:harness/{job.src}",
                                    f"required behaviour '{name}' is impossible: the point is proved unreachable",
                                    "", job.name))
    _hangs(flat, job, res)
    # 3. run-time error alarms
    al = 0
    with open(out) as fh:
        for row in csv.DictReader(fh, delimiter="\t"):
            if row["property kind"] in IGNORE_KINDS or row["function"].startswith("Frama_C_show_each"):
                continue
            if row["status"] in ("Unknown", "Invalid", "Invalid or unreachable"):
                if "eva" in row.get("status", ""):
                    pass
                d = row["directory"]
                if "FRAMAC_SHARE" in d or "/share/frama-c" in d:
                    # unproved post-conditions of library specs are not ours; their preconditions are
                    # reported at the call site (in the caller's file)
                    if not row["property kind"].startswith("precondition of"):
                        continue
                al += 1
                res.findings.append(Finding(
                    "rte_" + re.sub(r"\W+", "_", row["property kind"]) + "_" + row["function"],
                    f"{_rel(os.path.join(d, row['file']))}:{row['line']} ({row['function']})",
                    f"run-time error not excluded: {row['property kind']} {row['status']}",
                    row["property"][:200], job.name))
    m = re.search(r"(\d+) functions analyzed", log)
    nfun = int(m[1]) if m else 0
    m = re.search(r"In these functions, (\d+) statements reached \(out of (\d+)\)", log)
    st = (int(m[1]), int(m[2])) if m else (0, 0)
    proven = 0
    for m in re.finditer(r"(?:Assertions|Preconditions)\s+(\d+) valid\s+(\d+) unknown\s+(\d+) invalid", log):
        proven += int(m[1])
    res.obligations = len(fails) + proven + al + len(reach)
    res.discharged = res.obligations - len({f.key + f.where for f in res.findings})
    res.functions = set(job.functions)
    res.stats = {"engine": "frama-c/eva", "harness_obligation_sites": len(fails),
                 "functions_abstractly_interpreted": nfun, "statements_reached": st[0],
                 "statements_total": st[1], "rte_alarms": al, "wall_s": round(time.time() - t0, 2),
                 "slevel": job.slevel, "note": job.note}
    res.samples = [f"{job.name}: {n}" for n in sorted(set(fails))[:6]]
    return res


def _deep_stack():
    """The analyser recurses over large arrays: lift the soft stack limit."""
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    resource.setrlimit(resource.RLIMIT_STACK, (hard, hard))


def failure_text(log):
    """The end of a failed run's log, from the first error on."""
    at = [log.find(w) for w in ("User Error", "Unexpected error", "Fatal error", "exception") if w in log]
    i = min(at) if at else max(0, len(log) - 2000)
    return log[max(0, i - 300):i + 1700]


def run_all(jobs, tier):
    sel = [j for j in jobs if tier in j.tiers]
    if not sel:
        raise AnalysisError("no job for this tier")
    work = Path(tempfile.mkdtemp(prefix="vf_"))
    try:
        cfg = core.gen_config(work / "cfg")
        with ThreadPoolExecutor(core.jobs_n()) as ex:
            rs = list(ex.map(lambda j: run_one(j, cfg, work), sel))
        if os.environ.get("VF_KEEP"):
            shutil.copytree(work, os.environ["VF_KEEP"], dirs_exist_ok=True)
        return rs
    finally:
        shutil.rmtree(work, ignore_errors=True)
