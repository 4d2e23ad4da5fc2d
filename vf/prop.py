"""Declarative description of a property and of the static check that decides it."""
import copy, time
from . import core, eva

EVA_TRUST = ["Frama-C 25.0 (EVA abstract interpreter, kernel C front end, libc specifications and builtins)",
             "the harness under /verif/harness (inputs, ghost reference model, obligations)",
             "gcc_x86_64 machine model (and gcc_x86_32 for the jobs named _32bit)"]
EVA_RULE = ("every VF_CHECK failing branch and every undefined-behaviour condition (memory access, signed overflow, "
            "shift, division, uninitialised read, library precondition) in the code reached from the harness must be "
            "proved unreachable by the abstract interpreter; every VF_REACH point must not be proved unreachable")
COMMON_ASSUME = ["embc_fatal() does not return (assert.h declares the condition fatal)",
                 "single-threaded use, as the headers state", "logging has no side effect"]


def as32(job, tier, suffix="_32bit", machdep="gcc_x86_32"):
    j = copy.copy(job)
    j.name, j.machdep, j.tiers = job.name + suffix, machdep, (tier,)
    return j


class Prop:
    def __init__(self, id, title, statement, over, quant, why, files, mech, level, technique, note,
                 explanation, jobs=(), extra=(), assumptions=(), trusted=None, rule=None, findings=(), quick32=False, big_endian=False):
        self.quick32, self.big_endian = quick32, big_endian
        self.id, self.title, self.statement = id, title, statement
        self.over, self.quant, self.why = over, quant, why
        self.files, self.mech = files, mech
        self.level, self.technique, self.note = level, technique, note
        self.explanation = explanation
        self.jobs, self.extra = list(jobs), list(extra)
        self.assumptions = COMMON_ASSUME + list(assumptions) if jobs else list(assumptions)
        self.trusted = trusted if trusted is not None else EVA_TRUST
        self.rule = rule or EVA_RULE

    def property_line(self):
        return {"id": self.id, "title": self.title, "statement": self.statement,
                "quantifier": {"over": self.over, "text": self.quant},
                "why_tests_cant": self.why,
                "anchors": {"files": self.files,
                            "mechanism": [{"name": n, "where": w} for n, w in self.mech]}}

    def manifest_line(self):
        return {"property": self.id, "quick_cmd": f"python3 run.py {self.id}",
                "thorough_cmd": f"python3 run.py {self.id} --tier thorough",
                "technique": self.technique, "level": self.level, "level_note": self.note + self.targets()}

    def targets(self):
        if not self.jobs: return ""
        return (" Decided for 64-bit and 32-bit data models" + ("" if self.quick32 else " (32-bit in the thorough tier)") +
                ("; big-endian in the thorough tier" if self.big_endian else "") + ".")

    def check(self, prop, tier, t0):
        res = []
        jobs = list(self.jobs)
        # the same analysis for a 32-bit target, whose pointers and sizes have 32 bits
        if tier == "thorough" or self.quick32: jobs += [as32(j, tier) for j in self.jobs if "quick" in j.tiers and not j.skip32]
        if tier == "thorough" and self.big_endian: jobs += [as32(j, tier, "_bigendian", "ppc_32") for j in self.jobs if "quick" in j.tiers and not j.skip32]
        if any(tier in j.tiers for j in jobs):
            res += eva.run_all(jobs, tier)
        for fn in self.extra:
            r = fn(tier)
            res += r if isinstance(r, list) else [r]
        return core.finish(self.id, self.level, res, t0, tier, self.assumptions, self.trusted,
                           self.explanation, rule=self.rule)


SCOPE_NOTE = ("Sound for every concretisation of the harness' abstract inputs and every interleaving of the listed "
              "operations up to the stated scope; not an unbounded proof. ")
