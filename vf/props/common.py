from ..eva import Eva
from ..prop import Prop, SCOPE_NOTE
HEAP = ["-eva-alloc-builtin", "fresh", "-eva-no-alloc-returns-null", "-eva-mlevel", "80"]
UA = HEAP + ["-unsafe-arrays"]   # state structures end in a variable-length array
def REC(n): return ["-eva-unroll-recursive-calls", str(n)]
TECH = "abstract interpretation (Frama-C/EVA) of the sources against a ghost reference model"
NOTE = ("Static and path-exhaustive within the stated scope: every history, configuration and value in the scope is "
        "covered at once by the abstract interpreter, nothing is executed. Small scope (not an unbounded proof). Trusts "
        "Frama-C/EVA, the harness and its ghost model; assumes embc_fatal() does not return.")
T = ("thorough",)
Q = ("quick",)
GTECH = "abstract interpretation of LLVM IR in a GF(2)-affine bit domain (custom analyser)"
GNOTE = ("Static: every input value is covered at once, as affine forms over the input bits; nothing is executed and no solver is used. "
         "Trusts clang's IR, the transfer functions in vf/gf2.py and the reference definitions in vf/bitchecks.py; lengths are enumerated.")
GTRUST = ["clang 18 front end and -O0/-O1/-O2 IR", "vf/gf2.py transfer functions", "reference definitions in vf/bitchecks.py"]
GRULE = "every output bit of the analysed function must equal the specified affine form of the input bits; every access must lie inside its object"
def G(name):
    def f(tier):
        from .. import bitchecks
        return getattr(bitchecks, name)(tier)
    return f
