from .common import *
from .. import effects
IR = "static-analysis: interprocedural effect analysis (which parameters and globals each function writes, keeps, returns) on LLVM IR of the whole library"
TR = ["clang 18 (translation to LLVM IR at -O1)", "the dataflow in vf/effects.py"]
P = Prop(
 "C38", "Instances share nothing: the library has no hidden state",
 "Apart from the process-wide configuration (allocator, log handler, fatal and print handlers), which only the functions documented to set it change, no function of the library writes or hands out memory that is shared between instances. Two instances used alternately, from nested callbacks or from different threads, therefore never influence each other.",
 ["inputs", "histories", "schedules"], "Every function of every library source, every inline function and the code that the typed-map macros generate, for all inputs and all interleavings of uses of different instances.",
 "The tests use one instance at a time; state in a static variable shows only when two uses overlap.",
 ["src", "include/embc"],
 [("process-wide configuration", "src/lib.c, src/log.c, src/platform.c"), ("all other functions", "src, include/embc")],
 "proof", IR,
 "Decides every function of the current tree; what the application's own callbacks share is not the library's.",
 "All library sources and a unit with every inline function are compiled to LLVM IR. For every non-constant variable with static storage, the analysis computes over the call graph which functions write it, keep its address or return it; only the configuration functions may.",
 assumptions=["the application's callbacks and handlers are outside the library", "C library functions are described by a table in vf/effects.py; functions with hidden state such as strtok() count as shared state"],
 trusted=TR,
 rule="no function reachable from a public function outside the configuration functions stores to, or lets escape, a variable with static storage duration that is ever written",
 extra=[effects.hidden_state])
