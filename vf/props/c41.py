from .common import *
from .. import effects
from .c38 import IR, TR
P = Prop(
 "C41", "Calls neither block, nor do input or output, nor recurse",
 "No function of the library calls itself directly or through other library functions or uses a stack frame whose size depends on data, so that the stack need is a constant. Apart from the default handlers of the hosted port in lib.c, the library's only ways to the outside are the application's callbacks, the allocator and the log handler: it performs no input or output, reads no clock and never waits.",
 ["inputs", "histories"], "Every function and every call site of the library, of inline functions and of the code that the typed-map macros generate.",
 "The tests run with an ample stack, shallow structures and a console that accepts output.",
 ["src", "include/embc"],
 [("all functions", "src, include/embc")],
 "proof", IR.replace("effect analysis (which parameters and globals each function writes, keeps, returns)", "call-graph effect analysis (recursion, frame size, outside calls)"),
 "Decides the direct call graph of the current tree; recursion through the application's callbacks is the application's choice. Loop termination is decided by the other properties.",
 "The direct call graph is checked for cycles, every stack allocation for a constant size, and every call that leaves the library against the C library functions that only compute.",
 assumptions=["the application's callbacks and handlers are outside the library"],
 trusted=TR,
 rule="the direct call graph is acyclic; each alloca has a constant size; each external callee is a pure, memory, heap or abort function, or output in src/lib.c",
 extra=[effects.bounded])
